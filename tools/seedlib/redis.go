
// demoRedis is a message broker: the server's end of a connection.
type demoRedis struct {
	l  net.Listener
	m  sync.Mutex
	on func(c net.Conn, cmd []string) bool // false: drop the connection
}

func newDemoRedis(t *testing.T, on func(c net.Conn, cmd []string) bool) *demoRedis {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	r := &demoRedis{l: l, on: on}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer c.Close()
				b := bufio.NewReader(c)
				for {
					n := 0
					if _, err := fmt.Fscanf(b, "*%d\r\n", &n); err != nil {
						return
					}
					var cmd []string
					for i := 0; i < n; i++ {
						k := 0
						if _, err := fmt.Fscanf(b, "$%d\r\n", &k); err != nil {
							return
						}
						buf := make([]byte, k+2)
						if _, err := io.ReadFull(b, buf); err != nil {
							return
						}
						cmd = append(cmd, string(buf[:k]))
					}
					if !r.on(c, cmd) {
						return
					}
				}
			}()
		}
	}()
	return r
}
