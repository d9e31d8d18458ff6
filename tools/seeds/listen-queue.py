property='C25'
edits={'internal/pubsub/redis/redis.go':[
('''	done := make(chan error, 1)

	// Start''','''	done := make(chan error, 1)
	// Handle messages beside receiving them, so that pings are answered in time
	queue := make(chan redis.Message, 16)
	defer close(queue)
	go func() {
		for n := range queue {
			if err := onMessage(n.Channel, n.Data); err != nil {
				select {
				case done <- err:
				default:
				}
			}
		}
	}()

	// Start'''),('''				if err := onMessage(n.Channel, n.Data); err != nil {
					done <- err
					return
				}
			case redis.Sub''','''				select {
				case queue <- n:
				default:
				}
			case redis.Sub''')]}
pkg='internal/pubsub/redis'
needs='more than 16 messages arriving while one is handled'
breaks='messages are dropped when the queue is full'
demo='''
package redis

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"net"
	"sync"
	"testing"
	"time"
)
'''+open('/verif/tools/seedlib/redis.go').read()+'''
func TestDemo(t *testing.T) {
	r := newDemoRedis(t, func(c net.Conn, cmd []string) bool {
		switch cmd[0] {
		case "SUBSCRIBE":
			io.WriteString(c, "*3\\r\\n$9\\r\\nsubscribe\\r\\n$2\\r\\nch\\r\\n:1\\r\\n")
			for i := 0; i < 60; i++ {
				fmt.Fprintf(c, "*3\\r\\n$7\\r\\nmessage\\r\\n$2\\r\\nch\\r\\n$2\\r\\n%02d\\r\\n", i)
			}
		case "UNSUBSCRIBE":
			io.WriteString(c, "*3\\r\\n$11\\r\\nunsubscribe\\r\\n$2\\r\\nch\\r\\n:0\\r\\n")
		}
		return true
	})
	p, err := NewPubSub("tcp", r.l.Addr().String(), "")
	if err != nil {
		t.Fatal(err)
	}
	got := make(chan string, 99)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	go p.ListenChannels(ctx, func() error { return nil }, func(ch string, data []byte) error {
		time.Sleep(3 * time.Millisecond)
		got <- string(data)
		return nil
	}, "ch")
	for i := 0; i < 60; i++ {
		select {
		case s := <-got:
			if s != fmt.Sprintf("%02d", i) {
				t.Fatalf("got %s for message %d", s, i)
			}
		case <-time.After(10 * time.Second):
			t.Fatalf("no message %d", i)
		}
	}
}
'''
