// Package redish holds the harnesses for internal/pubsub.
package redish

import (
	"bytes"
	"context"
	"errors"
	"io"
	"net"
	"strconv"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub/redis"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/sym"
)

var errSim = errors.New("simulated failure")

// server stands in for the Redis server.
type server struct {
	conns     []*conn
	refuse    int // the number of the connection that is refused, from 1
	network   string
	address   string
	password  string
	badAuth   bool // the password is wrong
	chunk     int  // bytes per read, or 0
	noPublish int  // the number of the PUBLISH that fails, from 1
	dropOn    string
	slowSubs  bool
	published [][]string
}

var srv *server

// conn is the client's end of a connection to the server.
type conn struct {
	net.Conn
	in       chan []byte
	gone     bool
	buf      []byte
	out      []byte
	closed   chan struct{}
	isClosed bool
	deadline time.Time
	authed   bool
	mute     bool // the server does not answer any more
	noWrite  bool // writing fails
	subs     []string
	slowSubs bool // do not confirm subscriptions yet
	pings    int
	unsubs   int
	bad      int // unknown commands
	reads    int // reads in progress
	overlap  bool
}

//verif:stub (*net.Dialer).DialContext
func dial(d *net.Dialer, ctx context.Context, network, address string) (net.Conn, error) {
	c := &conn{in: make(chan []byte, 1024), closed: make(chan struct{}), slowSubs: srv.slowSubs}
	if network != srv.network || address != srv.address {
		return nil, errSim
	}
	srv.conns = append(srv.conns, c)
	if len(srv.conns) == srv.refuse {
		c.isClosed = true
		return nil, errSim
	}
	return c, nil
}

func (c *conn) Close() error {
	if !c.isClosed {
		c.isClosed = true
		close(c.closed)
	}
	return nil
}

func (c *conn) SetReadDeadline(t time.Time) error  { c.deadline = t; return nil }
func (c *conn) SetWriteDeadline(t time.Time) error { return nil }
func (c *conn) SetDeadline(t time.Time) error      { c.deadline = t; return nil }

func (c *conn) Read(p []byte) (int, error) {
	c.reads++
	if c.reads > 1 {
		c.overlap = true
	}
	defer func() { c.reads-- }()
	if c.isClosed {
		return 0, net.ErrClosed
	}
	for len(c.buf) == 0 {
		var late <-chan time.Time
		if !c.deadline.IsZero() {
			d := time.Until(c.deadline)
			if d <= 0 {
				return 0, errSim
			}
			t := time.NewTimer(d)
			defer t.Stop()
			late = t.C
		}
		select {
		case b, ok := <-c.in:
			if !ok {
				return 0, io.EOF
			}
			c.buf = b
		case <-c.closed:
			return 0, net.ErrClosed
		case <-late:
			return 0, errSim
		}
	}
	n := len(c.buf)
	if srv.chunk > 0 && n > srv.chunk {
		n = srv.chunk
	}
	n = copy(p, c.buf[:n])
	c.buf = c.buf[n:]
	return n, nil
}

func (c *conn) Write(p []byte) (int, error) {
	if c.isClosed || c.noWrite {
		return 0, errSim
	}
	c.out = append(c.out, p...)
	for {
		args, n := command(c.out)
		if n == 0 {
			return len(p), nil
		}
		c.out = c.out[n:]
		c.run(args)
	}
}

// command reads a command in the protocol of Redis.
func command(b []byte) ([]string, int) {
	i := 0
	num := func(prefix byte) (int, bool) {
		if i >= len(b) || b[i] != prefix {
			return 0, false
		}
		n := 0
		for i++; i < len(b) && b[i] != '\r'; i++ {
			n = n*10 + int(b[i]-'0')
		}
		i += 2
		return n, i <= len(b)
	}
	k, ok := num('*')
	if !ok {
		return nil, 0
	}
	var args []string
	for ; k > 0; k-- {
		n, ok := num('$')
		if !ok || i+n+2 > len(b) {
			return nil, 0
		}
		args = append(args, string(b[i:i+n]))
		i += n + 2
	}
	return args, i
}

// reply sends bytes to the client.
func (c *conn) reply(b []byte) {
	if !c.gone && !c.mute {
		c.in <- b
	}
}

func bulk(b []byte, s []byte) []byte {
	b = append(append(append(b, '$'), strconv.Itoa(len(s))...), "\r\n"...)
	return append(append(b, s...), "\r\n"...)
}

func push(kind, channel string, count int) []byte {
	b := bulk(bulk([]byte("*3\r\n"), []byte(kind)), []byte(channel))
	return append(append(append(b, ':'), strconv.Itoa(count)...), "\r\n"...)
}

func (c *conn) confirm(i int) { c.reply(push("subscribe", c.subs[i], i+1)) }

// drop ends the connection.
func (c *conn) drop() {
	if !c.gone {
		c.gone = true
		close(c.in)
	}
}

func (c *conn) run(args []string) {
	if args[0] == srv.dropOn {
		c.drop()
		return
	}
	switch {
	case args[0] == "AUTH" && len(args) == 2:
		if srv.badAuth || args[1] != srv.password {
			c.reply([]byte("-ERR invalid password\r\n"))
			return
		}
		c.authed = true
		c.reply([]byte("+OK\r\n"))
	case srv.password != "" && !c.authed:
		c.bad++
		c.reply([]byte("-NOAUTH Authentication required.\r\n"))
	case args[0] == "SUBSCRIBE" && len(args) > 1:
		c.subs = args[1:]
		if !c.slowSubs {
			for i := range c.subs {
				c.confirm(i)
			}
		}
	case args[0] == "PING" && len(args) == 2 && args[1] == "":
		c.pings++
		c.reply([]byte("*2\r\n$4\r\npong\r\n$0\r\n\r\n"))
	case args[0] == "UNSUBSCRIBE":
		c.unsubs++
		for i := range c.subs {
			c.reply(push("unsubscribe", c.subs[i], len(c.subs)-1-i))
		}
	case args[0] == "PUBLISH" && len(args) == 3:
		srv.published = append(srv.published, args[1:])
		if len(srv.published) == srv.noPublish {
			c.reply([]byte("-ERR simulated\r\n"))
			return
		}
		c.reply([]byte(":1\r\n"))
	default:
		c.bad++
		c.reply([]byte("-ERR unknown command\r\n"))
	}
}

type message struct {
	channel string
	data    []byte
}

// CheckListener listens on channels of a server on which anything can fail.
func CheckListener() {
	srv = &server{network: "tcp", address: "broker:6379", chunk: []int{0, 1, 7}[sym.Choose("chunks", 3)]}
	if sym.Bool("password") {
		srv.password = "pw"
	}
	channels := []string{"to-rec", "to-all"}[:1+sym.Choose("more channels", 2)]
	adapter := len(channels) == 1 && sym.Bool("adapter")
	startFails := !adapter && sym.Bool("start fails")
	failAt := 0
	if !adapter {
		failAt = sym.Choose("failing message", 3)
	}
	slow := sym.Bool("slow handler")
	var got []message
	starts, running := 0, 0
	var overlap bool
	onStart := func() error {
		starts++
		if startFails {
			return errSim
		}
		return nil
	}
	onMessage := func(channel string, data []byte) error {
		running++
		if running > 1 {
			overlap = true
		}
		got = append(got, message{channel, append([]byte{}, data...)})
		n := len(got)
		if slow {
			time.Sleep(2 * time.Minute)
		}
		running--
		if n == failAt {
			return errSim
		}
		return nil
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	stop := cancel
	var returned bool
	var ret error
	if adapter {
		r := pubsub.NewRedis(config.Redis{Network: "tcp", Address: "broker:6379", Password: srv.password})
		stop = r.Unsubscribe
		go func() {
			r.Subscribe(channels[0], func(_ context.Context, m []byte) { onMessage(channels[0], m) }, onStart)
			returned = true
		}()
	} else {
		p, err := redis.NewPubSub("tcp", "broker:6379", srv.password)
		sym.Assert(err == nil && p != nil, "C25: the server can be reached")
		go func() {
			ret = p.ListenChannels(ctx, onStart, onMessage, channels...)
			returned = true
		}()
	}
	sym.Settle()
	sym.Assert(len(srv.conns) > 0 && returned == startFails, "C25: the server is connected to")
	if len(srv.conns) == 0 || returned != startFails {
		return
	}
	for _, x := range srv.conns[:len(srv.conns)-1] {
		sym.Assert(x.isClosed, "C25: only one connection is kept")
	}
	c := srv.conns[len(srv.conns)-1]
	sym.Assert(starts == 1 && len(c.subs) == len(channels), "C25: readiness is announced when the subscription is confirmed")
	var sent []message
	many := sym.Param("many", 0)
	send := func(channel string) {
		data := sym.Bytes("message", 2)
		if many > 0 && len(sent)%16 == 5 { // longer than the buffers
			data = append(make([]byte, 5000), data...)
		}
		if !c.gone && !c.mute {
			sent = append(sent, message{channel, data})
		}
		c.reply(bulk(bulk(bulk([]byte("*3\r\n"), []byte("message")), []byte(channel)), data))
	}
	ended, fails := startFails, startFails
	limit := time.Duration(0)
	for i := 0; i < sym.Param("K", 3) && !ended; i++ {
		wait := time.Duration(0)
		switch sym.Choose("event", 8) {
		case 0:
			send(channels[len(channels)-1])
			if failAt > 0 && len(sent) >= failAt {
				ended, fails = true, true
			}
		case 1:
			send(channels[0])
			send(channels[len(channels)-1])
			for i := 0; i < many; i++ {
				send(channels[i%len(channels)])
			}
			if failAt > 0 && len(sent) >= failAt {
				ended, fails = true, true
			}
		case 2: // nothing happens for a while
			wait = time.Duration(30+60*sym.Choose("quiet", 2)) * time.Second
		case 3:
			c.drop()
			ended, fails = true, true
		case 4:
			c.mute = true
			ended, fails = true, true
			limit = 131 * time.Second
		case 5:
			c.noWrite = true
			ended, fails = true, true
			limit = 61 * time.Second
		case 6:
			stop()
			ended = true
		case 7: // with messages to be handled
			send(channels[0])
			send(channels[len(channels)-1])
			for i := 0; i < many; i++ {
				send(channels[i%len(channels)])
			}
			fails = failAt > 0 && len(sent) >= failAt
			stop()
			ended = true
		}
		if slow && !ended {
			wait += 5*time.Minute + time.Duration(many)*2*time.Minute
		}
		sym.Settle()
		if wait > 0 {
			sym.Advance(wait)
		}
		if !ended {
			sym.Assert(!returned && !c.isClosed, "C25: listening goes on while nothing fails")
			sym.Assert(len(got) == len(sent), "C25: every message is handled")
		}
	}
	if ended && slow {
		limit += 10*time.Minute + time.Duration(many)*2*time.Minute
	}
	if limit > 0 {
		sym.Advance(limit)
	}
	if ended {
		sym.Cover("ended")
		if fails {
			sym.Cover("failed")
		}
		sym.Assert(returned, "C25: listening ends when it fails or is told to")
		if !adapter {
			sym.Assert((ret != nil) == fails, "C25: an error is returned exactly when something failed")
		}
		sym.Assert(c.isClosed, "C25: the connection is closed at the end")
	} else {
		before := c.pings
		sym.Advance(5 * time.Minute)
		sym.Cover("quiet")
		sym.Assert(!returned && !c.isClosed, "C25: listening goes on while nothing happens")
		sym.Assert(c.pings > before && c.pings <= before+30, "C25: the server is checked on regularly")
	}
	sym.Assert(starts == 1, "C25: readiness is announced once")
	sym.Assert(!overlap && !c.overlap && c.bad == 0, "C25: messages are handled one at a time")
	want := len(sent)
	if failAt > 0 && failAt < want {
		want = failAt
	}
	sym.Assert(len(got) == want, "C25: every message is handled once, until handling fails")
	for i := range got {
		if i < len(sent) {
			sym.Assert(got[i].channel == sent[i].channel && bytes.Equal(got[i].data, sent[i].data), "C25: messages are handled in order and unchanged")
		}
	}
	if len(got) > 1 {
		sym.Cover("several messages")
	}
	if !returned {
		stop()
		sym.Settle()
		sym.Assert(returned && c.isClosed, "C25: listening ends when it is told to")
		if !adapter {
			sym.Assert(ret == nil, "C25: being told to stop is no failure")
		}
	}
	sym.Cover("done")
}

// CheckSubscribing looks at what happens until the subscription is confirmed.
func CheckSubscribing() {
	srv = &server{network: "tcp", address: "broker:6379", slowSubs: true}
	pw := ""
	if sym.Bool("password") {
		pw = "pw"
		srv.password = pw
		srv.badAuth = sym.Bool("wrong password")
	}
	srv.refuse = sym.Choose("refused connection", 3)
	p, err := redis.NewPubSub("tcp", "broker:6379", pw)
	for _, x := range srv.conns {
		sym.Assert(x.isClosed, "C25: no connection is left behind")
	}
	if srv.refuse == 1 || srv.badAuth {
		sym.Cover("unreachable")
		sym.Assert(err != nil, "C25: an unreachable server is reported")
		return
	}
	sym.Assert(err == nil && p != nil, "C25: the server can be reached")
	if p == nil {
		return
	}
	channels := []string{"to-rec", "to-all"}[:1+sym.Choose("more channels", 2)]
	if sym.Bool("dropped") {
		srv.dropOn = "SUBSCRIBE"
	}
	starts, handled := 0, 0
	var returned bool
	var ret error
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	go func() {
		ret = p.ListenChannels(ctx, func() error { starts++; return nil }, func(string, []byte) error { handled++; return nil }, channels...)
		returned = true
	}()
	if srv.refuse == 2 || srv.dropOn != "" {
		sym.Settle()
		sym.Cover("no subscription")
		sym.Assert(returned && ret != nil && starts == 0, "C25: a failed subscription ends listening with an error")
		for _, x := range srv.conns {
			sym.Assert(x.isClosed, "C25: no connection is left behind")
		}
		return
	}
	sym.Settle()
	if len(srv.conns) != 2 || returned {
		sym.Assert(false, "C25: the server is connected to")
		return
	}
	c := srv.conns[1]
	for i := range channels {
		sym.Assert(starts == 0, "C25: readiness is not announced before the subscription is confirmed")
		c.confirm(i)
		sym.Settle()
		if sym.Bool("message") {
			c.reply(bulk(bulk(bulk([]byte("*3\r\n"), []byte("message")), []byte(channels[0])), []byte("m")))
			sym.Settle()
			sym.Assert(handled == 1, "C25: a message on a subscribed channel is handled")
			handled = 0
		}
	}
	sym.Assert(starts == 1, "C25: readiness is announced once the subscription is confirmed")
	cancel()
	sym.Settle()
	sym.Assert(returned && ret == nil && c.isClosed, "C25: listening ends when it is told to")
	sym.Cover("done")
}

// CheckPublish publishes messages.
func CheckPublish() {
	srv = &server{network: "tcp", address: "broker:6379"}
	if sym.Bool("password") {
		srv.password = "pw"
	}
	r := pubsub.NewRedis(config.Redis{Network: "tcp", Address: "broker:6379", Password: srv.password})
	K := sym.Param("K", 2)
	srv.refuse = sym.Choose("refused connection", K+2)
	sym.Assume(srv.refuse != 1)
	srv.noPublish = sym.Choose("failing message", K+1)
	if sym.Bool("dropped") {
		srv.dropOn = "PUBLISH"
	}
	var want [][]byte
	for i := 0; i < K; i++ {
		n := sym.Choose("length", 3)
		m := sym.Bytes("message", n)
		r.Publish("from-rec", m)
		if i+2 != srv.refuse {
			want = append(want, m)
		}
		for _, x := range srv.conns {
			sym.Assert(x.isClosed && x.bad == 0, "C32: every connection is closed")
		}
	}
	if srv.dropOn == "" {
		sym.Cover("published")
		sym.Assert(len(srv.published) == len(want), "C32: every message is published once")
		for i := range want {
			if i < len(srv.published) {
				sym.Assert(srv.published[i][0] == "from-rec" && srv.published[i][1] == string(want[i]), "C32: messages are published unchanged and in order")
			}
		}
	}
	sym.Cover("done")
}
