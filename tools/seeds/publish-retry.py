property='C32'
edits={'internal/pubsub/redis/redis.go':[
('''	if _, err = c.Do("PUBLISH", channel, message); err != nil {
		return err
	}

''','''	if _, err = c.Do("PUBLISH", channel, message); err != nil {
		// try a fresh connection before giving up
		if c, err = p.dial(); err == nil {
			_, err = c.Do("PUBLISH", channel, message)
		}
		return err
	}

''')]}
pkg='internal/pubsub/redis'
needs='a broker that takes a message and drops the connection before it confirms it'
breaks='the message is published twice, and the second connection is not closed'
demo='''
package redis

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"sync"
	"testing"
)
'''+open('/verif/tools/seedlib/redis.go').read()+'''
func TestDemo(t *testing.T) {
	got := []string{}
	r := newDemoRedis(t, nil)
	r.on = func(c net.Conn, cmd []string) bool {
		r.m.Lock()
		defer r.m.Unlock()
		got = append(got, cmd[2])
		if len(got) == 1 {
			return false
		}
		io.WriteString(c, ":1\\r\\n")
		return true
	}
	p, err := NewPubSub("tcp", r.l.Addr().String(), "")
	if err != nil {
		t.Fatal(err)
	}
	p.Publish("c", []byte("one"))
	if err := p.Publish("c", []byte("two")); err != nil {
		t.Fatal(err)
	}
	if len(got) != 2 || got[0] != "one" || got[1] != "two" {
		t.Fatal(got)
	}
}
'''
