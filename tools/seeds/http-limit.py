property='C29'
edits={'internal/server/http.go':[
('''		body, _ := io.ReadAll(r.Body)
''','''		body, _ := io.ReadAll(io.LimitReader(r.Body, 16<<10))
''')]}
pkg='internal/server'
needs='an offer of more than 16 kB'
breaks='longer offers are cut off without notice'
demo='''
package server

import (
	"context"
	"encoding/json"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/config"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/pubsub"
)

type demoBus struct{ sdp chan string }

func (b *demoBus) Subscribe(channel string, handler pubsub.PubSubHandler, onStart func() error) {}
func (b *demoBus) Publish(channel string, msg []byte) {
	var m struct {
		AdapterOptions struct{ Mediasoup struct{ SDP string } }
	}
	json.Unmarshal(msg, &m)
	b.sdp <- m.AdapterOptions.Mediasoup.SDP
}

func TestDemo(t *testing.T) {
	cfg := &config.Config{}
	cfg.SetDefaults()
	cfg.HTTP.Port = 0
	cfg.Recorder.Directory = t.TempDir()
	b := &demoBus{make(chan string, 1)}
	go NewHTTPServer(cfg, b).Serve()
	offer := strings.Repeat("a=x\\r\\n", 6000) + "end"
	for i := 0; ; i++ {
		ctx, cancel := context.WithTimeout(context.Background(), time.Second)
		r := httptest.NewRequest("POST", "/sdp", strings.NewReader(offer)).WithContext(ctx)
		h, p := http.DefaultServeMux.Handler(r)
		if p != "/sdp" {
			if i > 100 {
				t.Fatal("no handler")
			}
			time.Sleep(20 * time.Millisecond)
			cancel()
			continue
		}
		go h.ServeHTTP(httptest.NewRecorder(), r)
		if got := <-b.sdp; got != offer {
			t.Fatalf("%d bytes of %d", len(got), len(offer))
		}
		cancel()
		return
	}
}
'''
