package verifreplay

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

var errHandler = errors.New("handler failed: 100%d \"quoted\"")

func freePort() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().String()
}

// central: a running central system (one per process) and its host:port
func central(t *testing.T, h cs.ChargePointMessageHandler) (cs.CentralSystem, string) {
	addr := freePort()
	sys := cs.New()
	go sys.Run(addr, h)
	for n := 0; ; n++ {
		c, err := net.Dial("tcp", addr)
		if err == nil {
			c.Close()
			break
		}
		if n > 100 {
			t.Fatalf("the central system does not listen: %v", err)
		}
		time.Sleep(20 * time.Millisecond)
	}
	return sys, addr
}

// station: a raw charge point connected to a central system
func station(addr, path string) (*rawPeer, error) {
	d := websocket.Dialer{Subprotocols: []string{"ocpp1.6"}}
	c, _, err := d.Dial("ws://"+addr+path, nil)
	if err != nil {
		return nil, err
	}
	return newRawPeer(c), nil
}

// rawCentral: a raw central system that hands over the sessions it accepts
type rawCentral struct {
	*httptest.Server
	peers chan *rawPeer
	reqs  chan *http.Request
	mu    sync.Mutex
	deny  bool
}

func (c *rawCentral) refuse(b bool) {
	c.mu.Lock()
	c.deny = b
	c.mu.Unlock()
}

func (c *rawCentral) ws() string { return "ws" + strings.TrimPrefix(c.URL, "http") }

func newRawCentral() *rawCentral {
	c := &rawCentral{peers: make(chan *rawPeer, 1000), reqs: make(chan *http.Request, 1000)}
	up := websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }, Subprotocols: []string{"ocpp1.6", "ocpp1.5"}}
	c.Server = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		c.mu.Lock()
		deny := c.deny
		c.mu.Unlock()
		c.reqs <- r
		if deny {
			http.Error(w, "no", 503)
			return
		}
		s, err := up.Upgrade(w, r, nil)
		if err != nil {
			return
		}
		p := newRawPeer(s)
		p.url = r.URL.Path
		c.peers <- p
	}))
	return c
}

func (c *rawCentral) peer(d time.Duration) *rawPeer {
	select {
	case p := <-c.peers:
		return p
	case <-time.After(d):
		return nil
	}
}

// closed: ch is closed
func closed(ch <-chan struct{}) bool {
	select {
	case _, ok := <-ch:
		return !ok
	default:
		return false
	}
}

func soonTrue(f func() bool) bool {
	for n := 0; n < 300; n++ {
		if f() {
			return true
		}
		time.Sleep(10 * time.Millisecond)
	}
	return f()
}

func isDown(p *rawPeer, d time.Duration) bool {
	end := time.After(d)
	for {
		select {
		case _, ok := <-p.in:
			if !ok {
				return true
			}
		case <-end:
			return false
		}
	}
}

// roundTrip: the one answer to one request, and that it is the only one
func roundTrip(p *rawPeer, id, action, payload string) (string, error) {
	i, _ := json.Marshal(id)
	if err := p.write(fmt.Sprintf(`[2,%s,%q,%s]`, i, action, payload)); err != nil {
		return "", err
	}
	got := p.next(soon)
	if got == "" {
		return "", fmt.Errorf("%s %s is not answered", action, payload)
	}
	f, err := parseFrame(got)
	if err != nil {
		return "", err
	}
	if len(f) < 3 || str(f[1]) != id {
		return "", fmt.Errorf("%s with id %q is answered with %s", action, id, got)
	}
	return got, nil
}

type cpHandler = func(cpreq.ChargePointRequest, cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error)
type csHandler = func(csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error)

func pointAt(ctx context.Context, id, url string, h csHandler) (cp.ChargePoint, error) {
	c, err := cp.New(ctx, id, url, ocpp.V16, ocpp.JSON, nil, h)
	if err != nil {
		if c != nil {
			return nil, fmt.Errorf("both a charge point and %v", err)
		}
		return nil, err
	}
	if c == nil {
		return nil, errors.New("neither a charge point nor an error")
	}
	return c, nil
}

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

func (l *lockedBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

// panics of connection goroutines are only logged by net/http
func catchPanics(t *testing.T) func() {
	l := &lockedBuf{}
	log.SetOutput(l)
	return func() {
		log.SetOutput(os.Stderr)
		if i := strings.Index(l.String(), "panic"); i >= 0 {
			s := l.String()[i:]
			if len(s) > 600 {
				s = s[:600]
			}
			t.Errorf("a connection goroutine crashed: %s", s)
		}
	}
}
