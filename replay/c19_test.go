package verifreplay

import (
	"context"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"runtime"
	"strings"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

// libraryGoroutines: those that run code of the library, but for the central
// system's own server
func libraryGoroutines() []string {
	buf := make([]byte, 8<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "cs.(*centralSystem).Run(") || strings.Contains(g, "testing.tRunner") {
			continue
		}
		for _, l := range strings.Split(g, "\n") {
			if strings.HasPrefix(l, "github.com/voltbras/go-ocpp/") && !strings.HasPrefix(l, "github.com/voltbras/go-ocpp/verifreplay") ||
				strings.HasPrefix(l, "created by github.com/voltbras/go-ocpp/") && !strings.Contains(l, "go-ocpp/verifreplay") {
				out = append(out, g)
				break
			}
		}
	}
	return out
}

func TestC19(t *testing.T) {
	// settled: after what was done every goroutine of the library ends
	settled := func(what string) {
		t.Helper()
		var left []string
		if soonTrue(func() bool { left = libraryGoroutines(); return len(left) == 0 }) {
			return
		}
		// redialling and the like may take its time
		for n := 0; n < 16; n++ {
			time.Sleep(500 * time.Millisecond)
			if left = libraryGoroutines(); len(left) == 0 {
				return
			}
		}
		g := left[0]
		if len(g) > 900 {
			g = g[:900]
		}
		t.Fatalf("%s: %d goroutines of the library are left, one of them:\n%s", what, len(left), g)
	}
	settled("before anything")

	const call = `[2,"id1","Heartbeat",{}]`
	// readers of a connection nobody serves any more
	for _, frame := range []string{call, `[2,"id1","NoSuchAction",{}]`, `[3,"unknown",{}]`, `{`, `[2,"id1","Heartbeat",{"x":1}]`, ""} {
		for _, how := range []string{"this side closes", "the peer closes", "the peer drops the line"} {
			for k, open := range []func(*testing.T) (c conn, p *rawPeer, done func()){
				func(t *testing.T) (conn, *rawPeer, func()) { c, p, d := dialled(t); return c, p, d },
				func(t *testing.T) (conn, *rawPeer, func()) { c, p, d := accepted(t); return c, p, d },
			} {
				c, p, done := open(t)
				c.ReadMessageAsync()
				if frame != "" {
					p.write(frame)
					time.Sleep(30 * time.Millisecond)
				}
				switch how {
				case "this side closes":
					c.Close()
				case "the peer closes":
					p.Conn.Close()
					time.Sleep(20 * time.Millisecond)
					c.Close()
				default:
					p.Conn.UnderlyingConn().Close()
					time.Sleep(20 * time.Millisecond)
					c.Close()
				}
				if !soonTrue(func() bool { return closed(c.WaitClose()) }) {
					t.Fatalf("%s: the connection's end is not told", how)
				}
				settled(fmt.Sprintf("connection %d, %q was received and nobody took it, %s", k, frame, how))
				done()
			}
		}
	}

	// sessions at the central system
	slow := func(cpreq.ChargePointRequest, cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		time.Sleep(50 * time.Millisecond)
		return &cpresp.Heartbeat{CurrentTime: time.Now()}, nil
	}
	sys, addr := central(t, slow)
	for round := 0; round < 6; round++ {
		var ps []*rawPeer
		for i := 0; i < 4; i++ {
			p, err := station(addr, fmt.Sprintf("/leaver%d", i))
			if err != nil {
				t.Fatalf("station: %v", err)
			}
			ps = append(ps, p)
		}
		for i, p := range ps {
			for k := 0; k < round; k++ {
				p.write(call)
			}
			switch i {
			case 0:
				p.Conn.Close()
			case 1:
				p.Conn.UnderlyingConn().Close()
			case 2:
				p.write("nonsense")
				p.WriteControl(8, []byte{3, 232}, time.Now().Add(time.Second))
				time.Sleep(10 * time.Millisecond)
				p.Conn.Close()
			default:
				time.Sleep(20 * time.Millisecond)
				p.Conn.Close()
			}
		}
		settled(fmt.Sprintf("charge points left with %d requests underway", round))
	}

	// one that leaves and comes back at once
	if p, err := station(addr, "/comer"); err == nil {
		served := func() bool { _, err := sys.GetServiceOf("comer", ocpp.V16, ""); return err == nil }
		soonTrue(served)
		time.Sleep(200 * time.Millisecond)
		usual := len(libraryGoroutines())
		for n := 0; n < 8; n++ {
			p.Conn.Close()
			soonTrue(func() bool { return !served() })
			if p, err = station(addr, "/comer"); err != nil {
				t.Fatalf("station: %v", err)
			}
			soonTrue(served)
		}
		if !soonTrue(func() bool { return len(libraryGoroutines()) <= usual }) {
			t.Fatalf("a charge point left and came back 8 times: %d goroutines of the library for its one session, %d after it came first", len(libraryGoroutines()), usual)
		}
		p.Conn.Close()
		settled("a charge point left for good")
	}

	// what only looks like a handshake
	if c, err := net.Dial("tcp", addr); err == nil {
		fmt.Fprintf(c, "GET /x HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n\r\n")
		time.Sleep(50 * time.Millisecond)
		c.Close()
		settled("a handshake that fails")
	}

	// a charge point whose context ends
	busy := func(csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		time.Sleep(20 * time.Millisecond)
		return &csresp.ClearCache{Status: "Accepted"}, nil
	}
	raw := newRawCentral()
	for _, how := range []string{"idle", "requests", "closed by itself", "central system gone", "central system gone for long"} {
		ctx, cancel := context.WithCancel(context.Background())
		c, err := pointAt(ctx, "goer", raw.ws(), busy)
		if err != nil {
			t.Fatalf("charge point: %v", err)
		}
		p := raw.peer(soon)
		if p == nil {
			t.Fatalf("the charge point does not connect")
		}
		switch how {
		case "requests":
			for k := 0; k < 10; k++ {
				p.write(`[2,"id1","ClearCache",{}]`)
			}
		case "closed by itself":
			p.write(`[2,"id1","ClearCache",{}]`)
			c.Connection().Close()
			raw.peer(soon)
		case "central system gone":
			raw.refuse(true)
			p.Conn.Close()
		case "central system gone for long":
			raw.refuse(true)
			p.Conn.Close()
			time.Sleep(300 * time.Millisecond)
		}
		old := c.Connection()
		cancel()
		settled("the context of a charge point ended: " + how)
		if !soonTrue(func() bool { return closed(old.WaitClose()) }) {
			t.Fatalf("the context of a charge point ended (%s): its connection is not closed", how)
		}
		raw.refuse(false)
	}
	raw.Close()

	// and one whose context ends while it dials again
	{
		ctx, cancel := context.WithCancel(context.Background())
		peers := make(chan *websocket.Conn, 10)
		dials := 0
		up := websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }}
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			dials++
			if dials == 2 {
				cancel()
				time.Sleep(100 * time.Millisecond)
			}
			if c, err := up.Upgrade(w, r, nil); err == nil {
				peers <- c
			}
		}))
		if _, err := pointAt(ctx, "late", "ws"+strings.TrimPrefix(srv.URL, "http"), busy); err != nil {
			t.Fatalf("charge point: %v", err)
		}
		(<-peers).Close()
		select {
		case c := <-peers:
			if p := newRawPeer(c); !isDown(p, 5*time.Second) {
				t.Fatalf("the context of a charge point ended while it dialled again: its connection is left open")
			}
		case <-time.After(3 * time.Second):
		}
		settled("the context of a charge point ended while it dialled again")
		srv.Close()
	}

	// a SOAP charge point whose context ends
	for k := 0; k < 3; k++ {
		ctx, cancel := context.WithCancel(context.Background())
		port := freePort()
		_, err := cp.New(ctx, "soapy", "http://127.0.0.1:1/", ocpp.V15, ocpp.SOAP, &port, busy)
		if err != nil {
			t.Fatalf("SOAP charge point: %v", err)
		}
		if !soonTrue(func() bool {
			r, err := http.Get("http://" + port + "/")
			if err == nil {
				r.Body.Close()
			}
			return err == nil
		}) {
			t.Fatalf("the SOAP charge point does not listen")
		}
		http.DefaultClient.CloseIdleConnections()
		cancel()
		settled("the context of a SOAP charge point ended")
		if !soonTrue(func() bool {
			l, err := net.Listen("tcp", port)
			if err == nil {
				l.Close()
			}
			return err == nil
		}) {
			t.Fatalf("the context of a SOAP charge point ended: its port is still taken")
		}
	}
	// and one whose port is taken
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	port := l.Addr().String()
	ctx, cancel := context.WithCancel(context.Background())
	if _, err := cp.New(ctx, "soapy", "http://127.0.0.1:1/", ocpp.V15, ocpp.SOAP, &port, busy); err == nil {
		settled("the port of a SOAP charge point is taken")
	}
	cancel()
	l.Close()
}

type conn interface {
	ReadMessageAsync() <-chan error
	WaitClose() <-chan struct{}
	Close() error
}
