package verifreplay

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
	"github.com/voltbras/go-ocpp/ws"
)

// answer every CALL that reaches the raw peer
func answering(p *rawPeer, payload string) {
	for s := range p.in {
		f, err := parseFrame(s)
		if err == nil && len(f) == 4 && string(f[0]) == "2" {
			p.write(fmt.Sprintf(`[3,%s,%s]`, f[1], payload))
		}
	}
}

// many callers, answers and errors at once on one connection: every frame
// arrives whole, every call gets its answer
func oneConn(t *testing.T, lib *ws.Conn, peer *rawPeer) {
	go func() {
		for {
			if err := lib.ReadMessage(); err != nil && closed(lib.WaitClose()) {
				return
			}
		}
	}()
	go func() {
		for q := range lib.Requests() {
			q := q
			go lib.SendResponse(q.MessageID, &cpresp.Heartbeat{}, nil)
		}
	}()
	var wg sync.WaitGroup
	answers := map[string]bool{}
	const callers, calls, asks = 8, 12, 40
	all := make(chan struct{})
	go func() {
		defer close(all)
		for len(answers) < asks*2 {
			select {
			case s, ok := <-peer.in:
				f, err := parseFrame(s)
				switch {
				case !ok:
					t.Error("the connection broke")
					return
				case err != nil:
					t.Errorf("a frame is not whole: %v", err)
					return
				case string(f[0]) == "2":
					go peer.write(fmt.Sprintf(`[3,%s,{"status":"Accepted"}]`, f[1]))
				default:
					if answers[str(f[1])] {
						t.Errorf("answered twice: %s", s)
					}
					answers[str(f[1])] = true
				}
			case <-time.After(2 * soon):
				t.Errorf("%d of %d answers come", len(answers), asks*2)
				return
			}
		}
		answering(peer, `{"status":"Accepted"}`)
	}()
	for i := 0; i < callers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < calls; n++ {
				var resp messages.Response
				var err error
				if !within(2*soon, func() { resp, err = lib.SendRequest(&csreq.ClearCache{}) }) {
					t.Error("a call does not return")
					return
				}
				if c, ok := resp.(*csresp.ClearCache); err != nil || !ok || c.Status != "Accepted" {
					t.Errorf("a call gives %v, %v", resp, err)
				}
			}
		}()
	}
	for i := 0; i < asks; i++ {
		i := i
		wg.Add(2)
		go func() {
			defer wg.Done()
			peer.write(fmt.Sprintf(`[2,"q%d","Heartbeat",{}]`, i))
		}()
		go func() {
			defer wg.Done()
			peer.write(fmt.Sprintf(`[2,"n%d","NoSuchAction",{}]`, i))
			peer.write(fmt.Sprintf(`[3,"late%d",{}]`, i))
		}()
	}
	wg.Wait()
	peer.UnderlyingConn().SetReadDeadline(time.Now().Add(3 * soon))
	lib.Close()
	<-all
}

func TestC11(t *testing.T) {
	defer catchPanics(t)()
	for _, open := range []func(*testing.T) (*ws.Conn, *rawPeer, func()){dialled, accepted} {
		for n := 0; n < rounds(2) && !t.Failed(); n++ {
			lib, peer, end := open(t)
			oneConn(t, lib, peer)
			end()
		}
	}
	if t.Failed() {
		return
	}
	// closing while others write
	for n := 0; n < rounds(30) && !t.Failed(); n++ {
		lib, peer, end := dialled(t)
		go func() {
			time.Sleep(time.Duration(n%6) * time.Millisecond)
			if e := safely(func() { lib.Close() }); e != nil {
				t.Errorf("closing while others write: %v", e)
			}
		}()
		go func() {
			for range peer.in {
			}
		}()
		var wg sync.WaitGroup
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if e := safely(func() {
					for lib.SendResponse("x", nil, errors.New(strings.Repeat("x", 20000))) == nil {
					}
				}); e != nil {
					t.Errorf("writing while another closes: %v", e)
				}
			}()
		}
		wg.Wait()
		end()
	}
	// handlers and listeners may use the library, also for their own session
	var sys cs.CentralSystem
	var handled int64
	ready := make(chan struct{})
	h := func(q cpreq.ChargePointRequest, m cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		<-ready
		atomic.AddInt64(&handled, 1)
		svc, err := sys.GetServiceOf(m.ChargePointID, ocpp.V16, "")
		if err != nil {
			return nil, err
		}
		sys.WaitConnect(m.ChargePointID)
		sys.WaitDisconnect(m.ChargePointID)
		go svc.Send(&csreq.ClearCache{})
		if atomic.LoadInt64(&handled)%3 == 0 {
			return nil, errors.New("no")
		}
		return &cpresp.Heartbeat{}, nil
	}
	s, addr := central(t, h)
	s.SetChargePointConnectionListener(func(id string) { <-ready; s.GetServiceOf(id, ocpp.V16, ""); s.WaitConnect(id) })
	s.SetChargePointDisconnectionListener(func(id string) { <-ready; s.GetServiceOf(id, ocpp.V16, ""); s.WaitDisconnect(id) })
	sys = s
	close(ready)
	stop := make(chan struct{})
	var bg, wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		i := i
		bg.Add(1)
		go func() {
			defer bg.Done()
			for n := 0; ; n++ {
				select {
				case <-stop:
					return
				default:
				}
				id := fmt.Sprint("s", (n+i)%5)
				sys.WaitConnect(id)
				sys.WaitDisconnect(id)
				sys.GetServiceOf(id, ocpp.V16, "")
				if n%50 == 0 {
					if resp, err := http.Get("http://" + addr + "/"); err == nil {
						io.Copy(io.Discard, resp.Body)
						resp.Body.Close()
					}
				}
				time.Sleep(time.Millisecond)
			}
		}()
	}
	for i := 0; i < 10; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			id := fmt.Sprint("s", i%5) // two stations use each name
			for n := 0; n < rounds(4) && !t.Failed(); n++ {
				p, err := station(addr, "/"+id)
				if err != nil {
					t.Errorf("%s cannot connect: %v", id, err)
					return
				}
				got := make(chan string, 100)
				go func() {
					for s := range p.in {
						f, err := parseFrame(s)
						if err != nil {
							t.Errorf("a frame is not whole: %v", err)
						} else if string(f[0]) == "2" {
							p.write(fmt.Sprintf(`[3,%s,{"status":"Accepted"}]`, f[1]))
						} else {
							got <- str(f[1])
						}
					}
				}()
				for k := 0; k < 5; k++ {
					p.write(fmt.Sprintf(`[2,"%d","Heartbeat",{}]`, k))
				}
				seen := map[string]bool{}
				for k := 0; k < 5; k++ {
					select {
					case g := <-got:
						if seen[g] {
							t.Errorf("%s: %s is answered twice", id, g)
						}
						seen[g] = true
					case <-time.After(3 * soon):
						t.Errorf("%s: only %d of 5 requests are answered", id, k)
						k = 5
					}
				}
				if n%2 == 0 {
					p.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(1000, ""), time.Now().Add(time.Second))
				}
				p.Close()
			}
		}()
	}
	wg.Wait()
	close(stop)
	bg.Wait()
	if !within(soon, func() {
		for i := 0; i < 5; i++ {
			sys.GetServiceOf(fmt.Sprint("s", i), ocpp.V16, "")
			sys.WaitConnect(fmt.Sprint("s", i))
			sys.WaitDisconnect(fmt.Sprint("s", i))
		}
	}) {
		t.Error("the registry is left locked")
	}
	// a charge point whose handler and callers use the connection together
	rc := newRawCentral()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	point, err := pointAt(ctx, "p", rc.ws(), func(csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		return &csresp.ClearCache{Status: "Accepted"}, nil
	})
	if err != nil {
		t.Fatal(err)
	}
	p := rc.peer(soon)
	if p == nil {
		t.Fatal("the charge point does not connect")
	}
	got := make(chan string, 1000)
	go func() {
		for s := range p.in {
			f, err := parseFrame(s)
			if err != nil {
				t.Errorf("a frame is not whole: %v", err)
			} else if string(f[0]) == "2" {
				go p.write(fmt.Sprintf(`[3,%s,{"currentTime":"2020-01-01T00:00:00Z"}]`, f[1]))
			} else {
				got <- str(f[1])
			}
		}
	}()
	for i := 0; i < 6; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 10; n++ {
				var err error
				if !within(2*soon, func() { _, err = point.Send(&cpreq.Heartbeat{}) }) || err != nil {
					t.Errorf("a call of the charge point fails: %v", err)
					return
				}
			}
		}()
	}
	for n := 0; n < 40; n++ {
		p.write(fmt.Sprintf(`[2,"%d","ClearCache",{}]`, n))
	}
	for n := 0; n < 40; n++ {
		select {
		case <-got:
		case <-time.After(2 * soon):
			t.Fatalf("only %d of 40 requests are answered", n)
		}
	}
	wg.Wait()
}
