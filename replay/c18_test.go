package verifreplay

import (
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"sync"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/voltbras/go-ocpp/internal/service"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/soap"
	"github.com/voltbras/go-ocpp/ws"
)

const (
	callLimit = 60 * time.Second // what the library promises
	callSlack = 6 * time.Second
)

// every fills the time until the call is over
func every(d time.Duration, over chan struct{}, f func(i int)) {
	for i := 0; ; i++ {
		select {
		case <-over:
			return
		case <-time.After(d):
			f(i)
		}
	}
}

func TestC18(t *testing.T) {
	var wg sync.WaitGroup
	// try makes a call nobody answers and looks at when and how it ends
	try := func(name string, over chan struct{}, call func() (messages.Response, error)) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var r messages.Response
			var err error
			var perr error
			start := time.Now()
			ended := within(callLimit+callSlack, func() { perr = safely(func() { r, err = call() }) })
			if over != nil {
				close(over)
			}
			switch {
			case !ended:
				t.Errorf("%s: the call has not returned after %v", name, time.Since(start))
			case perr != nil:
				t.Errorf("%s: %v", name, perr)
			case err == nil || !isNil(r):
				t.Errorf("%s: the call returns %v, %v after %v", name, r, err, time.Since(start))
			}
		}()
	}
	var ends []func()
	var others []*sync.WaitGroup
	defer func() {
		for _, f := range ends {
			f()
		}
	}()
	// ---- websocket
	busy := []struct {
		name string
		pace time.Duration
		do   func(p *rawPeer, id string, i int)
	}{
		{"a silent peer", time.Hour, func(*rawPeer, string, int) {}},
		{"replies to other calls", 700 * time.Millisecond, func(p *rawPeer, id string, i int) {
			p.write(fmt.Sprintf(`[3,"other%d",{"currentTime":"2020-01-01T00:00:00Z"}]`, i))
			p.write(fmt.Sprintf(`[4,"other%d","GenericError","",{}]`, i))
		}},
		{"frames that do not parse", 900 * time.Millisecond, func(p *rawPeer, id string, i int) {
			bad := badFrames()
			p.write(bad[i%len(bad)])
			p.write(fmt.Sprintf(`[3,%s]`, id))
			p.write(fmt.Sprintf(`[4,%s,"GenericError"]`, id))
		}},
		{"calls of its own", 500 * time.Millisecond, func(p *rawPeer, id string, i int) {
			p.write(fmt.Sprintf(`[2,"own%d","Heartbeat",{}]`, i))
			p.write(fmt.Sprintf(`[2,"own%d","NoSuchAction",{}]`, i))
		}},
		{"a call under the id of the pending one", 5 * time.Second, func(p *rawPeer, id string, i int) {
			p.write(fmt.Sprintf(`[2,%s,"Heartbeat",{}]`, id))
		}},
		{"pings and pongs", 500 * time.Millisecond, func(p *rawPeer, id string, i int) {
			p.mu.Lock()
			defer p.mu.Unlock()
			p.WriteControl(websocket.PingMessage, []byte("x"), time.Now().Add(time.Second))
			p.WriteControl(websocket.PongMessage, []byte("x"), time.Now().Add(time.Second))
		}},
	}
	for n, open := range []func(*testing.T) (*ws.Conn, *rawPeer, func()){dialled, accepted} {
		side := []string{"dialled", "accepted"}[n]
		for _, b := range busy {
			lib, peer, end := open(t)
			ends = append(ends, end)
			go func() { // what both endpoints do with a connection
				for lib.ReadMessage() == nil || !isClosed(lib) {
				}
			}()
			go func() {
				for q := range lib.Requests() {
					lib.SendResponse(q.MessageID, q.Request.GetResponse(), nil)
				}
			}()
			over := make(chan struct{})
			b, seen := b, make(chan string, 1)
			go func() {
				for s := range peer.in {
					if f, err := parseFrame(s); err == nil && len(f) == 4 {
						select {
						case seen <- string(f[1]):
						default:
						}
					}
				}
			}()
			go func() {
				select {
				case id := <-seen:
					every(b.pace, over, func(i int) { b.do(peer, id, i) })
				case <-over:
				}
			}()
			try(side+" websocket, "+b.name, over, func() (messages.Response, error) { return lib.SendRequest(acts[4].req) })
		}
		// the connection is read by nobody
		unread, _, end1 := open(t)
		ends = append(ends, end1)
		try(side+" websocket that nobody reads", nil, func() (messages.Response, error) { return unread.SendRequest(acts[4].req) })
		// several at once, one after another, while others are answered
		lib, peer, end := open(t)
		ends = append(ends, end)
		go func() {
			for lib.ReadMessage() == nil || !isClosed(lib) {
			}
		}()
		answered := new(sync.WaitGroup)
		go func() {
			for s := range peer.in {
				f, err := parseFrame(s)
				if err == nil && len(f) == 4 && str(f[2]) == "Heartbeat" {
					peer.write(fmt.Sprintf(`[3,%s,{"currentTime":"2020-01-01T00:00:00Z"}]`, f[1]))
				}
			}
		}()
		for i := 0; i < 20; i++ {
			answered.Add(1)
			go func(i int) {
				defer answered.Done()
				time.Sleep(time.Duration(i) * 3 * time.Second)
				start := time.Now()
				r, err := lib.SendRequest(acts[4].req)
				if err != nil || isNil(r) {
					t.Errorf("%s websocket: an answered call gives %v, %v after %v", side, r, err, time.Since(start))
				}
			}(i)
		}
		for i := 0; i < 5; i++ {
			q := acts[i]
			if q.name == "Heartbeat" {
				continue
			}
			i := i
			try(side+" websocket, "+q.name+" among answered calls", nil, func() (messages.Response, error) {
				time.Sleep(time.Duration(i) * 500 * time.Millisecond)
				return lib.SendRequest(q.req)
			})
		}
		// through the typed service
		typed, _, end2 := open(t)
		ends = append(ends, end2)
		go func() {
			for typed.ReadMessage() == nil || !isClosed(typed) {
			}
		}()
		if n == 0 {
			try("the central system's service, a silent peer", nil, func() (messages.Response, error) {
				return service.NewCentralSystemJSON(typed).Send(&cpreq.Heartbeat{})
			})
		} else {
			try("the charge point's service, a silent peer", nil, func() (messages.Response, error) {
				return service.NewChargePointJSON(typed).Send(&csreq.ClearCache{})
			})
		}
		others = append(others, answered)
	}
	// ---- SOAP
	raw := func(f func(c net.Conn, i int, over chan struct{})) (string, chan struct{}) {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			t.Fatal(err)
		}
		over := make(chan struct{})
		ends = append(ends, func() { l.Close() })
		go func() {
			for i := 0; ; i++ {
				c, err := l.Accept()
				if err != nil {
					return
				}
				go func(i int) {
					defer c.Close()
					f(c, i, over)
				}(i)
			}
		}()
		return "http://" + l.Addr().String(), over
	}
	drain := func(c net.Conn) { c.Read(make([]byte, 65536)) }
	body := envelope("", `<heartbeatResponse xmlns="urn://Ocpp/Cs/2012/06/"><currentTime>2020-01-01T00:00:00Z</currentTime></heartbeatResponse>`, "", "")
	soapCalls := func(name, url string, over chan struct{}) {
		q := acts[4].req
		opts := &soap.CallOptions{ChargeBoxIdentity: "CB"}
		both := make(chan struct{}, 2)
		wait := func() { both <- struct{}{} }
		try("SOAP client, "+name, nil, func() (messages.Response, error) {
			defer wait()
			return nil, soap.NewClient(url).Call(q.Action(), q, q.GetResponse(), opts)
		})
		try("SOAP service, "+name, nil, func() (messages.Response, error) {
			defer wait()
			return service.NewCentralSystemSOAP(url, opts).Send(&cpreq.Heartbeat{})
		})
		go func() {
			<-both
			<-both
			if over != nil {
				close(over)
			}
		}()
	}
	url, over := raw(func(c net.Conn, i int, over chan struct{}) { <-over })
	soapCalls("a peer that neither reads nor answers", url, over)
	url, over = raw(func(c net.Conn, i int, over chan struct{}) {
		drain(c)
		for { // every connection is given up late, so that a second try begins
			select {
			case <-time.After(45 * time.Second):
				return
			case <-over:
				return
			}
		}
	})
	soapCalls("a peer that drops the connection after 45 s", url, over)
	url, over = raw(func(c net.Conn, i int, over chan struct{}) {
		drain(c)
		fmt.Fprintf(c, "HTTP/1.1 200 OK\r\n")
		every(500*time.Millisecond, over, func(i int) { fmt.Fprintf(c, "X-H%d: x\r\n", i) })
	})
	soapCalls("headers without end", url, over)
	url, over = raw(func(c net.Conn, i int, over chan struct{}) {
		drain(c)
		fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Type: application/soap+xml\r\nContent-Length: %d\r\n\r\n", len(body)+5000)
		every(500*time.Millisecond, over, func(i int) { c.Write([]byte(" ")) })
	})
	soapCalls("a body of blanks without end", url, over)
	url, over = raw(func(c net.Conn, i int, over chan struct{}) {
		drain(c)
		fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Type: application/soap+xml\r\nContent-Length: %d\r\n\r\n", len(body))
		every(time.Second, over, func(i int) {
			if i < len(body)-1 {
				c.Write([]byte(body[i : i+1]))
			}
		})
	})
	soapCalls("a body that trickles", url, over)
	url, over = raw(func(c net.Conn, i int, over chan struct{}) {
		drain(c)
		fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Type: application/soap+xml\r\nContent-Length: %d\r\n\r\n%s", len(body), body[:len(body)-20])
		<-over
	})
	soapCalls("a body that stops short", url, over)
	url, over = raw(func(c net.Conn, i int, over chan struct{}) {
		drain(c)
		fmt.Fprintf(c, "HTTP/1.1 503 Service Unavailable\r\nContent-Type: text/plain\r\nContent-Length: 100\r\n\r\nbusy")
		<-over
	})
	soapCalls("an error status whose body stops short", url, over)
	over = make(chan struct{})
	var round *httptest.Server
	rounds := make(chan struct{})
	round = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		select {
		case <-time.After(20 * time.Second):
		case <-rounds:
		}
		http.Redirect(w, r, round.URL+r.URL.Path+"x", http.StatusTemporaryRedirect)
	}))
	ends = append(ends, round.CloseClientConnections)
	soapCalls("slow redirects", round.URL, over)
	wg.Wait()
	close(rounds)
	for _, o := range others {
		o := o
		if !within(callLimit/2, o.Wait) {
			t.Errorf("calls on the connections of unanswered calls have not returned")
		}
	}
}

func isClosed(c *ws.Conn) bool {
	select {
	case <-c.WaitClose():
		return true
	default:
		return false
	}
}
