package verifreplay

import (
	"context"
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cp"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
	"github.com/voltbras/go-ocpp/ws"
)

func noCommands(csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
	return &csresp.ClearCache{Status: "Accepted"}, nil
}

// working: what the charge point sends reaches p, its reply comes back, its
// connect channel is closed, and it handles what p sends
func working(c cp.ChargePoint, p *rawPeer) error {
	if !soonTrue(func() bool { return closed(c.WaitConnect()) }) {
		return fmt.Errorf("it is connected, but its connect channel is not closed")
	}
	if closed(c.WaitDisconnect()) {
		return fmt.Errorf("it is connected, but its disconnect channel is closed")
	}
	done := make(chan error, 1)
	go func() {
		r, err := c.Send(&cpreq.Heartbeat{})
		if err == nil && isNil(r) {
			err = fmt.Errorf("no response and no error")
		}
		done <- err
	}()
	s := p.next(soon)
	f, err := parseFrame(s)
	if err != nil || len(f) != 4 || str(f[2]) != "Heartbeat" {
		return fmt.Errorf("what it sends does not reach the peer (%q)", s)
	}
	p.write(fmt.Sprintf(`[3,%s,{"currentTime":"2020-01-01T00:00:00Z"}]`, f[1]))
	select {
	case err := <-done:
		if err != nil {
			return err
		}
	case <-time.After(soon):
		return fmt.Errorf("the reply to what it sends does not arrive")
	}
	go func() { done <- c.Connection().SendResponse("direct", &csresp.ClearCache{Status: "Accepted"}, nil) }()
	if s := p.next(soon); !strings.Contains(s, `"direct"`) {
		return fmt.Errorf("its Connection is not the connection to the peer (%q)", s)
	}
	<-done
	s, err = roundTrip(p, "q", "ClearCache", "{}")
	if err != nil || s[1] != '3' {
		return fmt.Errorf("a command is answered with %q, %v", s, err)
	}
	return nil
}

func TestC16(t *testing.T) {
	defer catchPanics(t)()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	// what cannot work is an error
	dead := freePort()
	notWs := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, "hello") }))
	for _, url := range []string{"ws://" + dead, "ws" + strings.TrimPrefix(notWs.URL, "http"), "http://" + dead, "", "::", "ws://"} {
		if c, err := cp.New(ctx, "x", url, ocpp.V16, ocpp.JSON, nil, noCommands); err == nil || c != nil {
			t.Errorf("a charge point of %q: %v, %v", url, c, err)
		}
	}
	if c, err := cp.New(ctx, "x", notWs.URL, ocpp.V15, ocpp.SOAP, nil, noCommands); err == nil || c != nil {
		t.Errorf("a SOAP charge point without a port: %v, %v", c, err)
	}
	for _, tr := range []ocpp.Transport{"", "x", "JSON"} {
		port := freePort()
		if c, err := cp.New(ctx, "x", "ws://"+dead, ocpp.V16, tr, &port, noCommands); err == nil || c != nil {
			t.Errorf("a charge point with transport %q: %v, %v", tr, c, err)
		}
	}
	// a SOAP charge point sends to its central system and listens on its port
	type post struct{ body, path string }
	posts := make(chan post, 10)
	soapCS := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		posts <- post{string(b), r.URL.Path}
		io.WriteString(w, `<s:Envelope xmlns:s="http://www.w3.org/2003/05/soap-envelope"><s:Header/><s:Body><heartbeatResponse xmlns="urn://Ocpp/Cs/2012/06/"><currentTime>2020-01-01T00:00:00Z</currentTime></heartbeatResponse></s:Body></s:Envelope>`)
	}))
	port := freePort()
	sc, err := cp.New(ctx, "soapcp", soapCS.URL+"/here", ocpp.V15, ocpp.SOAP, &port, noCommands)
	if err != nil || sc == nil {
		t.Errorf("no SOAP charge point: %v, %v", sc, err)
	} else {
		if !within(soon, func() {
			if r, err := sc.Send(&cpreq.Heartbeat{}); err != nil || isNil(r) {
				t.Errorf("a SOAP charge point's Send gives %v, %v", r, err)
			}
		}) {
			t.Error("a SOAP charge point's Send does not return")
		}
		select {
		case p := <-posts:
			if p.path != "/here" || !strings.Contains(p.body, "soapcp") {
				t.Errorf("a SOAP charge point sends %s to %s", p.body, p.path)
			}
		default:
			t.Error("a SOAP charge point's Send does not reach the central system")
		}
		if !soonTrue(func() bool {
			c, err := net.Dial("tcp", port)
			if err == nil {
				c.Close()
			}
			return err == nil
		}) {
			t.Error("a SOAP charge point does not listen on its port")
		} else {
			for _, path := range []string{"/", "", "/soapcp", "/a/b c?x=1"} {
				got := ""
				within(soon, func() {
					r, err := http.Post("http://"+port+strings.Replace(path, " ", "%20", 1), "application/soap+xml", strings.NewReader(`<s:Envelope xmlns:s="http://www.w3.org/2003/05/soap-envelope"><s:Body><o:clearCacheRequest xmlns:o="urn://Ocpp/Cp/2012/06/"/></s:Body></s:Envelope>`))
					if err != nil {
						got = err.Error()
						return
					}
					b, _ := ioutil.ReadAll(r.Body)
					r.Body.Close()
					got = string(b)
				})
				if !strings.Contains(got, "clearCacheResponse") || !strings.Contains(got, "Accepted") {
					t.Errorf("a SOAP charge point answers a request sent to %q with %q, and not with what its handler returns", path, got)
				}
			}
		}
	}
	if t.Failed() {
		return
	}
	// quick reconnections
	rc := newRawCentral()
	c, err := pointAt(ctx, "cp1", rc.ws(), noCommands)
	if err != nil {
		t.Fatal(err)
	}
	p := rc.peer(soon)
	if p == nil || p.url != "/cp1" {
		t.Fatalf("the charge point does not connect as itself")
	}
	if err := working(c, p); err != nil {
		t.Errorf("a new charge point: %v", err)
	}
	old := c.Connection()
	oldDown := c.WaitDisconnect()
	end := func(p *rawPeer, n int) {
		switch n % 3 {
		case 0:
			p.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(1000, ""), time.Now().Add(time.Second))
			p.Close()
		case 1:
			p.UnderlyingConn().Close()
		case 2:
			p.UnderlyingConn().(*net.TCPConn).SetLinger(0)
			p.UnderlyingConn().Close()
		}
	}
	for n := 0; n < rounds(5) && !t.Failed(); n++ {
		end(p, n)
		if p = rc.peer(2 * soon); p == nil {
			t.Fatalf("loss %d: the charge point does not connect again", n)
		}
		if p.url != "/cp1" {
			t.Errorf("loss %d: the charge point connects again to %s", n, p.url)
		}
		if !soonTrue(func() bool { return closed(oldDown) }) {
			t.Errorf("loss %d: the disconnect channel is not closed", n)
		}
		if !soonTrue(func() bool { return c.Connection() != old }) {
			t.Errorf("loss %d: connected again, but Connection is still the lost one", n)
			break
		}
		if err := working(c, p); err != nil {
			t.Errorf("loss %d, connected again: %v", n, err)
		}
		old, oldDown = c.Connection(), c.WaitDisconnect()
	}
	if t.Failed() {
		return
	}
	// a longer loss: refused once or more, then accepted
	done := make(chan bool, 2)
	go func() {
		defer func() { done <- true }()
		for n := 0; n < rounds(1) && n < 3; n++ {
			rc.refuse(true)
			for len(rc.reqs) > 0 {
				<-rc.reqs
			}
			end(p, n)
			select {
			case <-rc.reqs:
			case <-time.After(2 * soon):
				t.Error("no attempt to connect again")
				return
			}
			if !soonTrue(func() bool { return !closed(c.WaitConnect()) }) {
				t.Error("disconnected, but the connect channel is closed")
			}
			wait := c.WaitConnect()
			time.Sleep(time.Second)
			if closed(wait) || closed(c.WaitConnect()) {
				t.Error("disconnected, but the connect channel gets closed")
			}
			rc.refuse(false)
			if p = rc.peer(15 * time.Second); p == nil {
				t.Error("the charge point gives up after one refusal")
				return
			}
			if !soonTrue(func() bool { return closed(wait) }) {
				t.Error("connected again, but who waited for it is not told")
			}
			soonTrue(func() bool { return !closed(c.WaitDisconnect()) })
			if err := working(c, p); err != nil {
				t.Errorf("connected again after a refusal: %v", err)
			}
		}
		// the end of the context closes the connection, and no other is made
		cancel()
		if !isDown(p, soon) {
			t.Error("the context ended, but the connection stays open")
		}
		for len(rc.reqs) > 0 {
			<-rc.reqs
		}
		time.Sleep(time.Second)
		if len(rc.reqs) > 0 {
			t.Error("the context ended, but the charge point connects again")
		}
	}()
	// the context ends while disconnected
	go func() {
		defer func() { done <- true }()
		rc := newRawCentral()
		ctx, cancel := context.WithCancel(context.Background())
		c, err := pointAt(ctx, "cp2", rc.ws(), noCommands)
		if err != nil {
			t.Error(err)
			return
		}
		p := rc.peer(soon)
		rc.refuse(true)
		p.Close()
		for n := 0; n < 2; n++ {
			select {
			case <-rc.reqs:
			case <-time.After(12 * time.Second):
				t.Error("no attempt to connect again")
				return
			}
		}
		var conn *ws.Conn = c.Connection()
		cancel()
		rc.refuse(false)
		if p := rc.peer(7 * time.Second); p != nil {
			t.Error("the context ended while disconnected, but the charge point connects again")
		}
		if c.Connection() != conn {
			t.Error("the context ended while disconnected, but there is a new connection")
		}
	}()
	<-done
	<-done
}
