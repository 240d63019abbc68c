package verifreplay

import (
	"context"
	"fmt"
	"io/ioutil"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/gorilla/websocket"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/internal/service"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
	"github.com/voltbras/go-ocpp/ws"
)

func TestC15(t *testing.T) {
	r := rand.New(rand.NewSource(seed()))
	type heard struct {
		id     string
		req    cpreq.ChargePointRequest
		method string
	}
	var mu sync.Mutex
	var calls []heard
	sys, addr := central(t, func(q cpreq.ChargePointRequest, m cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		mu.Lock()
		defer mu.Unlock()
		h := heard{id: m.ChargePointID, req: q}
		if m.HTTPRequest != nil {
			h.method = m.HTTPRequest.Method
		}
		calls = append(calls, h)
		return &cpresp.Heartbeat{CurrentTime: time.Unix(1e9, 0).UTC()}, nil
	})
	taken := func() []heard {
		mu.Lock()
		defer mu.Unlock()
		c := calls
		calls = nil
		return c
	}
	page := 0
	peer := newSOAPPeer()
	defer peer.Close()
	for n := 0; n < rounds(2); n++ {
		// ---- routing
		hb := xmlElems[0]
		for _, e := range xmlElems {
			if e.name == "heartbeatRequest" {
				hb = e
			}
		}
		for _, m := range []string{"POST", "PUT", "DELETE", "PATCH", "get", "FOO", "OPTIONS"} {
			path := "/" + fmt.Sprint(r.Intn(9)) + "/x"
			doc := messageXML(r, hb, randomMessage(r, hb), `<x:chargeBoxIdentity xmlns:x="urn://Ocpp/Cs/2012/06/">box</x:chargeBoxIdentity>`)
			q, _ := http.NewRequest(m, "http://"+addr+path, strings.NewReader(doc))
			res, err := http.DefaultClient.Do(q)
			if err != nil {
				t.Fatalf("%s: %v", m, err)
			}
			b, _ := ioutil.ReadAll(res.Body)
			res.Body.Close()
			c := taken()
			if len(c) != 1 || c[0].id != "box" || c[0].method != m {
				t.Fatalf("a SOAP request by %s reaches the handler as %+v", m, c)
			}
			if err := checkMessage(b, elemOf(&cpresp.Heartbeat{}), &cpresp.Heartbeat{CurrentTime: time.Unix(1e9, 0).UTC()}); err != nil {
				t.Fatalf("a SOAP request by %s is answered with %s: %v", m, cutText(string(b)), err)
			}
		}
		for _, path := range []string{"/", "/some/where?x=1"} {
			q, _ := http.NewRequest("GET", "http://"+addr+path, strings.NewReader(messageXML(r, hb, randomMessage(r, hb), "")))
			res, err := http.DefaultClient.Do(q)
			if err != nil {
				t.Fatal(err)
			}
			b, _ := ioutil.ReadAll(res.Body)
			res.Body.Close()
			if c := taken(); len(c) != 0 {
				t.Fatalf("a GET reaches the handler: %+v", c)
			}
			if _, err := parseXML(b); len(b) == 0 || (err == nil && strings.Contains(string(b), "Envelope")) {
				t.Fatalf("a GET is answered with %q", cutText(string(b)))
			}
			page++
		}
		// ---- endpoints of the central system
		for _, id := range []string{"cp", "a/b", "Ä x", ""} {
			for _, v := range []ocpp.Version{ocpp.V15, ocpp.V16, "", "1.7", "2.0", "v1.6", "1.60"} {
				if perr := safely(func() { endpoint(t, r, sys, peer, id, v) }); perr != nil {
					t.Fatalf("GetServiceOf(%q, %q): %v", id, v, perr)
				}
			}
		}
		// a connected station is reached through its own connection
		a, err := station(addr, "/stationA")
		if err != nil {
			t.Fatal(err)
		}
		b, err := station(addr, "/grid/b 1")
		if err != nil {
			t.Fatal(err)
		}
		if got := a.Subprotocol(); got != "ocpp1.6" {
			t.Fatalf("the central system announces %q for OCPP 1.6", got)
		}
		for id, p := range map[string]*rawPeer{"stationA": a, "grid/b 1": b} {
			<-sys.WaitConnect(id)
			s, err := sys.GetServiceOf(id, ocpp.V16, peer.URL)
			if err != nil || isNil(s) {
				t.Fatalf("no service of the connected station %q: %v", id, err)
			}
			if _, err := roundTrip(p, "1", "Heartbeat", "{}"); err != nil {
				t.Fatal(err)
			}
			c := taken()
			if len(c) != 1 || c[0].id != id {
				t.Fatalf("a request of %q arrives as %+v", id, c)
			}
			if err := overJSON(p, func() (interface{}, error) {
				return s.Send(&csreq.UnlockConnector{ConnectorId: 7})
			}, "UnlockConnector", `{"connectorId":7}`, `{"status":"Unlocked"}`, &csresp.UnlockConnector{Status: "Unlocked"}); err != nil {
				t.Fatalf("to %q: %v", id, err)
			}
			if err := overJSON(p, func() (interface{}, error) {
				return s.Send(&csreq.UnlockConnector{ConnectorId: 7})
			}, "UnlockConnector", `{"connectorId":7}`, "", peerError{"SecurityError", "not you " + id}); err != nil {
				t.Fatalf("to %q: %v", id, err)
			}
			if s, err := sys.GetServiceOf(id, "1.4", peer.URL); err == nil || !isNil(s) {
				t.Fatalf("a service of version 1.4: %v %v", s, err)
			}
			endpoint(t, r, sys, peer, id, ocpp.V15)
			if s, err := sys.GetServiceOf(id+"x", ocpp.V16, peer.URL); err == nil || !isNil(s) {
				t.Fatalf("a service of a station that is not connected: %v %v", s, err)
			}
		}
		a.Close()
		b.Close()
		for _, id := range []string{"stationA", "grid/b 1"} {
			id := id
			if !soonTrue(func() bool { s, err := sys.GetServiceOf(id, ocpp.V16, ""); return err != nil && isNil(s) }) {
				t.Fatalf("a service of the station %q that has gone", id)
			}
		}
		// ---- the charge point's side
		dials(t, r)
		handshakes(t)
		typedSOAP(t, r, peer)
	}
}

// endpoint: the service for (id, version) when no websocket matters
func endpoint(t *testing.T, r *rand.Rand, sys cs.CentralSystem, peer *soapPeer, id string, v ocpp.Version) {
	url := peer.URL + "/" + fmt.Sprint(r.Intn(100))
	s, err := sys.GetServiceOf(id, v, url)
	if v != ocpp.V15 {
		if err == nil || !isNil(s) {
			t.Fatalf("GetServiceOf(%q, %q): %v and error %v", id, v, s, err)
		}
		return
	}
	if err != nil || isNil(s) {
		t.Fatalf("GetServiceOf(%q, 1.5): %v and error %v", id, s, err)
	}
	e := elemOf(&csreq.UnlockConnector{})
	req := &csreq.UnlockConnector{ConnectorId: r.Intn(5)}
	want := &csresp.UnlockConnector{Status: "Accepted"}
	peer.set(reply{status: 200, cut: -1, body: messageXML(r, elemOf(want), want, "")})
	resp, err := s.Send(req)
	if err == nil && reflect.TypeOf(resp) != reflect.TypeOf(want) {
		t.Fatalf("a 1.5 request of %q: %T", id, resp)
	}
	if err != nil || sameFields(reflect.ValueOf(want), reflect.ValueOf(resp)) != nil {
		t.Fatalf("a 1.5 request of %q: %+v, %v", id, resp, err)
	}
	if err := peer.checkPosted(e, req, url, id, ""); err != nil {
		t.Fatalf("a 1.5 request to %q: %v", id, err)
	}
}

// peerError: the peer answers with an error
type peerError struct{ code, text string }

// overJSON: f sends a request over p's connection; the peer checks and answers it
func overJSON(p *rawPeer, f func() (interface{}, error), action, payload, answer string, want interface{}) error {
	type res struct {
		v   interface{}
		err error
	}
	ch := make(chan res, 1)
	go func() {
		var x res
		if perr := safely(func() { x.v, x.err = f() }); perr != nil {
			x.err = perr
		}
		ch <- x
	}()
	m := p.next(2 * time.Second)
	fr, err := parseFrame(m)
	if err != nil || len(fr) != 4 || string(fr[0]) != "2" || str(fr[2]) != action || !sameJSON(string(fr[3]), payload) {
		return fmt.Errorf("%s %s is sent as %s", action, payload, m)
	}
	e, isErr := want.(peerError)
	if isErr {
		p.write(fmt.Sprintf(`[4,%s,"%s","%s",{}]`, fr[1], e.code, e.text))
	} else {
		p.write(fmt.Sprintf(`[3,%s,%s]`, fr[1], answer))
	}
	select {
	case x := <-ch:
		if isErr {
			if x.err == nil || !isNil(x.v) || !strings.Contains(x.err.Error(), e.code) || !strings.Contains(x.err.Error(), e.text) {
				return fmt.Errorf("%s answered with the error %s, %q gives %+v and error %v", action, e.code, e.text, x.v, x.err)
			}
			return nil
		}
		if want == nil {
			if x.err == nil || !isNil(x.v) {
				return fmt.Errorf("the answer %s gives %+v and error %v", answer, x.v, x.err)
			}
			return nil
		}
		if x.err != nil {
			return fmt.Errorf("the answer %s gives error %v", answer, x.err)
		}
		return sameFields(reflect.ValueOf(want), reflect.ValueOf(x.v))
	case <-time.After(5 * time.Second):
		return fmt.Errorf("no result for the answer %s", answer)
	}
}

// dials: path and subprotocol a charge point offers
func dials(t *testing.T, r *rand.Rand) {
	raw := make(chan *http.Request, 4)
	conns := make(chan *websocket.Conn, 4)
	up := websocket.Upgrader{Subprotocols: []string{"ocpp1.5", "ocpp1.6"}}
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		raw <- q
		if c, err := up.Upgrade(w, q, nil); err == nil {
			conns <- c
		}
	}))
	defer srv.Close()
	base := "ws" + strings.TrimPrefix(srv.URL, "http")
	for _, x := range []struct {
		v    ocpp.Version
		want string
	}{{ocpp.V16, "ocpp1.6"}, {ocpp.V15, "ocpp1.5"}} {
		for _, id := range []string{"cp1", "a/b", "Z-9_x", "q%20r"} {
			for _, path := range []string{"", "/ocpp", "/x/y"} {
				c, err := ws.Dial(id, base+path, x.v)
				if err != nil {
					t.Fatalf("Dial(%q, %q, %q): %v", id, path, x.v, err)
				}
				q := <-raw
				if q.RequestURI != path+"/"+id {
					t.Fatalf("Dial(%q, …%s): path %q", id, path, q.RequestURI)
				}
				if got := q.Header.Get("Sec-Websocket-Protocol"); got != x.want {
					t.Fatalf("version %s offers the subprotocol %q", x.v, got)
				}
				c.Close()
				(<-conns).Close()
			}
		}
	}
	// a whole charge point, and its typed Send
	central := newRawCentral()
	defer central.Close()
	c, cancel := context.WithCancel(context.Background())
	defer cancel()
	point, err := pointAt(c, "me", central.ws()+"/p", func(csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		return nil, errHandler
	})
	if err != nil {
		t.Fatal(err)
	}
	if q := <-central.reqs; q.RequestURI != "/p/me" || q.Header.Get("Sec-Websocket-Protocol") != "ocpp1.6" {
		t.Fatalf("a charge point dials %q offering %q", q.RequestURI, q.Header.Get("Sec-Websocket-Protocol"))
	}
	p := central.peer(2 * time.Second)
	if p == nil {
		t.Fatal("no session")
	}
	send := func() (interface{}, error) { return point.Send(&cpreq.Authorize{IdTag: "tag%d"}) }
	if err := overJSON(p, send, "Authorize", `{"idTag":"tag%d"}`, `{"idTagInfo":{"status":"Blocked"}}`, &cpresp.Authorize{IdTagInfo: &cpresp.IdTagInfo{Status: "Blocked"}}); err != nil {
		t.Fatal(err)
	}
	if err := overJSON(p, send, "Authorize", `{"idTag":"tag%d"}`, `{"idTagInfo":7}`, nil); err != nil {
		t.Fatal(err)
	}
	if err := overJSON(p, send, "Authorize", `{"idTag":"tag%d"}`, "", peerError{"InternalError", "try it later"}); err != nil {
		t.Fatal(err)
	}
}

// handshakes: what is announced for the versions a server supports
func handshakes(t *testing.T) {
	for _, x := range []struct {
		have  []ocpp.Version
		offer []string
		want  string
	}{
		{[]ocpp.Version{ocpp.V16}, []string{"ocpp1.6"}, "ocpp1.6"},
		{[]ocpp.Version{ocpp.V15}, []string{"ocpp1.5"}, "ocpp1.5"},
		{[]ocpp.Version{ocpp.V16}, []string{"ocpp1.5", "ocpp1.6"}, "ocpp1.6"},
		{[]ocpp.Version{ocpp.V15, ocpp.V16}, []string{"ocpp1.5"}, "ocpp1.5"},
		{[]ocpp.Version{ocpp.V16, ocpp.V15}, []string{"ocpp1.6"}, "ocpp1.6"},
	} {
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			c, err := ws.Handshake(w, q, x.have)
			if err == nil {
				defer c.Close()
			}
		}))
		d := websocket.Dialer{Subprotocols: x.offer}
		c, _, err := d.Dial("ws"+strings.TrimPrefix(srv.URL, "http"), nil)
		if err == nil {
			if got := c.Subprotocol(); got != x.want {
				t.Errorf("a server of %v announces %q to a peer that offers %v", x.have, got, x.offer)
			}
			c.Close()
		} else if x.want != "" {
			t.Errorf("a server of %v refuses a peer that offers %v: %v", x.have, x.offer, err)
		}
		srv.Close()
	}
}

// typedSOAP: the direction of what a typed Send over SOAP returns
func typedSOAP(t *testing.T, r *rand.Rand, peer *soapPeer) {
	for _, e := range xmlElems {
		v := randomMessage(r, e)
		var typed interface{}
		var err error
		var want interface{}
		send := func() {}
		switch q := v.(type) {
		case cpreq.ChargePointRequest:
			if e.ns != "urn://Ocpp/Cs/2012/06/" {
				continue
			}
			want = randomMessage(r, elemOf(q.GetResponse()))
			send = func() { x, e := service.NewCentralSystemSOAP(peer.URL, nil).Send(q); typed, err = x, e }
		case csreq.CentralSystemRequest:
			want = randomMessage(r, elemOf(q.GetResponse()))
			send = func() { x, e := service.NewChargePointSOAP(peer.URL, nil).Send(q); typed, err = x, e }
		default:
			continue
		}
		peer.set(reply{status: 200, cut: -1, body: messageXML(r, elemOf(want), want, "")})
		if perr := safely(send); perr != nil {
			t.Fatalf("%T: %v", v, perr)
		}
		if err != nil || reflect.TypeOf(typed) != reflect.TypeOf(want) {
			t.Fatalf("%T: %T and %v", v, typed, err)
		}
		if err := sameFields(reflect.ValueOf(want), reflect.ValueOf(typed)); err != nil {
			t.Fatalf("%T: %v", v, err)
		}
		if err := peer.checkPosted(e, v, peer.URL, "", ""); err != nil {
			t.Fatalf("%T: %v", v, err)
		}
		peer.set(reply{status: 500, cut: -1, body: `<S:Envelope xmlns:S="http://www.w3.org/2003/05/soap-envelope"><S:Body><S:Fault><S:Reason><S:Text>not now, 7</S:Text></S:Reason></S:Fault></S:Body></S:Envelope>`})
		if perr := safely(send); perr != nil {
			t.Fatalf("%T: %v", v, perr)
		}
		if err == nil || !isNil(typed) || !strings.Contains(err.Error(), "not now, 7") {
			t.Fatalf("%T answered with a fault: %T and error %v", v, typed, err)
		}
		other := xmlElems[r.Intn(len(xmlElems))]
		if reflect.TypeOf(other.v) == reflect.TypeOf(want) {
			continue
		}
		peer.set(reply{status: 200, cut: -1, body: messageXML(r, other, randomMessage(r, other), "")})
		if perr := safely(send); perr != nil {
			t.Fatalf("%T: %v", v, perr)
		}
		if err == nil || !isNil(typed) {
			t.Fatalf("%T answered with %s: %T and error %v", v, other.name, typed, err)
		}
	}
}
