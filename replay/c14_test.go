package verifreplay

import (
	"fmt"
	"math/rand"
	"net"
	"testing"

	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/soap"

	"github.com/voltbras/go-ocpp/internal/service"
)

func TestC14(t *testing.T) {
	r := rand.New(rand.NewSource(seed()))
	p := newSOAPPeer()
	defer p.Close()
	url := p.URL + "/some/path?a=b&c=d"
	var dead string
	if l, err := net.Listen("tcp", "127.0.0.1:0"); err == nil {
		dead = "http://" + l.Addr().String()
		l.Close()
	}
	for n := 0; n < rounds(1); n++ {
		for _, e := range xmlElems {
			req0, ok := e.v.(messages.Request)
			if !ok {
				continue
			}
			respE := elemOf(req0.GetResponse())
			for i, rep := range replies(r, respE) {
				v := randomMessage(r, e).(messages.Request)
				id, from := xmlText(r), "http://"+xmlText(r)
				opts := &soap.CallOptions{ChargeBoxIdentity: id}
				opts.From.Address = from
				if i%5 == 4 {
					opts, id, from = nil, "", ""
				}
				fail := func(what string, err error) {
					t.Fatalf("%s(%+v), answered with %s (%s): %s%v", v.Action(), v, rep.name, cutText(rep.body), what, err)
				}
				// ---- the client itself
				p.set(rep)
				var err error
				resp := v.GetResponse()
				if i%2 == 1 { // what the object held before does not matter
					resp = randomMessage(r, respE).(messages.Response)
				}
				if perr := safely(func() { err = soap.NewClient(url).Call(v.Action(), v, resp, opts) }); perr != nil {
					fail("", perr)
				}
				if err := p.checkPosted(e, v, url, id, from); err != nil && !rep.drop {
					fail("", err)
				}
				if err := outcomeOf(rep, resp, err); err != nil {
					fail("", err)
				}
				// ---- the service
				p.set(rep)
				var sresp messages.Response
				if perr := safely(func() { sresp, err = service.NewSOAP(url, opts).Send(v) }); perr != nil {
					fail("Send: ", perr)
				}
				if err := p.checkPosted(e, v, url, id, from); err != nil && !rep.drop {
					fail("Send: ", err)
				}
				if err != nil && !isNil(sresp) {
					fail("Send: ", fmt.Errorf("both a response and the error %v", err))
				}
				if err == nil && isNil(sresp) {
					fail("Send: ", fmt.Errorf("neither a response nor an error"))
				}
				if err := outcomeOf(rep, sresp, err); err != nil {
					fail("Send: ", err)
				}
				// ---- the typed services
				p.set(rep)
				var typed interface{}
				perr := safely(func() {
					switch q := v.(type) {
					case cpreq.ChargePointRequest:
						if elemOf(v).ns == "urn://Ocpp/Cs/2012/06/" {
							x, e := service.NewCentralSystemSOAP(url, opts).Send(q)
							typed, err = x, e
							return
						}
						typed, err = sresp, err
					case csreq.CentralSystemRequest:
						x, e := service.NewChargePointSOAP(url, opts).Send(q)
						typed, err = x, e
					}
				})
				if perr != nil {
					fail("typed Send: ", perr)
				}
				if err != nil && !isNil(typed) {
					fail("typed Send: ", fmt.Errorf("both a response and the error %v", err))
				}
				if err := outcomeOf(rep, typed, err); err != nil {
					fail("typed Send: ", err)
				}
			}
			// ---- no transport
			for _, u := range []string{"", dead, "http://127.0.0.1:1\x7f/", "not a url", "ftp://127.0.0.1/"} {
				var err error
				v := randomMessage(r, e).(messages.Request)
				resp := v.GetResponse()
				if perr := safely(func() { err = soap.NewClient(u).Call(v.Action(), v, resp, nil) }); perr != nil || err == nil {
					t.Fatalf("a call to %q: %v %v", u, perr, err)
				}
			}
		}
	}
}
