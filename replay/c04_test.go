package verifreplay

import (
	"reflect"
	"testing"

	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/req"
	"github.com/voltbras/go-ocpp/messages/res"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

func TestC04(t *testing.T) {
	known := map[string]bool{}
	for _, a := range acts {
		for round := 0; round < 2; round++ {
			if a.name != "DataTransfer" {
				known[a.name] = true
				r := req.FromActionName(a.name)
				if !fresh(r, a.req) {
					t.Errorf("request of %s (call %d): %#v", a.name, round, r)
					continue
				}
				p := res.FromActionName(a.name)
				if !fresh(p, a.resp) {
					t.Errorf("response of %s (call %d): %#v", a.name, round, p)
					continue
				}
				// the next call must not give the same object
				fill(reflect.ValueOf(r).Elem(), 3)
				fill(reflect.ValueOf(p).Elem(), 3)
			}
			for _, q := range []messages.Request{a.req, reflect.New(reflect.TypeOf(a.req).Elem()).Interface().(messages.Request)} {
				if round == 1 {
					fill(reflect.ValueOf(q).Elem(), 4)
				}
				if q.Action() != a.name {
					t.Errorf("%T.Action() = %q", q, q.Action())
				}
				p := q.GetResponse()
				if !fresh(p, a.resp) {
					t.Errorf("%T.GetResponse() = %#v", q, p)
					continue
				}
				fill(reflect.ValueOf(p).Elem(), 3)
			}
		}
		_, r1 := a.req.(cpreq.ChargePointRequest)
		_, r2 := a.req.(csreq.CentralSystemRequest)
		_, p1 := a.resp.(cpresp.ChargePointResponse)
		_, p2 := a.resp.(csresp.CentralSystemResponse)
		if r1 != a.cp || r2 == a.cp || p1 != a.cp || p2 == a.cp {
			t.Errorf("direction of %s (%T, %T): %v %v %v %v", a.name, a.req, a.resp, r1, r2, p1, p2)
		}
	}
	var others []string
	for n := range known {
		others = append(others, n+" ", " "+n, n+"Request", n+"Response", n[:len(n)-1], n[1:], string(n[0]+32)+n[1:], n+"\x00", n+n)
	}
	others = append(others, "", "DataTransfer", "dataTransfer", "LogStatusNotification", "SecurityEventNotification", "SignedUpdateFirmware", "GetLog", "ExtendedTriggerMessage", "SignCertificate", "CertificateSigned", "InstallCertificate", "DeleteCertificate", "GetInstalledCertificateIds", "Foo", "CancelReservations", "Fault")
	for _, n := range others {
		if r := req.FromActionName(n); r != nil {
			t.Errorf("request of %q: %#v", n, r)
		}
		if r := res.FromActionName(n); r != nil {
			t.Errorf("response of %q: %#v", n, r)
		}
	}
}
