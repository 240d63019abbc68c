package verifreplay

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"testing"

	"github.com/voltbras/go-ocpp/soap"
)

func TestC12(t *testing.T) {
	r := rand.New(rand.NewSource(seed()))
	fails := 0
	fail := func(f string, a ...interface{}) {
		t.Errorf(f, a...)
		if fails++; fails > 10 {
			t.FailNow()
		}
	}
	for n := 0; n < rounds(60); n++ {
		for _, e := range xmlElems {
			v := randomMessage(r, e)
			var raw []byte
			err := safely(func() {
				var err error
				if raw, err = soap.Marshal(v, nil, soapNS); err != nil {
					panic(err)
				}
			})
			if err != nil {
				fail("%s cannot be written: %v", e.name, err)
				continue
			}
			if err := checkMessage(raw, e, v); err != nil {
				fail("%s is written as\n%s\n%v", e.name, raw, err)
			}
			for i, doc := range []string{string(raw), messageXML(r, e, v, "")} {
				var got interface{}
				var flt bool
				err := safely(func() {
					env, err := soap.Unmarshal([]byte(doc))
					if err != nil {
						panic(err)
					}
					got, flt = env.Body.Content, env.Body.Fault != nil
				})
				what := []string{"its own", "the reference's"}[i]
				if err != nil {
					fail("%s (%s) cannot be read: %v\n%s", e.name, what, err, doc)
				} else if reflect.TypeOf(got) != reflect.TypeOf(v) {
					fail("%s (%s) is read as a %T, not a %T\n%s", e.name, what, got, v, doc)
				} else if flt {
					fail("%s (%s) is read as a fault too", e.name, what)
				} else if err := sameFields(reflect.ValueOf(got), reflect.ValueOf(v)); err != nil {
					fail("%s (%s) is read back differently: %v\n%s", e.name, what, err, doc)
				}
			}
		}
		// a fault is a fault
		text := xmlText(r)
		for i, doc := range []string{
			envelope("", "<S:Fault><S:Code><S:Value>S:Receiver</S:Value></S:Code><S:Reason><S:Text>"+escaped(text)+"</S:Text></S:Reason></S:Fault>", "", ""),
			func() string { b, _ := soap.Marshal(nil, fmt.Errorf("%s", text), soapNS); return string(b) }(),
		} {
			if i == 1 {
				if err := checkFault([]byte(doc), text, true); err != nil {
					fail("a fault is written as\n%s\n%v", doc, err)
				}
			}
			err := safely(func() {
				env, err := soap.Unmarshal([]byte(doc))
				if err != nil || env.Body.Content != nil || env.Body.Fault == nil || env.Body.Fault.Error() != text {
					panic(fmt.Sprintf("%v, content %v, fault %v", err, env.Body.Content, env.Body.Fault))
				}
			})
			if err != nil {
				fail("a fault is read as %v\n%s", err, doc)
			}
		}
	}
	// elements of any other name
	known := map[string]bool{"Fault": true}
	for _, e := range xmlElems {
		known[e.name] = true
	}
	var others []string
	for _, e := range xmlElems {
		others = append(others, strings.ToUpper(e.name[:1])+e.name[1:], e.name+"s", strings.TrimSuffix(strings.TrimSuffix(e.name, "Request"), "Response"), strings.ToLower(e.name))
		if strings.HasSuffix(e.name, "Request") {
			others = append(others, strings.TrimSuffix(e.name, "Request")+"Confirmation")
		}
	}
	others = append(others, "triggerMessageRequest", "setChargingProfileRequest", "clearChargingProfileRequest", "getCompositeScheduleRequest", "triggerMessageResponse", "fault", "Text", "x")
	for _, name := range others {
		if known[name] {
			continue
		}
		for i, with := range []string{"", "<m:heartbeatRequest/>", "<m:heartbeatRequest/>", "", "", ""} {
			ns := []string{"urn://Ocpp/Cs/2012/06/", "urn://Ocpp/Cp/2012/06/", "urn:vendor", "", soapNS, "http://x"}[(i+len(name))%6]
			doc := envelope("", with+"<m:"+name+"><m:idTag>x</m:idTag></m:"+name+">", "urn://Ocpp/Cs/2012/06/", "m:")
			if ns != "urn://Ocpp/Cs/2012/06/" {
				doc = envelope("", with+"<"+name+` xmlns="`+ns+`"><idTag>x</idTag></`+name+">", "urn://Ocpp/Cs/2012/06/", "m:")
			}
			if i == 2 {
				doc = strings.Replace(doc, "<m:heartbeatRequest/>", "", 1)
				doc = strings.Replace(doc, "</S:Body>", "<m:heartbeatRequest/></S:Body>", 1)
			}
			err := safely(func() {
				if _, err := soap.Unmarshal([]byte(doc)); err == nil {
					panic("it is accepted")
				}
			})
			if err != nil {
				fail("an element %s: %v", name, err)
			}
		}
	}
	// elements whose content cannot be read
	for _, doc := range []string{
		envelope("", "<m:statusNotificationRequest><m:connectorId>one</m:connectorId></m:statusNotificationRequest>", "urn://Ocpp/Cs/2012/06/", "m:"),
		envelope("", "<m:startTransactionRequest><m:timestamp>yesterday</m:timestamp></m:startTransactionRequest>", "urn://Ocpp/Cs/2012/06/", "m:"),
	} {
		if err := safely(func() {
			if _, err := soap.Unmarshal([]byte(doc)); err == nil {
				panic("it is accepted")
			}
		}); err != nil {
			fail("%s\n%v", doc, err)
		}
	}
}
