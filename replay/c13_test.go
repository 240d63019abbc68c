package verifreplay

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
	"github.com/voltbras/go-ocpp/soap"
)

// tight writer: counts what is written
type outRec struct {
	*httptest.ResponseRecorder
	writes [][]byte
}

func (o *outRec) Write(b []byte) (int, error) {
	o.writes = append(o.writes, append([]byte(nil), b...))
	return o.ResponseRecorder.Write(b)
}

// outcome: what a handler does with a request
type outcome struct {
	resp interface{}
	err  error
	bad  bool // the response cannot be encoded
}

func outcomes(r *rand.Rand, e xmlElem) []outcome {
	out := []outcome{{err: errHandler}, {err: errors.New("<&>\"' ]]> %s é")}, {err: fmt.Errorf("wrapped: %w", errHandler)}}
	req, ok := e.v.(messages.Request)
	if !ok {
		return out
	}
	respE := elemOf(req.GetResponse())
	for i := 0; i < 3; i++ {
		out = append(out, outcome{resp: randomMessage(r, respE)})
	}
	if b, ok := out[len(out)-1].resp.(*cpresp.Heartbeat); ok {
		x := *b
		x.CurrentTime = time.Date(12345, 1, 1, 0, 0, 0, 0, time.UTC)
		out = append(out, outcome{resp: &x, bad: true})
	}
	return out
}

func (o outcome) check(b []byte) error {
	switch {
	case o.bad:
		return checkFault(b, "", false)
	case o.err != nil:
		return checkFault(b, o.err.Error(), true)
	}
	return checkMessage(b, elemOf(o.resp), o.resp)
}

func header(r *rand.Rand) (string, string) {
	id := xmlText(r)
	switch r.Intn(4) {
	case 0:
		return "", ""
	case 1:
		return "<x:Action xmlns:x=\"http://www.w3.org/2005/08/addressing\">/A</x:Action>", ""
	case 2:
		return `<x:chargeBoxIdentity xmlns:x="urn://Ocpp/Cs/2012/06/">` + escaped(id) + "</x:chargeBoxIdentity>", id
	}
	return `<w:To xmlns:w="http://www.w3.org/2005/08/addressing">x</w:To><w:From xmlns:w="http://www.w3.org/2005/08/addressing"><w:Address>http://x</w:Address></w:From><x:chargeBoxIdentity xmlns:x="urn://Ocpp/Cp/2012/06/">` + escaped(id) + "</x:chargeBoxIdentity>", id
}

// badBodies: request bodies that hold no request
func badBodies(r *rand.Rand) []string {
	good := messageXML(r, xmlElems[0], randomMessage(r, xmlElems[0]), "")
	resp := elemOf(&cpresp.Heartbeat{})
	out := []string{"", " ", "<", "not xml", "<a/>", "<a><b></a></b>", envelope("", "", "", ""), envelope("", "<m:fooRequest/>", "urn://Ocpp/Cs/2012/06/", "m:"),
		envelope("", "<S:Fault><S:Reason><S:Text>x</S:Text></S:Reason></S:Fault>", "", ""), messageXML(r, resp, randomMessage(r, resp), ""),
		envelope("", "<m:startTransactionRequest><m:meterStart>many</m:meterStart></m:startTransactionRequest>", "urn://Ocpp/Cs/2012/06/", "m:"),
		`<S:Envelope xmlns:S="http://www.w3.org/2003/05/soap-envelope"/>`, `<S:Envelope xmlns:S="` + soapNS + `"><S:Header/></S:Envelope>`, "\xff\xfe", "{\"json\":1}"}
	for i := 1; i < len(good)-12; i += 1 + r.Intn(40) {
		out = append(out, good[:i])
	}
	return out
}

func TestC13(t *testing.T) {
	r := rand.New(rand.NewSource(seed()))
	// ---- soap.Handle itself
	for n := 0; n < rounds(8); n++ {
		for _, e := range xmlElems {
			if _, ok := e.v.(messages.Request); !ok {
				continue
			}
			for _, o := range outcomes(r, e) {
				v := randomMessage(r, e)
				h, id := header(r)
				doc := messageXML(r, e, v, "")
				doc = strings.Replace(doc, "<S:Body>", map[bool]string{true: "<S:Header>" + h + "</S:Header>", false: ""}[h != ""]+"<S:Body>", 1)
				rec := &outRec{ResponseRecorder: httptest.NewRecorder()}
				calls := 0
				var got messages.Request
				gotID := ""
				err := safely(func() {
					soap.Handle(rec, httptest.NewRequest("POST", "/", strings.NewReader(doc)), func(q messages.Request, cpID string) (messages.Response, error) {
						calls++
						got, gotID = q, cpID
						if o.err != nil {
							return nil, o.err
						}
						return o.resp.(messages.Response), nil
					})
				})
				switch {
				case err != nil:
					t.Fatalf("%v\n%s", err, doc)
				case calls != 1:
					t.Fatalf("the handler is called %d times for\n%s", calls, doc)
				case reflect.TypeOf(got) != reflect.TypeOf(v) || sameFields(reflect.ValueOf(got), reflect.ValueOf(v)) != nil:
					t.Fatalf("the handler gets %+v for\n%s", got, doc)
				case gotID != id:
					t.Fatalf("the handler gets charge box identity %q, not %q, for\n%s", gotID, id, doc)
				case len(rec.writes) != 1:
					t.Fatalf("%d envelopes are written for\n%s\n(handler: %v, %v)", len(rec.writes), doc, o.resp, o.err)
				}
				if ce := rec.Header().Get("Content-Encoding"); ce != "" && ce != "identity" {
					t.Fatalf("the reply, plain text, is declared to have the content encoding %q:\n%s", ce, rec.writes[0])
				}
				if err := o.check(rec.writes[0]); err != nil {
					t.Fatalf("the handler returns %+v, %v; the reply is\n%s\n%v", o.resp, o.err, rec.writes[0], err)
				}
			}
		}
		for _, doc := range badBodies(r) {
			rec := &outRec{ResponseRecorder: httptest.NewRecorder()}
			calls := 0
			var herr error
			err := safely(func() {
				herr = soap.Handle(rec, httptest.NewRequest("POST", "/", strings.NewReader(doc)), func(messages.Request, string) (messages.Response, error) {
					calls++
					return &cpresp.Heartbeat{}, nil
				})
			})
			switch {
			case err != nil:
				t.Fatalf("%v\n%s", err, doc)
			case calls != 0:
				t.Fatalf("the handler is called for\n%s", doc)
			case herr == nil:
				t.Fatalf("no error for\n%s", doc)
			}
		}
	}
	// ---- the two sides
	done := catchPanics(t)
	defer done()
	var csGot []cpreq.ChargePointRequest
	var csMeta []cs.ChargePointRequestMetadata
	var csOut outcome
	_, addr := central(t, func(q cpreq.ChargePointRequest, m cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		csGot, csMeta = append(csGot, q), append(csMeta, m)
		if csOut.err != nil {
			return nil, csOut.err
		}
		return csOut.resp.(cpresp.ChargePointResponse), nil
	})
	var cpGot []csreq.CentralSystemRequest
	var cpOut outcome
	cpAddr := freePort()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if _, err := cp.New(ctx, "cp", "http://"+addr, ocpp.V15, ocpp.SOAP, &cpAddr, func(q csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		cpGot = append(cpGot, q)
		if cpOut.err != nil {
			return nil, cpOut.err
		}
		return cpOut.resp.(csresp.CentralSystemResponse), nil
	}); err != nil {
		t.Fatal(err)
	}
	soonTrue(func() bool {
		c, err := net.Dial("tcp", cpAddr)
		if err == nil {
			c.Close()
		}
		return err == nil
	})
	hc := &http.Client{Timeout: 10 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}
	post := func(to, doc string) []byte {
		res, err := hc.Post("http://"+to+"/x/y", "application/soap+xml", bytes.NewReader([]byte(doc)))
		if err != nil {
			t.Fatalf("no reply to\n%s\n%v", doc, err)
		}
		defer res.Body.Close()
		b, err := ioutil.ReadAll(io.LimitReader(res.Body, 1<<20))
		if err != nil {
			t.Fatal(err)
		}
		return b
	}
	for _, e := range xmlElems {
		if _, ok := e.v.(messages.Request); !ok {
			continue
		}
		_, fromCP := e.v.(cpreq.ChargePointRequest)
		_, fromCS := e.v.(csreq.CentralSystemRequest)
		for _, o := range outcomes(r, e) {
			v := randomMessage(r, e)
			h, id := header(r)
			doc := messageXML(r, e, v, "")
			doc = strings.Replace(doc, "<S:Body>", map[bool]string{true: "<S:Header>" + h + "</S:Header>", false: ""}[h != ""]+"<S:Body>", 1)
			csOut, csGot, csMeta = o, nil, nil
			b := post(addr, doc)
			if !fromCP {
				if len(csGot) != 0 {
					t.Fatalf("the central system's handler gets\n%s", doc)
				}
				if err := checkFault(b, "", false); err != nil {
					t.Fatalf("the central system answers\n%s\n%s\n%v", doc, b, err)
				}
			} else {
				if len(csGot) != 1 || reflect.TypeOf(csGot[0]) != reflect.TypeOf(v) || sameFields(reflect.ValueOf(csGot[0]), reflect.ValueOf(v)) != nil {
					t.Fatalf("the central system's handler gets %v for\n%s", csGot, doc)
				}
				if csMeta[0].ChargePointID != id || csMeta[0].HTTPRequest == nil || csMeta[0].HTTPRequest.URL.Path != "/x/y" {
					t.Fatalf("the central system's handler gets %+v for\n%s", csMeta[0], doc)
				}
				if err := o.check(b); err != nil {
					t.Fatalf("the handler returns %+v, %v; the central system answers\n%s\n%v", o.resp, o.err, b, err)
				}
			}
			cpOut, cpGot = o, nil
			b = post(cpAddr, doc)
			if !fromCS {
				if len(cpGot) != 0 {
					t.Fatalf("the charge point's handler gets\n%s", doc)
				}
				if err := checkFault(b, "", false); err != nil {
					t.Fatalf("the charge point answers\n%s\n%s\n%v", doc, b, err)
				}
			} else {
				if len(cpGot) != 1 || reflect.TypeOf(cpGot[0]) != reflect.TypeOf(v) || sameFields(reflect.ValueOf(cpGot[0]), reflect.ValueOf(v)) != nil {
					t.Fatalf("the charge point's handler gets %v for\n%s", cpGot, doc)
				}
				if err := o.check(b); err != nil {
					t.Fatalf("the handler returns %+v, %v; the charge point answers\n%s\n%v", o.resp, o.err, b, err)
				}
			}
		}
	}
	csOut, cpOut = outcome{err: errHandler}, outcome{err: errHandler}
	for _, doc := range badBodies(r) {
		csGot, cpGot = nil, nil
		post(addr, doc)
		post(cpAddr, doc)
		if len(csGot)+len(cpGot) != 0 {
			t.Fatalf("a handler is called for\n%s", doc)
		}
	}
}
