package verifreplay

import (
	"fmt"
	"io/ioutil"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strings"
	"sync"

	"github.com/voltbras/go-ocpp/messages"
)

// reply: what the peer does with one posted request
type reply struct {
	name   string
	status int
	body   string
	cut    int         // announce the whole body but write only its first bytes (-1: all)
	drop   bool        // close the connection instead of answering
	want   interface{} // the response the caller must get
	fault  string      // the text the caller's error must have
	isErr  bool
}

type soapPeer struct {
	*httptest.Server
	mu      sync.Mutex
	rep     reply
	got     [][]byte
	methods []string
}

func newSOAPPeer() *soapPeer {
	p := &soapPeer{}
	p.Server = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := ioutil.ReadAll(r.Body)
		p.mu.Lock()
		rep := p.rep
		p.got = append(p.got, b)
		p.methods = append(p.methods, r.Method)
		p.mu.Unlock()
		if rep.drop || rep.cut >= 0 {
			c, _, err := w.(http.Hijacker).Hijack()
			if err != nil {
				return
			}
			defer c.Close()
			if !rep.drop {
				fmt.Fprintf(c, "HTTP/1.1 %d X\r\nContent-Type: application/soap+xml\r\nContent-Length: %d\r\n\r\n%s", rep.status, len(rep.body), rep.body[:rep.cut])
			}
			return
		}
		w.WriteHeader(rep.status)
		w.Write([]byte(rep.body))
	}))
	return p
}

func (p *soapPeer) set(r reply) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.rep, p.got, p.methods = r, nil, nil
}

func (p *soapPeer) posted() ([][]byte, []string) {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.got, p.methods
}

func faultXML(s, reason, extra string) string {
	return envelope("", fmt.Sprintf(`<S:Fault><S:Code><S:Value>S:Sender</S:Value></S:Code><S:Reason><S:Text xml:lang="en">%s</S:Text></S:Reason>%s</S:Fault>`, escaped(reason), extra), "", "")
}

// replies: every kind of reply to a request whose response is of type e
func replies(r *rand.Rand, e xmlElem) []reply {
	var out []reply
	for i := 0; i < 3; i++ {
		v := randomMessage(r, e)
		out = append(out, reply{name: "the response", status: []int{200, 200, 500}[i], cut: -1, body: messageXML(r, e, v, ""), want: v})
	}
	v := randomMessage(r, e)
	doc := messageXML(r, e, v, "")
	out = append(out, reply{name: "a response cut off", status: 200, body: doc, cut: r.Intn(len(doc) - 14), isErr: true})
	for i := 0; i < 2; i++ {
		if o := xmlElems[r.Intn(len(xmlElems))]; reflect.TypeOf(o.v) != reflect.TypeOf(e.v) {
			out = append(out, reply{name: "a message of another type: " + o.name, status: 200, cut: -1, body: messageXML(r, o, randomMessage(r, o), ""), isErr: true})
		}
	}
	for _, reason := range []string{"no", "100%d <&> \"q\" é", xmlText(r)} {
		for _, st := range []int{200, 500} {
			out = append(out, reply{name: "a fault", status: st, cut: -1, body: faultXML("", reason, ""), fault: reason, isErr: true})
		}
	}
	out = append(out, reply{name: "a fault without reason", status: 500, cut: -1, body: envelope("", "<S:Fault/>", "", ""), isErr: true})
	for _, b := range []string{"", "nothing", "<html><body>Bad Gateway</body></html>", `<S:Envelope xmlns:S="` + soapNS + `"/>`, `<S:Envelope xmlns:S="` + soapNS + `"><S:Body></S:Body></S:Envelope>`, envelope("", " ", "", ""), envelope("", "<x/>", "", ""), doc[:r.Intn(len(doc)-14)], "\x00\xff"} {
		for _, st := range []int{200, 404, 500} {
			out = append(out, reply{name: fmt.Sprintf("body %q with status %d", b, st), status: st, cut: -1, body: b, isErr: true})
		}
	}
	return append(out, reply{name: "a closed connection", cut: -1, drop: true, isErr: true})
}

// outcomeOf: compare what the caller got with what the peer replied
func outcomeOf(rep reply, resp interface{}, err error) error {
	if rep.isErr {
		if err == nil {
			return fmt.Errorf("no error after %s", rep.name)
		}
		if rep.fault != "" && err.Error() != rep.fault {
			return fmt.Errorf("the error for the fault %q reads %q", rep.fault, err.Error())
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("error %q after %s", err, rep.name)
	}
	if reflect.TypeOf(resp) != reflect.TypeOf(rep.want) {
		return fmt.Errorf("a %T after %s", resp, rep.name)
	}
	return sameFields(reflect.ValueOf(rep.want), reflect.ValueOf(resp))
}

// checkPosted: exactly one envelope was posted, with the request and this header
func (p *soapPeer) checkPosted(e xmlElem, v interface{}, url, id, from string) error {
	got, methods := p.posted()
	if len(got) != 1 || methods[0] != "POST" {
		return fmt.Errorf("%d requests were made (%v)", len(got), methods)
	}
	if err := checkMessage(got[0], e, v); err != nil {
		return fmt.Errorf("what is posted: %v: %s", err, cutText(string(got[0])))
	}
	root, err := parseXML(got[0])
	if err != nil {
		return err
	}
	hs := root.all("Header")
	if len(hs) != 1 {
		return fmt.Errorf("%d headers are posted", len(hs))
	}
	for _, w := range []struct {
		path []string
		text string
		ns   string
	}{{[]string{"Action"}, "/" + v.(messages.Request).Action(), wsaNS}, {[]string{"To"}, url, wsaNS}, {[]string{"From", "Address"}, from, wsaNS}, {[]string{"chargeBoxIdentity"}, id, "urn://Ocpp/C"}} {
		k := hs[0].kid(w.path...)
		if k == nil {
			return fmt.Errorf("the header has no %v", w.path)
		}
		if strings.TrimSpace(k.text) != strings.TrimSpace(w.text) {
			return fmt.Errorf("the header's %v is %q, not %q", w.path, k.text, w.text)
		}
		if !strings.HasPrefix(k.space, w.ns) {
			return fmt.Errorf("the header's %v is in namespace %q", w.path, k.space)
		}
	}
	if m := hs[0].kid("MessageID"); m == nil || m.text == "" {
		return fmt.Errorf("the header has no message id")
	}
	return nil
}

const wsaNS = "http://www.w3.org/2005/08/addressing"

func cutText(s string) string {
	if len(s) > 400 {
		return s[:400] + "…"
	}
	return s
}
