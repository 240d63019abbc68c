package verifreplay

import (
	"errors"
	"fmt"
	"io/ioutil"
	stdlog "log"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/internal/log"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/soap"
)

// sink: a logger that keeps what it prints
type sink struct {
	mu    sync.Mutex
	lines []string
}

func (s *sink) Printf(f string, v ...interface{}) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.lines = append(s.lines, fmt.Sprintf(f, v...))
}

func (s *sink) take() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	l := s.lines
	s.lines = nil
	return l
}

// silent: what f writes to the standard streams
func silent(f func()) (string, error) {
	dir, err := ioutil.TempDir("", "verif")
	if err != nil {
		return "", err
	}
	defer os.RemoveAll(dir)
	tmp, err := os.Create(dir + "/out")
	if err != nil {
		return "", err
	}
	defer tmp.Close()
	o, e, d := os.Stdout, os.Stderr, stdlog.Writer()
	os.Stdout, os.Stderr = tmp, tmp
	stdlog.SetOutput(tmp)
	perr := safely(f)
	os.Stdout, os.Stderr = o, e
	stdlog.SetOutput(d)
	b, _ := ioutil.ReadFile(dir + "/out")
	return string(b), perr
}

func TestC17(t *testing.T) {
	r := rand.New(rand.NewSource(seed()))
	type msg struct {
		f string
		v []interface{}
	}
	msgs := func() []msg {
		return []msg{{"plain", nil}, {"%s", []interface{}{"100%d %s %!"}}, {"%v and %d%%", []interface{}{xmlText(r), r.Intn(99)}},
			{"%v", []interface{}{map[string]int{"a": 1}}}, {"a %q b %x", []interface{}{"%v", "%w"}}, {"%v", []interface{}{nil}}, {"", nil},
			{"%s%s", []interface{}{errors.New("50%"), "%%"}}, {"%+v", []interface{}{struct{ A string }{"%n"}}}}
	}
	wrapped := func() []msg {
		return append(msgs(), msg{"failed: %w", []interface{}{errors.New("%d " + xmlText(r))}}, msg{"%w (%v)", []interface{}{fmt.Errorf("x: %w", errHandler), 1}})
	}
	// ---- no logger
	out, err := silent(func() {
		for _, m := range wrapped() {
			log.Debug(m.f, m.v...)
			log.Error(m.f, m.v...)
		}
	})
	if err != nil || out != "" {
		t.Fatalf("logging without a logger prints %q (%v)", out, err)
	}
	// ---- one logger at a time
	var d, e sink
	ocpp.SetDebugLogger(&d)
	log.Error("e %d", 1)
	log.Debug("d %d", 1)
	if x := d.take(); len(x) != 1 || x[0] != "d 1" {
		t.Fatalf("the debug logger prints %q after SetDebugLogger", x)
	}
	ocpp.SetErrorLogger(&e)
	var d2, e2 sink
	for n := 0; n < rounds(3); n++ {
		for _, m := range wrapped() {
			want := fmt.Errorf(m.f, m.v...).Error()
			log.Error(m.f, m.v...)
			if x, y := e.take(), d.take(); len(x) != 1 || x[0] != want || len(y) != 0 {
				t.Fatalf("Error(%q, %v) prints %q, debug %q", m.f, m.v, x, y)
			}
		}
		for _, m := range msgs() {
			want := fmt.Sprintf(m.f, m.v...)
			log.Debug(m.f, m.v...)
			if x, y := d.take(), e.take(); len(x) != 1 || x[0] != want || len(y) != 0 {
				t.Fatalf("Debug(%q, %v) prints %q, error %q", m.f, m.v, x, y)
			}
		}
		// the last logger set counts
		ocpp.SetErrorLogger(&e2)
		log.Error("a")
		log.Debug("b")
		if a, b, c := e.take(), e2.take(), d.take(); len(a) != 0 || len(b) != 1 || len(c) != 1 {
			t.Fatalf("after SetErrorLogger: %q %q %q", a, b, c)
		}
		ocpp.SetDebugLogger(&d2)
		log.Error("a")
		log.Debug("b")
		if a, b, c := d.take(), d2.take(), e2.take(); len(a) != 0 || len(b) != 1 || len(c) != 1 {
			t.Fatalf("after SetDebugLogger: %q %q %q", a, b, c)
		}
		ocpp.SetErrorLogger(&e)
		ocpp.SetDebugLogger(&d)
	}
	traffic(t, r, &d, &e)
}

// traffic: peers send percent signs; what is logged shows them as they are
func traffic(t *testing.T, r *rand.Rand, d, e *sink) {
	has := func(ls []string, s string) bool {
		for _, l := range ls {
			if strings.Contains(l, s) {
				return true
			}
		}
		return false
	}
	odd := func(ls []string) string {
		for _, l := range ls {
			if strings.Contains(strings.ReplaceAll(l, "%!q", ""), "%!") {
				return l
			}
		}
		return ""
	}
	_, addr := central(t, func(q cpreq.ChargePointRequest, m cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		if a, ok := q.(*cpreq.Authorize); ok {
			return nil, fmt.Errorf("refused %s", a.IdTag)
		}
		return &cpresp.Heartbeat{CurrentTime: time.Unix(1e9, 0).UTC()}, nil
	})
	for n := 0; n < rounds(3); n++ {
		tag := fmt.Sprintf("%%d%%s%%!q%%w%%%%%d", r.Intn(1000))
		p, err := station(addr, "/a%25d")
		if err != nil {
			t.Fatal(err)
		}
		if _, err := roundTrip(p, "i"+tag, "Authorize", `{"idTag":"`+tag+`"}`); err != nil {
			t.Fatal(err)
		}
		if _, err := roundTrip(p, "j"+tag, tag, `{}`); err != nil {
			t.Fatal(err)
		}
		p.write(`[3,"` + tag + `",{}]`)
		p.write(tag)
		p.write(`[4,"` + tag + `","` + tag + `","` + tag + `",{}]`)
		if _, err := roundTrip(p, "k"+tag, "Heartbeat", `{}`); err != nil {
			t.Fatal(err)
		}
		p.Close()
		ls := append(d.take(), e.take()...)
		if !has(ls, `"i`+tag+`"`) || !has(ls, `"refused `+tag+`"`) {
			t.Fatalf("the messages of the session are not logged as they are: %q", ls)
		}
		if s := odd(ls); s != "" {
			t.Fatalf("logged: %q", s)
		}
		// SOAP, both sides
		for _, x := range xmlElems {
			v, ok := randomMessage(r, x).(messages.Request)
			if !ok {
				continue
			}
			for _, body := range []string{messageXML(r, x, v, ""), tag, envelope("", "<"+"x"+">"+tag+"</x>", "", "")} {
				rec := httptest.NewRecorder()
				q := httptest.NewRequest("POST", "/", strings.NewReader(body))
				if perr := safely(func() {
					soap.Handle(rec, q, func(messages.Request, string) (messages.Response, error) {
						return nil, errors.New("no " + tag)
					})
				}); perr != nil {
					t.Fatal(perr)
				}
				ls := append(d.take(), e.take()...)
				if !has(ls, body) {
					t.Fatalf("the SOAP request %q is not logged as it is: %q", body, ls)
				}
				if s := odd(ls); s != "" {
					t.Fatalf("logged: %q", s)
				}
			}
		}
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { w.Write([]byte(tag)) }))
		x := &cpreq.Authorize{IdTag: tag}
		soap.NewClient(srv.URL).Call("Authorize", x, x.GetResponse(), &soap.CallOptions{ChargeBoxIdentity: tag})
		srv.Close()
		ls = append(d.take(), e.take()...)
		if s := odd(ls); s != "" || !has(ls, tag) {
			t.Fatalf("logged by the SOAP client: %q", ls)
		}
	}
}
