package verifreplay

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
)

// what the handlers were called with, and what they are to return
type desk struct {
	mu    sync.Mutex
	calls []interface{}
	meta  []cs.ChargePointRequestMetadata
	resp  map[string]interface{} // by point
	err   map[string]error
	delay time.Duration
}

func (d *desk) take() ([]interface{}, []cs.ChargePointRequestMetadata) {
	d.mu.Lock()
	defer d.mu.Unlock()
	c, m := d.calls, d.meta
	d.calls, d.meta = nil, nil
	return c, m
}

func (d *desk) set(who string, resp interface{}, err error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.resp == nil {
		d.resp, d.err = map[string]interface{}{}, map[string]error{}
	}
	d.resp[who], d.err[who] = resp, err
}

func (d *desk) cp(q cpreq.ChargePointRequest, m cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
	d.mu.Lock()
	d.calls, d.meta = append(d.calls, q), append(d.meta, m)
	resp, err, delay := d.resp[m.ChargePointID], d.err[m.ChargePointID], d.delay
	d.mu.Unlock()
	time.Sleep(delay)
	if resp == nil {
		return nil, err
	}
	return resp.(cpresp.ChargePointResponse), err
}

func (d *desk) csAs(who string) csHandler {
	return func(q csreq.CentralSystemRequest) (csresp.CentralSystemResponse, error) {
		d.mu.Lock()
		d.calls, d.meta = append(d.calls, q), append(d.meta, cs.ChargePointRequestMetadata{ChargePointID: who})
		resp, err, delay := d.resp[who], d.err[who], d.delay
		d.mu.Unlock()
		time.Sleep(delay)
		if resp == nil {
			return nil, err
		}
		return resp.(csresp.CentralSystemResponse), err
	}
}

// exchange one request of action a over p; mine: the peer may send it
func (d *desk) exchange(t *testing.T, r *rand.Rand, p *rawPeer, who string, a act, mine bool, id string, n int) {
	q := codecOf(reflect.TypeOf(a.req).Elem())
	if q == nil {
		return
	}
	payload := q.valid(r, r.Intn(2) == 0).text()
	want := reflect.New(reflect.TypeOf(a.req).Elem())
	if json.Unmarshal([]byte(payload), want.Interface()) != nil {
		return
	}
	resp := reflect.New(reflect.TypeOf(a.resp).Elem())
	random(r, resp.Elem(), 4, 0.3)
	var rv interface{} = resp.Interface()
	var rerr error
	switch n % 6 {
	case 2:
		rv, rerr = nil, errHandler
	case 3:
		rerr = errHandler
	case 4: // another response type of the same direction
		for _, b := range acts {
			if b.cp == a.cp && reflect.TypeOf(b.resp) != reflect.TypeOf(a.resp) {
				o := reflect.New(reflect.TypeOf(b.resp).Elem())
				random(r, o.Elem(), 4, 0.3)
				rv = o.Interface()
			}
		}
	}
	d.set(who, rv, rerr)
	d.take()
	got, err := roundTrip(p, id, a.name, payload)
	calls, meta := d.take()
	if err != nil {
		t.Errorf("%s (%s): %v", who, a.name, err)
		return
	}
	f, _ := parseFrame(got)
	if !mine {
		if len(calls) != 0 {
			t.Errorf("%s: a request of the wrong direction (%s) reaches the handler", who, a.name)
		}
		if string(f[0]) != "4" {
			t.Errorf("%s: a request of the wrong direction (%s) is answered with %s", who, a.name, got)
		}
		return
	}
	if len(calls) != 1 {
		t.Errorf("%s: the handler is called %d times for one %s", who, len(calls), a.name)
		return
	}
	if !reflect.DeepEqual(calls[0], want.Interface()) {
		t.Errorf("%s: the handler gets %#v for %s %s", who, calls[0], a.name, payload)
	}
	if meta[0].ChargePointID != who {
		t.Errorf("a request of %s is handled as one of %q", who, meta[0].ChargePointID)
	}
	if a.cp {
		if h := meta[0].HTTPRequest; h == nil || h.URL.Path != "/"+who || h.Header.Get("Upgrade") == "" {
			t.Errorf("%s: the handler does not get the HTTP request of the session", who)
		}
	}
	switch {
	case rerr != nil:
		e, _ := json.Marshal(errHandler.Error())
		if len(f) != 5 || string(f[0]) != "4" || !sameJSON(string(f[3]), string(e)) {
			t.Errorf("%s: the handler's error for %s is answered with %s", who, a.name, got)
		}
	default:
		text, err := json.Marshal(rv)
		if err != nil {
			if string(f[0]) != "4" {
				t.Errorf("%s: a response that cannot be encoded is answered with %s", who, got)
			}
		} else if len(f) != 3 || string(f[0]) != "3" || !sameJSON(string(f[2]), string(text)) {
			t.Errorf("%s: the handler's response %s to %s is answered with %s", who, text, a.name, got)
		}
	}
}

func TestC09(t *testing.T) {
	r := rand.New(rand.NewSource(seed()))
	d := &desk{}
	_, addr := central(t, d.cp)
	for i, who := range []string{"cp1", "a/b", "CP 2", "é", "cs/", "x.y-z"} {
		path := "/" + strings.ReplaceAll(who, " ", "%20")
		p, err := station(addr, path)
		if err != nil {
			t.Fatalf("%s cannot connect: %v", who, err)
		}
		for n := 0; n < rounds(4); n++ {
			for j, a := range acts {
				if a.name == "DataTransfer" && !t.Failed() {
					continue // refused as an unknown action, see C07
				}
				d.exchange(t, r, p, who, a, a.cp, fmt.Sprint("m", i, "-", n, "-", j/2), n+j)
			}
			if t.Failed() {
				break
			}
		}
		if s := p.next(100 * time.Millisecond); s != "" {
			t.Errorf("%s: one more frame is written: %s", who, s)
		}
		p.Close()
		if t.Failed() {
			break
		}
	}
	rc := newRawCentral()
	for i, who := range []string{"cp1", "é", "x.y-z"} {
		ctx, cancel := context.WithCancel(context.Background())
		if _, err := pointAt(ctx, who, rc.ws(), d.csAs(who)); err != nil {
			t.Fatalf("no charge point: %v", err)
		}
		p := rc.peer(soon)
		if p == nil {
			t.Fatal("the charge point does not connect")
		}
		for n := 0; n < rounds(6); n++ {
			for j, a := range acts {
				if a.name == "DataTransfer" {
					continue
				}
				d.exchange(t, r, p, who, a, !a.cp, fmt.Sprint("m", i, "-", n, "-", j/2), n+j)
			}
			if t.Failed() {
				break
			}
		}
		if s := p.next(100 * time.Millisecond); s != "" {
			t.Errorf("%s: one more frame is written: %s", who, s)
		}
		cancel()
		p.Close()
	}
	if t.Failed() {
		return
	}
	// several sessions at once, requests in a row: every one handled and
	// answered once, as its own session's
	d.take()
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		who := fmt.Sprint("many", i)
		d.set(who, &cpresp.StatusNotification{}, nil)
		p, err := station(addr, "/"+who)
		if err != nil {
			t.Fatal(err)
		}
		defer p.Close()
		wg.Add(1)
		go func() {
			defer wg.Done()
			const total = 60
			go func() {
				for n := 0; n < total; n++ {
					p.write(fmt.Sprintf(`[2,"%s/%d","StatusNotification",{"connectorId":%d,"errorCode":"%s","status":"Available"}]`, who, n, n, who))
				}
			}()
			seen := map[string]bool{}
			for n := 0; n < total; n++ {
				s := p.next(soon)
				f, err := parseFrame(s)
				if err != nil || len(f) != 3 || seen[str(f[1])] || !strings.HasPrefix(str(f[1]), who+"/") {
					t.Errorf("%s: answer %d of %d is %q", who, n, total, s)
					return
				}
				seen[str(f[1])] = true
			}
			if s := p.next(100 * time.Millisecond); s != "" {
				t.Errorf("%s: one more frame is written: %s", who, s)
			}
		}()
	}
	wg.Wait()
	calls, meta := d.take()
	count := map[string]int{}
	for i, c := range calls {
		q, ok := c.(*cpreq.StatusNotification)
		if !ok || string(q.ErrorCode) != meta[i].ChargePointID {
			t.Errorf("a request of %v is handled as one of %s", c, meta[i].ChargePointID)
			continue
		}
		count[fmt.Sprint(meta[i].ChargePointID, "/", q.ConnectorId)]++
	}
	for i := 0; i < 4; i++ {
		for n := 0; n < 60; n++ {
			if k := fmt.Sprintf("many%d/%d", i, n); count[k] != 1 {
				t.Errorf("request %s is handled %d times", k, count[k])
			}
		}
	}
}
