package verifreplay

import (
	"errors"
	"fmt"
	"math/rand"
	"net/http"
	"sync"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/cs"
	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
)

// serve: a command sent to id by the central system reaches one of its open
// sessions, and the answer comes back
func serve(sys cs.CentralSystem, id string, open []*rawPeer) error {
	svc, err := sys.GetServiceOf(id, ocpp.V16, "")
	if err != nil {
		return fmt.Errorf("%s: no service with %d open sessions: %v", id, len(open), err)
	}
	done := make(chan error, 1)
	go func() {
		resp, err := svc.Send(&csreq.ClearCache{})
		if err == nil && isNil(resp) {
			err = errors.New("no response")
		}
		done <- err
	}()
	end := time.After(soon)
	for {
		for _, p := range open {
			select {
			case s, ok := <-p.in:
				if f, err := parseFrame(s); ok && err == nil && len(f) == 4 {
					p.write(fmt.Sprintf(`[3,%s,{"status":"Accepted"}]`, f[1]))
				}
			default:
			}
		}
		select {
		case err := <-done:
			return err
		case <-end:
			return fmt.Errorf("%s: a command reaches none of the %d open sessions", id, len(open))
		case <-time.After(2 * time.Millisecond):
		}
	}
}

func TestC10(t *testing.T) {
	defer catchPanics(t)()
	r := rand.New(rand.NewSource(seed()))
	sys, addr := central(t, func(cpreq.ChargePointRequest, cs.ChargePointRequestMetadata) (cpresp.ChargePointResponse, error) {
		return &cpresp.Heartbeat{}, nil
	})
	var mu sync.Mutex
	ups, downs := map[string]int{}, map[string]int{}
	sys.SetChargePointConnectionListener(func(id string) { mu.Lock(); ups[id]++; mu.Unlock() })
	sys.SetChargePointDisconnectionListener(func(id string) { mu.Lock(); downs[id]++; mu.Unlock() })
	open := map[string][]*rawPeer{}
	wantUp, wantDown := map[string]int{}, map[string]int{}
	early := map[string]<-chan struct{}{} // wait channels taken while disconnected
	lost := map[string]<-chan struct{}{}  // wait channels taken while connected
	ids := []string{"a", "b", "a/b", "é", "ab", "never"}
	has := func(id string) bool {
		_, err := sys.GetServiceOf(id, ocpp.V16, "")
		return err == nil
	}
	state := func(id string) string {
		return fmt.Sprintf("service %v, connect channel closed %v, disconnect channel closed %v", has(id), closed(sys.WaitConnect(id)), closed(sys.WaitDisconnect(id)))
	}
	check := func(after string) bool {
		for _, id := range ids {
			on := len(open[id]) > 0
			if !soonTrue(func() bool {
				mu.Lock()
				defer mu.Unlock()
				return ups[id] == wantUp[id] && downs[id] == wantDown[id]
			}) {
				t.Errorf("after %s: %s: the listeners are told of %d connections and %d disconnections, not of %d and %d", after, id, ups[id], downs[id], wantUp[id], wantDown[id])
			}
			if !soonTrue(func() bool {
				return has(id) == on && closed(sys.WaitConnect(id)) == on && (on || closed(sys.WaitDisconnect(id)))
			}) {
				t.Errorf("after %s: %s has %d open sessions, but: %s", after, id, len(open[id]), state(id))
			}
			if e := early[id]; e != nil && on && !soonTrue(func() bool { return closed(e) }) {
				t.Errorf("after %s: who waited for %s to connect is not told", after, id)
			}
			if e := early[id]; e != nil && !on && closed(e) {
				t.Errorf("after %s: who waits for %s to connect is told, but it is not connected", after, id)
			}
			if l := lost[id]; l != nil && !on && !soonTrue(func() bool { return closed(l) }) {
				t.Errorf("after %s: who waited for %s to disconnect is not told", after, id)
			}
			if on && len(open[id]) == 1 && closed(sys.WaitDisconnect(id)) && wantUp[id]-wantDown[id] == wantUp[id] {
				t.Errorf("after %s: %s is connected, but its disconnect channel is closed", after, id)
			}
			if on {
				early[id] = nil
			} else {
				lost[id] = nil
				if early[id] == nil && r.Intn(2) == 0 {
					early[id] = sys.WaitConnect(id)
				}
			}
		}
		return !t.Failed()
	}
	steps := rounds(60)
	for n := 0; n < steps && check("the start"); n++ {
		id := ids[r.Intn(len(ids)-1)]
		what := ""
		switch k := r.Intn(10); {
		case k < 4 || len(open[id]) == 0:
			p, err := station(addr, "/"+id)
			if err != nil {
				t.Fatalf("%s cannot connect: %v", id, err)
			}
			open[id] = append(open[id], p)
			wantUp[id]++
			what = "connecting " + id
		case k < 8: // the oldest session ends
			p := open[id][0]
			if lost[id] == nil && len(open[id]) == 1 {
				lost[id] = sys.WaitDisconnect(id)
			}
			open[id] = open[id][1:]
			wantDown[id]++
			switch r.Intn(3) {
			case 0:
				p.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(1000, ""), time.Now().Add(time.Second))
				what = "a normal close of " + id
				p.Close()
			case 1:
				p.UnderlyingConn().Close()
				what = "a lost connection of " + id
			case 2:
				p.write("not a frame")
				p.Close()
				what = "a bad frame and a close of " + id
			}
		case k == 8: // a request that only looks like a handshake
			q, _ := http.NewRequest("GET", "http://"+addr+"/never", nil)
			q.Header.Set("Connection", "Upgrade")
			q.Header.Set("Upgrade", "websocket")
			if resp, err := http.DefaultClient.Do(q); err == nil {
				resp.Body.Close()
			}
			what = "a failed handshake"
		default:
			if len(open[id]) == 1 {
				p := open[id][0]
				p.write("junk")
				if s, err := roundTrip(p, fmt.Sprint(n), "Heartbeat", "{}"); err != nil || s[1] != '3' {
					t.Errorf("%s: %s %v", id, s, err)
				}
				what = "a request of " + id
			}
		}
		if !check(what) {
			break
		}
		if len(open[id]) > 0 {
			if err := serve(sys, id, open[id]); err != nil {
				t.Errorf("after %s: %v", what, err)
			}
		}
	}
	// who waits for one is not disturbed by the sessions of others
	for id := range open {
		for _, p := range open[id] {
			p.Close()
		}
		open[id] = nil
		if !soonTrue(func() bool { return !has(id) }) {
			t.Errorf("all sessions of %s ended, but: %s", id, state(id))
		}
	}
	wait := sys.WaitConnect("waited")
	for n := 0; n < 3; n++ {
		p, err := station(addr, fmt.Sprint("/other", n%2))
		if err != nil {
			t.Fatal(err)
		}
		soonTrue(func() bool { return has(fmt.Sprint("other", n%2)) })
		p.Close()
		soonTrue(func() bool { return !has(fmt.Sprint("other", n%2)) })
		if closed(wait) || closed(sys.WaitConnect("waited")) {
			t.Error("a wait channel is closed by the session of another charge point")
		}
	}
	w, err := station(addr, "/waited")
	if err != nil {
		t.Fatal(err)
	}
	if !soonTrue(func() bool { return closed(wait) }) {
		t.Error("a charge point connects, but who waited for it is not told")
	}
	w.Close()
	// many sessions of one charge point
	var many []*rawPeer
	for n := 0; n < 5; n++ {
		p, err := station(addr, "/many")
		if err != nil {
			t.Fatal(err)
		}
		many = append(many, p)
		soonTrue(func() bool { mu.Lock(); defer mu.Unlock(); return ups["many"] == n+1 })
	}
	for n, p := range many {
		if !has("many") || !closed(sys.WaitConnect("many")) {
			t.Errorf("%d of 5 sessions are open, but: %s", 5-n, state("many"))
		}
		p.Close()
		soonTrue(func() bool { mu.Lock(); defer mu.Unlock(); return downs["many"] == n+1 })
		time.Sleep(20 * time.Millisecond)
	}
	if !soonTrue(func() bool {
		return !has("many") && !closed(sys.WaitConnect("many")) && closed(sys.WaitDisconnect("many"))
	}) {
		t.Errorf("all sessions ended, but: %s", state("many"))
	}
	// whichever of two sessions ends first, the service stays
	for n, id := range []string{"x0", "x1"} {
		p, err := station(addr, "/"+id)
		if err != nil {
			t.Fatal(err)
		}
		soonTrue(func() bool { return has(id) })
		q, err := station(addr, "/"+id)
		if err != nil {
			t.Fatal(err)
		}
		if !soonTrue(func() bool { mu.Lock(); defer mu.Unlock(); return ups[id] == 2 }) {
			t.Errorf("%s: two sessions, %d reported", id, ups[id])
		}
		if n == 0 {
			p, q = q, p
		}
		p.Close()
		soonTrue(func() bool { mu.Lock(); defer mu.Unlock(); return downs[id] == 1 })
		time.Sleep(50 * time.Millisecond)
		if !has(id) || !closed(sys.WaitConnect(id)) {
			t.Errorf("%s: one of two sessions ended: %s", id, state(id))
		}
		q.Close()
		if !soonTrue(func() bool { return !has(id) && !closed(sys.WaitConnect(id)) && closed(sys.WaitDisconnect(id)) }) {
			t.Errorf("%s: both sessions ended: %s", id, state(id))
		}
	}
}
