package verifreplay

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/voltbras/go-ocpp/messages/req"
	"github.com/voltbras/go-ocpp/ws"
)

type outcome struct {
	err      error
	blocked  bool
	surfaced []interface{}
	ids      []string
	wrote    []string
}

var marks int

// feed gives one message to the library and collects all that comes of it
func feed(lib *ws.Conn, peer *rawPeer, text string) (o outcome, ok bool) {
	if peer.write(text) != nil {
		return o, false
	}
	done := make(chan error, 1)
	stop := make(chan struct{})
	seen := make(chan struct{})
	go func() {
		defer close(seen)
		for {
			select {
			case q := <-lib.Requests():
				o.surfaced = append(o.surfaced, q.Request)
				o.ids = append(o.ids, string(q.MessageID))
			case <-stop:
				// whatever is offered right now still counts
				select {
				case q := <-lib.Requests():
					o.surfaced = append(o.surfaced, q.Request)
					o.ids = append(o.ids, string(q.MessageID))
				default:
				}
				return
			}
		}
	}()
	go func() { done <- lib.ReadMessage() }()
	select {
	case o.err = <-done:
	case <-time.After(soon):
		o.blocked = true
	}
	close(stop)
	<-seen
	// everything written before this mark belongs to the message
	marks++
	mark := fmt.Sprintf("verif mark %d", marks)
	lib.SendResponse(ws.MessageID(mark), nil, fmt.Errorf("mark"))
	for {
		s := peer.next(soon)
		if s == "" {
			return o, false
		}
		if f, err := parseFrame(s); err == nil && len(f) > 1 && str(f[1]) == mark {
			return o, true
		}
		o.wrote = append(o.wrote, s)
	}
}

func judgeCall(o outcome, id, action, payload string) error {
	want := req.FromActionName(action)
	if o.blocked {
		return fmt.Errorf("the reader does not come back")
	}
	if want == nil || json.Unmarshal([]byte(payload), want) != nil {
		code := "FormationViolation"
		if want == nil {
			code = "NotSupported"
		}
		if len(o.surfaced) != 0 || len(o.wrote) != 1 {
			return fmt.Errorf("surfaced %v, wrote %v instead of one %s", o.surfaced, o.wrote, code)
		}
		f, err := parseFrame(o.wrote[0])
		if err != nil || len(f) != 5 || string(f[0]) != "4" || str(f[1]) != id || str(f[2]) != code {
			return fmt.Errorf("wrote %s instead of one %s under %q", o.wrote[0], code, id)
		}
		if _, err := ws.UnmarshalMessage([]byte(o.wrote[0])); err != nil {
			return fmt.Errorf("wrote %s: %v", o.wrote[0], err)
		}
		return nil
	}
	if len(o.surfaced) != 1 || len(o.wrote) != 0 || o.err != nil {
		return fmt.Errorf("surfaced %v, wrote %v, error %v instead of one request", o.surfaced, o.wrote, o.err)
	}
	if o.ids[0] != id {
		return fmt.Errorf("surfaced under %q", o.ids[0])
	}
	if reflect.TypeOf(o.surfaced[0]) != reflect.TypeOf(want) || !reflect.DeepEqual(o.surfaced[0], want) {
		return fmt.Errorf("surfaced %#v instead of %#v", o.surfaced[0], want)
	}
	return nil
}

func TestC07(t *testing.T) {
	r := rand.New(rand.NewSource(seed()))
	for _, open := range []func(*testing.T) (*ws.Conn, *rawPeer, func()){dialled, accepted} {
		lib, peer, end := open(t)
		ok := true
		n := 0
		call := func(id, action, payload string) {
			if !ok {
				return
			}
			i, _ := json.Marshal(id)
			a, _ := json.Marshal(action)
			var o outcome
			text := fmt.Sprintf("[2,%s,%s,%s]", i, a, payload)
			if o, ok = feed(lib, peer, text); !ok {
				t.Errorf("%s: the connection broke: %v", text, o.err)
				return
			}
			if err := judgeCall(o, id, action, payload); err != nil {
				t.Errorf("%s: %v", text, err)
				ok = !o.blocked
			}
		}
		ids := append([]string{"1", "1", "2fb1a9b6-3c0b-4bb3-8c5a-0f1f5d5b5a5e", strings.Repeat("x", 100)}, strs...)
		for round := 0; round < rounds(2); round++ {
			for _, a := range acts {
				c := codecOf(reflect.TypeOf(a.req).Elem())
				id := ids[n%len(ids)]
				n++
				call(id, a.name, "{}")
				call(id, a.name, `{"unknownProperty":1}`)
				if c != nil {
					in := c.valid(r, round%2 == 0)
					call(id, a.name, in.text())
					for k := range in.vals {
						for _, v := range []string{"true", `[1]`, `{"a":{}}`, "null", "1.5", `""`} {
							call(ids[(n+1)%len(ids)], a.name, in.with(k, v).text())
						}
					}
				}
			}
			for _, x := range []string{"", "heartbeat", "Foo", "DataTransfer", "HeartbeatRequest", "Heartbeat ", "%s", "é"} {
				call(ids[n%len(ids)], x, "{}")
				n++
			}
		}
		for _, s := range badFrames() {
			if !ok {
				break
			}
			if len(s) > 3 && (s[1] == '2' || s[1] == '4') && r.Intn(6) > 0 {
				continue
			}
			var o outcome
			if o, ok = feed(lib, peer, s); !ok {
				t.Errorf("%.60q: the connection broke: %v", s, o.err)
				break
			}
			if o.blocked || o.err == nil || len(o.surfaced) != 0 || len(o.wrote) != 0 {
				t.Errorf("%.60q: blocked %v, error %v, surfaced %v, wrote %v", s, o.blocked, o.err, o.surfaced, o.wrote)
				ok = !o.blocked
			}
		}
		for _, s := range []string{`[3,"nobody",{}]`, `[4,"nobody","GenericError","",{}]`, `[3,"",{}]`} {
			if !ok {
				break
			}
			var o outcome
			if o, ok = feed(lib, peer, s); ok && (o.blocked || len(o.surfaced) != 0 || len(o.wrote) != 0) {
				t.Errorf("%s: blocked %v, surfaced %v, wrote %v", s, o.blocked, o.surfaced, o.wrote)
				ok = !o.blocked
			}
		}
		// the application is busy for a while
		if ok && peer.write(`[2,"busy","Heartbeat",{}]`) == nil {
			done := make(chan error, 1)
			go func() { done <- lib.ReadMessage() }()
			time.Sleep(2 * time.Second)
			select {
			case q := <-lib.Requests():
				if q.MessageID != "busy" {
					t.Errorf("surfaced %v", q)
				}
			case <-time.After(soon):
				t.Errorf("a request is dropped while the application is busy")
			}
			select {
			case <-done:
			case <-time.After(soon):
				t.Errorf("the reader does not come back")
			}
		}
		// the transport fails
		if ok {
			peer.Conn.Close()
			var err error
			if !within(soon, func() { err = lib.ReadMessage() }) || err == nil {
				t.Errorf("a lost connection is not reported: %v", err)
			}
			select {
			case <-lib.WaitClose():
			case <-time.After(soon):
				t.Errorf("a lost connection is not closed")
			}
		}
		end()
	}
}
