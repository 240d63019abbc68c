package verifreplay

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"testing"

	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/ws"
)

// back: a frame that was written parses to a message written the same way
func back(text string, kind int, id string) error {
	m, err := ws.UnmarshalMessage([]byte(text))
	if err != nil {
		return fmt.Errorf("%s: does not parse: %v", text, err)
	}
	if int(m.Type()) != kind || string(m.ID()) != id {
		return fmt.Errorf("%s: parses to type %v, id %q", text, m.Type(), m.ID())
	}
	if got := msgText(m); !sameJSON(got, text) {
		return fmt.Errorf("%s: parses to a message written as %s", text, got)
	}
	return nil
}

func TestC06(t *testing.T) {
	q := func(s string) string { b, _ := json.Marshal(s); return string(b) }
	payloads := []map[string]interface{}{{}, {"a": 1.0}, {"a": nil, "b": []interface{}{"x", map[string]interface{}{}}}, {"": ""}}
	for _, id := range strs {
		for _, a := range strs {
			for _, p := range payloads {
				pt, _ := json.Marshal(p)
				got := msgText(ws.NewCallMessage(ws.MessageID(id), ws.Action(a), p))
				if want := fmt.Sprintf("[2,%s,%s,%s]", q(id), q(a), pt); !sameJSON(got, want) {
					t.Errorf("CALL %q %q %s is written as %s", id, a, pt, got)
				} else if err := back(got, 2, id); err != nil {
					t.Error(err)
				}
				got = msgText(ws.NewCallResult(ws.MessageID(id), p))
				if want := fmt.Sprintf("[3,%s,%s]", q(id), pt); !sameJSON(got, want) {
					t.Errorf("CALLRESULT %q %s is written as %s", id, pt, got)
				} else if err := back(got, 3, id); err != nil {
					t.Error(err)
				}
			}
			for _, c := range []string{"InternalError", "NotSupported", "", "x"} {
				got := msgText(ws.NewCallErrorMessage(ws.MessageID(id), ws.ErrorCode(c), a))
				if want := fmt.Sprintf("[4,%s,%s,%s,{}]", q(id), q(c), q(a)); !sameJSON(got, want) {
					t.Errorf("CALLERROR %q %q %q is written as %s", id, c, a, got)
				} else if err := back(got, 4, id); err != nil {
					t.Error(err)
				}
			}
		}
	}
	r := rand.New(rand.NewSource(seed()))
	for side, open := range []func(*testing.T) (*ws.Conn, *rawPeer, func()){dialled, accepted} {
		lib, peer, end := open(t)
		go func() {
			for lib.ReadMessage() == nil {
			}
		}()
		for n := 0; n < rounds(4); n++ {
			for _, a := range acts {
				rq := reflect.New(reflect.TypeOf(a.req).Elem())
				random(r, rq.Elem(), 4, 0.3)
				want, werr := json.Marshal(rq.Interface())
				done := make(chan error, 1)
				go func() {
					_, err := lib.SendRequest(rq.Interface().(messages.Request))
					done <- err
				}()
				if werr != nil {
					if s := peer.next(soon / 20); s != "" {
						t.Errorf("a request that cannot be encoded is written as %s", s)
					}
					continue
				}
				s := peer.next(soon)
				f, err := parseFrame(s)
				if err != nil || len(f) != 4 || string(f[0]) != "2" || str(f[1]) == "" || str(f[2]) != a.name || !sameJSON(string(f[3]), string(want)) {
					t.Errorf("request %s %s is written as %s", a.name, want, s)
					break
				}
				if err := back(s, 2, str(f[1])); err != nil {
					t.Error(err)
				}
				peer.write(fmt.Sprintf(`[4,%s,"GenericError","",{}]`, f[1]))
				<-done
				// answers
				rs := reflect.New(reflect.TypeOf(a.resp).Elem())
				random(r, rs.Elem(), 4, 0.3)
				want, werr = json.Marshal(rs.Interface())
				id := strs[r.Intn(len(strs))]
				lib.SendResponse(ws.MessageID(id), rs.Interface().(messages.Response), nil)
				if werr == nil {
					s = peer.next(soon)
					f, err = parseFrame(s)
					if err != nil || len(f) != 3 || string(f[0]) != "3" || str(f[1]) != id || !sameJSON(string(f[2]), string(want)) {
						t.Errorf("answer %q %s is written as %s", id, want, s)
					} else if err := back(s, 3, id); err != nil {
						t.Error(err)
					}
				} else {
					s = peer.next(soon) // the failure to encode it is the answer
					f, err = parseFrame(s)
					if err != nil || len(f) != 5 || string(f[0]) != "4" || str(f[1]) != id {
						t.Errorf("an answer that cannot be encoded is written as %s", s)
					}
				}
				text := strs[r.Intn(len(strs))]
				if r.Intn(4) == 0 {
					text = strings.Repeat("long \u00e9 text ", 10*(1+r.Intn(40)))
				}
				var with messages.Response
				if r.Intn(2) == 0 {
					with = rs.Interface().(messages.Response)
				}
				lib.SendResponse(ws.MessageID(id), with, errors.New(text))
				s = peer.next(soon)
				if !sameJSON(s, fmt.Sprintf(`[4,%s,"InternalError",%s,{}]`, q(id), q(text))) {
					t.Errorf("error answer %q %q is written as %s (side %d)", id, text, s, side)
				} else if err := back(s, 4, id); err != nil {
					t.Error(err)
				}
				if t.Failed() && n > 0 {
					break
				}
			}
		}
		end()
	}
}
