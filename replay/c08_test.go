package verifreplay

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/internal"
	"github.com/voltbras/go-ocpp/messages"
	"github.com/voltbras/go-ocpp/ws"
)

type sent struct {
	resp messages.Response
	err  error
}

func sendAsync(lib *ws.Conn, q messages.Request) chan sent {
	c := make(chan sent, 1)
	go func() {
		r, err := lib.SendRequest(q)
		c <- sent{r, err}
	}()
	return c
}

func await(c chan sent) (sent, bool) {
	select {
	case s := <-c:
		return s, true
	case <-time.After(soon):
		return sent{}, false
	}
}

// readOne lets the library read the one message that is on its way
func readOne(lib *ws.Conn) (err error, ok bool) {
	ok = within(soon, func() { err = lib.ReadMessage() })
	return
}

func TestC08(t *testing.T) {
	// a call that is never answered times out and leaves nothing behind
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		lib, peer, end := dialled(t)
		defer end()
		c := sendAsync(lib, acts[4].req)
		f, err := parseFrame(peer.next(soon))
		if err != nil || len(f) != 4 {
			t.Errorf("no request is written: %v", err)
			return
		}
		select {
		case s := <-c:
			if s.err == nil || s.resp != nil {
				t.Errorf("a call without a reply gives %v, %v", s.resp, s.err)
			}
		case <-time.After(internal.DefaultRequestTimeout + 5*time.Second):
			t.Errorf("a call without a reply does not return")
			return
		}
		peer.write(fmt.Sprintf(`[3,%s,{"currentTime":"2020-01-01T00:00:00Z"}]`, f[1]))
		if err, ok := readOne(lib); !ok || err == nil {
			t.Errorf("a reply after the timeout: error %v, reader blocked %v", err, !ok)
		}
	}()
	r := rand.New(rand.NewSource(seed()))
	for _, open := range []func(*testing.T) (*ws.Conn, *rawPeer, func()){dialled, accepted} {
		lib, peer, end := open(t)
		ids := map[string]bool{}
		frame := func() (string, string, bool) {
			f, err := parseFrame(peer.next(soon))
			if err != nil || len(f) != 4 {
				t.Errorf("no request is written: %v", err)
				return "", "", false
			}
			id := string(f[1])
			if ids[id] {
				t.Errorf("message id %s is used again", id)
			}
			ids[id] = true
			return id, str(f[2]), true
		}
		for _, a := range acts {
			for n := 0; n < rounds(3); n++ {
				q := reflect.New(reflect.TypeOf(a.req).Elem())
				c := codecOf(reflect.TypeOf(a.resp).Elem())
				if c == nil {
					continue
				}
				for {
					random(r, q.Elem(), 4, 0.3)
					if _, err := json.Marshal(q.Interface()); err == nil {
						break
					}
				}
				payload := c.valid(r, n%2 == 0).text()
				if n%3 == 2 {
					payload = `{"unknownProperty":[1]}`
				}
				want := reflect.New(reflect.TypeOf(a.resp).Elem())
				bad := json.Unmarshal([]byte(payload), want.Interface()) != nil
				out := sendAsync(lib, q.Interface().(messages.Request))
				id, _, ok := frame()
				if !ok {
					break
				}
				// replies to others first: reported, delivered to nobody
				for _, other := range []string{`"x"`, `""`, strings.ToUpper(id), id[:len(id)-1] + ` "`} {
					if other == id {
						continue
					}
					peer.write(fmt.Sprintf("[3,%s,%s]", other, payload))
					if err, ok := readOne(lib); !ok || err == nil {
						t.Errorf("a reply to nobody: error %v, blocked %v", err, !ok)
					}
				}
				peer.write(fmt.Sprintf("[3,%s,%s]", id, payload))
				if err, ok := readOne(lib); !ok || err != nil {
					t.Errorf("%T: the reply %s is not delivered: %v, blocked %v", a.resp, payload, err, !ok)
					continue
				}
				s, ok := await(out)
				if !ok {
					t.Errorf("%T: the reply %s does not reach the call", a.resp, payload)
					continue
				}
				if (s.err == nil) == (s.resp == nil || isNil(s.resp)) {
					t.Errorf("%T: the reply %s gives %v and %v", a.resp, payload, s.resp, s.err)
				} else if bad != (s.err != nil) {
					t.Errorf("%T: the reply %s gives %v, %v", a.resp, payload, s.resp, s.err)
				} else if !bad && (reflect.TypeOf(s.resp) != want.Type() || !reflect.DeepEqual(s.resp, want.Interface())) {
					t.Errorf("%T: the reply %s gives %#v instead of %#v", a.resp, payload, s.resp, want.Interface())
				}
				// the same reply again has nobody to go to, and never blocks
				for k := 0; k < 2; k++ {
					peer.write(fmt.Sprintf([]string{"[3,%s,%s]", `[4,%s,"a","b",%s]`}[k], id, payload))
					if err, ok := readOne(lib); !ok || err == nil {
						t.Errorf("a second reply: error %v, blocked %v", err, !ok)
					}
				}
			}
			// errors
			if _, err := json.Marshal(a.req); err != nil {
				continue // nothing to send
			}
			for _, text := range strs {
				out := sendAsync(lib, a.req)
				id, _, ok := frame()
				if !ok {
					break
				}
				code := []string{"GenericError", "NotSupported", "SecurityError", "x", ""}[r.Intn(5)]
				b, _ := json.Marshal(text)
				peer.write(fmt.Sprintf(`[4,%s,"%s",%s,{}]`, id, code, b))
				if err, ok := readOne(lib); !ok || err != nil {
					t.Errorf("an error reply is not delivered: %v, blocked %v", err, !ok)
					continue
				}
				s, ok := await(out)
				var ce *ws.CallErrorMessage
				if !ok || s.err == nil || s.resp != nil || !errors.As(s.err, &ce) {
					t.Errorf("the error %q %q gives %v, %v (returned %v)", code, text, s.resp, s.err, ok)
				} else if got := msgText(ce); !sameJSON(got, fmt.Sprintf(`[4,%s,"%s",%s,{}]`, id, code, b)) {
					t.Errorf("the error %q %q gives %s", code, text, got)
				}
			}
		}
		// the reply is there before the writer of the call goes on
		if !t.Failed() {
			quickReply(t, lib, peer)
		}
		// many calls at once, answered in another order
		type pending struct {
			out chan sent
			n   int
		}
		for round := 0; round < rounds(3) && !t.Failed(); round++ {
			var outs []chan sent
			byAction := map[string]string{}
			var order []string
			for _, a := range acts[:9] {
				outs = append(outs, sendAsync(lib, a.req))
			}
			for range outs {
				id, a, ok := frame()
				if !ok {
					break
				}
				byAction[a] = id
				order = append(order, a)
			}
			r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
			for _, a := range order {
				peer.write(fmt.Sprintf(`[4,%s,"x","%s",{}]`, byAction[a], a))
				if err, ok := readOne(lib); !ok || err != nil {
					t.Errorf("an error reply is not delivered: %v, blocked %v", err, !ok)
				}
			}
			for i, o := range outs {
				s, ok := await(o)
				if !ok || s.err == nil || !strings.Contains(s.err.Error(), acts[i].name) {
					t.Errorf("the call of %s gets %v, %v (returned %v)", acts[i].name, s.resp, s.err, ok)
				}
			}
		}
		// a call that cannot be written
		lib.Conn.Close()
		s, ok := await(sendAsync(lib, acts[4].req))
		if !ok || s.err == nil || s.resp != nil {
			t.Errorf("a call on a closed connection gives %v, %v (returned %v)", s.resp, s.err, ok)
		}
		end()
	}
	wg.Wait()
}

// slowLog delays what is logged after the peer has seen the frame
type slowLog struct {
	seen chan struct{}
	once sync.Once
}

func (l *slowLog) Write(b []byte) (int, error) {
	select {
	case <-l.seen:
		l.once.Do(func() {
			ocpp.SetDebugLogger(log.New(io.Discard, "", 0))
			time.Sleep(time.Second)
		})
	case <-time.After(200 * time.Millisecond):
	}
	return len(b), nil
}

func quickReply(t *testing.T, lib *ws.Conn, peer *rawPeer) {
	l := &slowLog{seen: make(chan struct{})}
	ocpp.SetDebugLogger(log.New(l, "", 0))
	defer ocpp.SetDebugLogger(log.New(io.Discard, "", 0))
	out := sendAsync(lib, acts[4].req)
	f, err := parseFrame(peer.next(soon))
	if err != nil || len(f) != 4 {
		t.Errorf("no request is written: %v", err)
		return
	}
	close(l.seen)
	time.Sleep(100 * time.Millisecond)
	peer.write(fmt.Sprintf(`[3,%s,{"currentTime":"2020-01-01T00:00:00Z"}]`, f[1]))
	if err, ok := readOne(lib); !ok || err != nil {
		t.Errorf("a quick reply is not delivered: %v, blocked %v", err, !ok)
		return
	}
	if s, ok := await(out); !ok || s.err != nil {
		t.Errorf("a quick reply gives %v, %v (returned %v)", s.resp, s.err, ok)
	}
}
