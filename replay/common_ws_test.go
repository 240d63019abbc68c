package verifreplay

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/voltbras/go-ocpp"
	"github.com/voltbras/go-ocpp/ws"
)

const soon = 3 * time.Second

// rawPeer is the other end of a library connection, without the library
type rawPeer struct {
	*websocket.Conn
	mu  sync.Mutex
	in  chan string // frames the library wrote; closed when reading fails
	url string
}

func newRawPeer(c *websocket.Conn) *rawPeer {
	p := &rawPeer{Conn: c, in: make(chan string, 1000)}
	go func() {
		defer close(p.in)
		for {
			_, b, err := c.ReadMessage()
			if err != nil {
				return
			}
			p.in <- string(b)
		}
	}()
	return p
}

func (p *rawPeer) write(s string) error {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.WriteMessage(websocket.TextMessage, []byte(s))
}

// next frame written by the library, "" if none came
func (p *rawPeer) next(d time.Duration) string {
	select {
	case s := <-p.in:
		return s
	case <-time.After(d):
		return ""
	}
}

// dialled: a library connection made by ws.Dial and the raw other end
func dialled(t *testing.T) (*ws.Conn, *rawPeer, func()) {
	ch := make(chan *websocket.Conn, 1)
	up := websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }, Subprotocols: []string{"ocpp1.6", "ocpp1.5"}}
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		c, err := up.Upgrade(w, r, nil)
		if err != nil {
			close(ch)
			return
		}
		ch <- c
	}))
	lib, err := ws.Dial("cp1", "ws"+strings.TrimPrefix(srv.URL, "http"), ocpp.V16)
	if err != nil {
		t.Fatalf("dial: %v", err)
	}
	p := newRawPeer(<-ch)
	return lib, p, func() { p.Conn.Close(); lib.Close(); srv.Close() }
}

// accepted: a library connection made by ws.Handshake and the raw other end
func accepted(t *testing.T) (*ws.Conn, *rawPeer, func()) {
	ch := make(chan *ws.Conn, 1)
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		c, err := ws.Handshake(w, r, []ocpp.Version{ocpp.V16})
		if err != nil {
			close(ch)
			return
		}
		ch <- c
	}))
	d := websocket.Dialer{Subprotocols: []string{"ocpp1.6"}}
	c, _, err := d.Dial("ws"+strings.TrimPrefix(srv.URL, "http")+"/cp1", nil)
	if err != nil {
		t.Fatalf("dial: %v", err)
	}
	p := newRawPeer(c)
	lib := <-ch
	return lib, p, func() { p.Conn.Close(); lib.Close(); srv.Close() }
}

func parseFrame(s string) ([]json.RawMessage, error) {
	var f []json.RawMessage
	if err := json.Unmarshal([]byte(s), &f); err != nil {
		return nil, fmt.Errorf("%q is not a JSON array: %v", s, err)
	}
	return f, nil
}

func str(r json.RawMessage) string {
	var s string
	json.Unmarshal(r, &s)
	return s
}

func sameJSON(a, b string) bool {
	var x, y interface{}
	if json.Unmarshal([]byte(a), &x) != nil || json.Unmarshal([]byte(b), &y) != nil {
		return false
	}
	p, _ := json.Marshal(x)
	q, _ := json.Marshal(y)
	return string(p) == string(q)
}

// within runs f and reports whether it came back in time
func within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

// framesGood and framesBad are judged by the OCPP-J definition of a frame
type goodFrame struct {
	text    string
	kind    int
	id      string
	action  string // of a CALL
	payload string // of a CALL or a CALLRESULT
	code    string
	desc    string
	details string
}

func goodFrames() []goodFrame {
	var out []goodFrame
	ids := []string{"1", "", "a b", "é", "<&>", "%d", "2fb1a9b6-3c0b-4bb3-8c5a-0f1f5d5b5a5e", "[", "\"q\"", "null", "\u2028"}
	objs := []string{"{}", `{"a":1}`, `{"idTag":"x"}`, `{"a":null,"b":[1,{"c":true}]}`, `{"":""}`, `{"x":-1.5,"y":"é\n\""}`}
	for _, id := range ids {
		i, _ := json.Marshal(id)
		for n, o := range objs {
			for _, a := range []string{"Heartbeat", "", "Foo", "%s"} {
				q, _ := json.Marshal(a)
				out = append(out, goodFrame{text: fmt.Sprintf("[2,%s,%s,%s]", i, q, o), kind: 2, id: id, action: a, payload: o})
			}
			out = append(out, goodFrame{text: fmt.Sprintf("[3,%s,%s]", i, o), kind: 3, id: id, payload: o})
			d := []string{"", "GenericError", "x"}[n%3]
			q, _ := json.Marshal(d)
			out = append(out, goodFrame{text: fmt.Sprintf("[4,%s,%s,%s,%s]", i, `"InternalError"`, q, o), kind: 4, id: id, code: "InternalError", desc: d, details: o})
			out = append(out, goodFrame{text: fmt.Sprintf("[4,%s,%s,%s,%s]", i, q, `"d"`, o), kind: 4, id: id, code: d, desc: "d", details: o})
		}
	}
	out = append(out, goodFrame{text: " [ 2.0 , \"1\" , \"Heartbeat\" , { } ] ", kind: 2, id: "1", action: "Heartbeat", payload: "{}"})
	return out
}

func badFrames() []string {
	var out []string
	vals := []string{"null", "true", "1", `"x"`, "[]", "{}", "2"}
	// every frame of up to five elements of these kinds that is not good
	is := func(v string, k string) bool {
		switch k {
		case "s":
			return v[0] == '"'
		case "o":
			return v[0] == '{'
		}
		return false
	}
	for _, typ := range []string{"0", "1", "2", "3", "4", "5", "-2", "2.5", "3.9", "4.1", "1e30", `"2"`, `"3"`, "null", "[2]", "{}", "true", "2.0000001"} {
		out = append(out, "["+typ+"]")
		for _, a := range vals {
			out = append(out, fmt.Sprintf("[%s,%s]", typ, a))
			for _, b := range vals {
				if !(typ == "3" && is(a, "s") && is(b, "o")) {
					out = append(out, fmt.Sprintf("[%s,%s,%s]", typ, a, b))
				}
				for _, c := range vals {
					good := typ == "2" && is(a, "s") && is(b, "s") && is(c, "o") || typ == "3" && is(a, "s") && is(b, "o")
					if !good {
						out = append(out, fmt.Sprintf("[%s,%s,%s,%s]", typ, a, b, c))
					}
					if typ == "4" {
						for _, d := range vals {
							if !(is(a, "s") && is(b, "s") && is(c, "s") && is(d, "o")) {
								out = append(out, fmt.Sprintf("[4,%s,%s,%s,%s]", a, b, c, d))
							}
						}
					}
				}
			}
		}
	}
	out = append(out, "", " ", "null", "{}", "[]", "[", "]", "[2", `[2,"1","Heartbeat",{}`, `[2,"1","Heartbeat",{]}`, "\x00", "\xff\xfe", "nan", `"[2]"`, `{"0":2}`, `[2,"1","Heartbeat",{}]x`, `[2,"1","Heartbeat",{}][]`, strings.Repeat("[", 200), strings.Repeat("[", 20000), "[[],[],[],[]]", "0", "true")
	return out
}

// describe a message by what it is written as
func msgText(m ws.Message) string {
	b, err := json.Marshal(m)
	if err != nil {
		return "error: " + err.Error()
	}
	return string(b)
}
