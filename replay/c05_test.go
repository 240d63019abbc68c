package verifreplay

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"testing"

	"github.com/voltbras/go-ocpp/ws"
)

func checkGood(g goodFrame) error {
	var m ws.Message
	var err error
	if e := safely(func() { m, err = ws.UnmarshalMessage([]byte(g.text)) }); e != nil {
		return fmt.Errorf("%q: %v", g.text, e)
	}
	if err != nil || m == nil || isNil(m) {
		return fmt.Errorf("%q is a frame, but gives %v, %v", g.text, m, err)
	}
	if string(m.ID()) != g.id || int(m.Type()) != g.kind {
		return fmt.Errorf("%q gives a message of type %v with id %q", g.text, m.Type(), m.ID())
	}
	var want string
	id, _ := json.Marshal(g.id)
	switch g.kind {
	case 2:
		c, ok := m.(*ws.CallMessage)
		if !ok || string(c.Action) != g.action {
			return fmt.Errorf("%q gives %T %v", g.text, m, m)
		}
		p, _ := json.Marshal(c.Payload)
		if !sameJSON(string(p), g.payload) {
			return fmt.Errorf("%q gives payload %s", g.text, p)
		}
		a, _ := json.Marshal(g.action)
		want = fmt.Sprintf("[2,%s,%s,%s]", id, a, g.payload)
	case 3:
		c, ok := m.(*ws.CallResultMessage)
		if !ok {
			return fmt.Errorf("%q gives %T", g.text, m)
		}
		p, _ := json.Marshal(c.Payload)
		if !sameJSON(string(p), g.payload) {
			return fmt.Errorf("%q gives payload %s", g.text, p)
		}
		want = fmt.Sprintf("[3,%s,%s]", id, g.payload)
	case 4:
		if _, ok := m.(*ws.CallErrorMessage); !ok {
			return fmt.Errorf("%q gives %T", g.text, m)
		}
		a, _ := json.Marshal(g.code)
		b, _ := json.Marshal(g.desc)
		want = fmt.Sprintf("[4,%s,%s,%s,%s]", id, a, b, g.details)
	}
	if got := msgText(m); !sameJSON(got, want) {
		return fmt.Errorf("%q gives a message that is written as %s", g.text, got)
	}
	return nil
}

func checkBad(s string) error {
	var m ws.Message
	var err error
	if e := safely(func() { m, err = ws.UnmarshalMessage([]byte(s)) }); e != nil {
		return fmt.Errorf("%.80q: %v", s, e)
	}
	if err == nil || m != nil {
		return fmt.Errorf("%.80q is no frame, but gives %v, %v", s, m, err)
	}
	return nil
}

func TestC05(t *testing.T) {
	for _, g := range goodFrames() {
		if err := checkGood(g); err != nil {
			t.Error(err)
		}
	}
	for _, s := range badFrames() {
		if err := checkBad(s); err != nil {
			t.Error(err)
		}
	}
	// damaged frames: never a panic, and an error or a message
	r := rand.New(rand.NewSource(seed()))
	good := goodFrames()
	for i := 0; i < rounds(20000); i++ {
		b := []byte(good[r.Intn(len(good))].text)
		for k := 0; k < 1+r.Intn(3) && len(b) > 0; k++ {
			j := r.Intn(len(b))
			switch r.Intn(4) {
			case 0:
				b[j] = byte(r.Intn(256))
			case 1:
				b = append(b[:j], b[j+1:]...)
			case 2:
				b = b[:j]
			case 3:
				b[j] = "[]{},:\"0123456789 nt"[r.Intn(20)]
			}
		}
		var m ws.Message
		var err error
		if e := safely(func() { m, err = ws.UnmarshalMessage(b) }); e != nil {
			t.Errorf("%q: %v", b, e)
		} else if (err == nil) == (m == nil || isNil(m)) {
			t.Errorf("%q gives %v and %v", b, m, err)
		}
	}
}
