package verifreplay

import (
	"encoding/json"
	"math/rand"
	"reflect"
	"testing"
)

func TestC01(t *testing.T) {
	for i := range codecs {
		c := &codecs[i]
		r := rand.New(rand.NewSource(seed()))
		n := rounds(150) + 2*len(c.props)
		for round := 0; round < n; round++ {
			m := c.new()
			v := reflect.ValueOf(m).Elem()
			switch {
			case round == 0:
			case round <= len(c.props):
				// only one field set
				random(r, v.FieldByName(c.props[round-1].field), 4, 0)
			case round <= 2*len(c.props):
				// only one field unset
				random(r, v, 4, 0)
				f := v.FieldByName(c.props[round-1-len(c.props)].field)
				f.Set(reflect.Zero(f.Type()))
			default:
				random(r, v, 4, []float64{0, 0.2, 0.6}[round%3])
			}
			var b []byte
			var err error
			if perr := safely(func() { b, err = json.Marshal(m) }); perr != nil {
				t.Errorf("encoding %T %+v: %v", m, m, perr)
				break
			}
			if err != nil {
				if !mayFail(v) {
					t.Errorf("encoding %T %+v fails: %v", m, m, err)
					break
				}
				continue
			}
			missing := false
			for _, p := range c.props {
				if f := v.FieldByName(p.field); p.required && p.kind == "obj" && f.Kind() == reflect.Ptr && f.IsNil() {
					missing = true
				}
			}
			if missing {
				t.Errorf("encoding %T without a required object succeeds: %s", m, b)
				break
			}
			if err := c.check(b, v); err != nil {
				t.Errorf("encoding %T %+v: %v", m, m, err)
				break
			}
		}
	}
}
