package verifreplay

import (
	"encoding/json"
	"math/rand"
	"reflect"
	"testing"
	"time"
)

// same: equal values, times as instants to whole seconds, empty lists alike
func same(a, b reflect.Value) bool {
	if a.Type() == reflect.TypeOf(time.Time{}) {
		return a.Interface().(time.Time).Truncate(time.Second).Equal(b.Interface().(time.Time).Truncate(time.Second))
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).Name != "XMLName" && !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func TestC03(t *testing.T) {
	for i := range codecs {
		c := &codecs[i]
		r := rand.New(rand.NewSource(seed()))
		for round := 0; round < rounds(60)+len(c.props); round++ {
			// every field holds its own property, or keeps what it had
			in := c.valid(r, round%3 == 0)
			if round < len(c.props) {
				p := c.props[round]
				f, _ := reflect.TypeOf(c.new()).Elem().FieldByName(p.field)
				in = input{vals: map[string]string{}}
				for _, q := range c.props {
					if q.required || q.name == p.name {
						g, _ := reflect.TypeOf(c.new()).Elem().FieldByName(q.field)
						in.vals[q.name] = validText(r, g.Type, true)
					}
				}
				_ = f
			}
			ms := r.Int63()
			pre := func() interface{} {
				m := c.new()
				if round%2 == 1 {
					random(rand.New(rand.NewSource(ms)), reflect.ValueOf(m).Elem(), 4, 0)
				}
				return m
			}
			m, want := pre(), pre()
			var err error
			if perr := safely(func() { err = json.Unmarshal([]byte(in.text()), m) }); perr != nil || err != nil {
				t.Errorf("decoding %s as %T: %v %v", in.text(), m, err, perr)
				break
			}
			ok := true
			for _, p := range c.props {
				f := reflect.ValueOf(want).Elem().FieldByName(p.field)
				if s := in.vals[p.name]; s != "" {
					if err := json.Unmarshal([]byte(s), f.Addr().Interface()); err != nil {
						t.Errorf("property %s of %T: %v", p.name, m, err)
						ok = false
					}
				}
				if g := reflect.ValueOf(m).Elem().FieldByName(p.field); ok && !same(g, f) {
					t.Errorf("decoding %s as %T: field %s is %+v, want %+v", in.text(), m, p.field, g.Interface(), f.Interface())
					ok = false
				}
			}
			if !ok {
				break
			}
			// what was encoded comes back
			m = c.new()
			random(r, reflect.ValueOf(m).Elem(), 4, 0.4)
			var b []byte
			if perr := safely(func() { b, err = json.Marshal(m) }); perr != nil || err != nil {
				continue
			}
			back := c.new()
			if perr := safely(func() { err = json.Unmarshal(b, back) }); perr != nil || err != nil {
				if nilRequired(reflect.ValueOf(m).Elem()) {
					continue
				}
				t.Errorf("decoding what encoding %T produced (%s): %v %v", m, b, err, perr)
				break
			}
			if !same(reflect.ValueOf(m).Elem(), reflect.ValueOf(back).Elem()) {
				b2, _ := json.Marshal(back)
				t.Errorf("%T %s comes back as %s", m, b, b2)
				break
			}
		}
	}
}

// nilRequired: a required value is missing somewhere, which is written as null or refused
func nilRequired(v reflect.Value) bool { return mayFail(v) }
