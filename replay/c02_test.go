package verifreplay

import (
	"encoding/json"
	"math/rand"
	"reflect"
	"strings"
	"testing"
	"time"
)

func decode(c *codec, s string, direct bool) (m interface{}, err, panicked error) {
	m = c.new()
	panicked = safely(func() {
		if u, ok := m.(json.Unmarshaler); ok && direct {
			err = u.UnmarshalJSON([]byte(s))
		} else {
			err = json.Unmarshal([]byte(s), m)
		}
	})
	return
}

func TestC02(t *testing.T) {
	for i := range codecs {
		c := &codecs[i]
		r := rand.New(rand.NewSource(seed()))
		st := reflect.TypeOf(c.new()).Elem()
		try := func(s string, want bool) bool {
			for _, direct := range []bool{false, true} {
				m, err, panicked := decode(c, s, direct)
				if panicked != nil {
					t.Errorf("decoding %s as %T: %v", s, m, panicked)
					return false
				}
				if (err == nil) != want {
					t.Errorf("decoding %s as %T: error %v, want accepted: %v", s, m, err, want)
					return false
				}
			}
			return true
		}
		noreq := true
		for _, p := range c.props {
			noreq = noreq && !p.required
		}
		for _, s := range []string{"", "{", "[]", "[1]", "1", "\"x\"", "true", "{]", "\xff\x00", "{\"a\"}", "{\"a\":1", "[{}]", "{} {}", "\"{}\""} {
			if !try(s, false) {
				break
			}
		}
		try("{}", noreq)
		if _, ok := c.new().(json.Unmarshaler); ok {
			m := c.new()
			if err := m.(json.Unmarshaler).UnmarshalJSON([]byte("null")); (err == nil) != noreq {
				t.Errorf("decoding null as %T: %v", m, err)
			}
		}
		for round := 0; round < rounds(25); round++ {
			in := c.valid(r, round%2 == 0)
			if round == 2 {
				in = input{vals: map[string]string{}}
				for _, p := range c.props {
					if p.required {
						f, _ := st.FieldByName(p.field)
						in.vals[p.name] = validText(r, f.Type, false)
					}
				}
			}
			if !try(in.text(), true) {
				break
			}
			for _, k := range []string{"foo", "", "action", "null", "Status", "extra value"} {
				val := []string{"1", "null", "\"\"", "{}", "[]", "false", "\"x\"", "0"}[r.Intn(8)]
				if len(in.vals) > 0 && in.vals[k] == "" {
					if !try(in.with(k, val).text(), !c.strict) {
						break
					}
				}
				if len(in.vals) == 0 && c.strict {
					try(in.with(k, val).text(), false)
				}
			}
			for _, p := range c.props {
				f, _ := st.FieldByName(p.field)
				ft := f.Type
				for ft.Kind() == reflect.Ptr {
					ft = ft.Elem()
				}
				if !try(in.with(p.name, "").text(), !p.required) {
					break
				}
				if c.strict && in.vals[p.name] != "" {
					// the name in another case is another property
					up := strings.ToUpper(p.name[:1]) + p.name[1:]
					if !try(in.with(p.name, "").with(up, in.vals[p.name]).text(), false) {
						break
					}
					if !try(in.with(up, in.vals[p.name]).text(), false) {
						break
					}
				}
				var bad []string
				switch {
				case ft == reflect.TypeOf(time.Time{}):
					bad = []string{"1", "\"yesterday\"", "\"\"", "[]", "{}", "true", "\"2019-13-01T00:00:00Z\"", "\"2019-01-01\""}
				case ft.Kind() == reflect.String:
					bad = []string{"1", "[]", "{}", "true", "2.5", "[\"a\"]"}
				case ft.Kind() == reflect.Bool:
					bad = []string{"1", "\"true\"", "[]"}
				case ft.Kind() == reflect.Slice:
					bad = []string{"1", "\"a\"", "{}", "true"}
					if ft.Elem().Kind() != reflect.String {
						bad = append(bad, "[1]", "[\"a\"]")
					} else {
						bad = append(bad, "[1]", "[{}]")
					}
				case ft.Kind() == reflect.Struct:
					bad = []string{"1", "\"a\"", "[]", "true"}
					if nc := codecOf(ft); nc != nil {
						for _, np := range nc.props {
							if np.required {
								bad = append(bad, nc.valid(r, false).with(np.name, "").text())
							}
							bad = append(bad, nc.valid(r, false).with(np.name, "[[1]]").text())
						}
					}
				default:
					bad = []string{"\"1\"", "\"a\"", "[]", "{}", "true"}
					if ft.Kind() != reflect.Float64 {
						bad = append(bad, "1.5")
					}
				}
				stop := false
				for _, b := range bad {
					if !try(in.with(p.name, b).text(), false) {
						stop = true
						break
					}
				}
				if stop {
					break
				}
			}
			if t.Failed() {
				break
			}
		}
	}
}
