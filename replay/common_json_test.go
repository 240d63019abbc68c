package verifreplay

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
)

func seed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return n + 1
}

func rounds(quick int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return quick * 8
	}
	return quick
}

var strs = []string{"a", "Wh", "x y", "", "é€", "\"q\"", "back\\slash", "tab\t\n", "\u2028", "<&>", "%d%s", "ABCDEFGHIJ0123456789", "null", "0"}
var ints = []int64{0, 1, -1, 2, 7, 100, -32768, 65536, 2147483647, -2147483648}

// random fills v; unset leaves about that share of the optional values at zero
func random(r *rand.Rand, v reflect.Value, depth int, unset float64) {
	if v.Type() == reflect.TypeOf(time.Time{}) {
		t := time.Unix(r.Int63n(4e9), 0)
		if r.Intn(2) == 0 {
			t = t.Add(time.Duration(r.Intn(1e9)))
		}
		if r.Intn(2) == 0 {
			t = t.In(time.FixedZone("", (r.Intn(27)-13)*1800))
		} else {
			t = t.UTC()
		}
		v.Set(reflect.ValueOf(t))
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if r.Float64() < unset && v.CanSet() {
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		random(r, v.Elem(), depth, unset)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() && v.Type().Field(i).Name != "XMLName" {
				if v.Field(i).Kind() != reflect.Ptr && r.Float64() < unset {
					continue
				}
				random(r, v.Field(i), depth, unset)
			}
		}
	case reflect.String:
		v.SetString(strs[r.Intn(len(strs))])
	case reflect.Int, reflect.Int32, reflect.Int64:
		v.SetInt(ints[r.Intn(len(ints))])
	case reflect.Float64, reflect.Float32:
		v.SetFloat([]float64{0, 1, -1, 0.5, 21.4, 1e21, 3e-9}[r.Intn(7)])
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Slice:
		n := r.Intn(4)
		if n == 0 && r.Intn(2) == 0 {
			return
		}
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			random(r, v.Index(i), depth-1, unset)
			// elements are present
			if e := v.Index(i); e.Kind() == reflect.Ptr && e.IsNil() {
				e.Set(reflect.New(e.Type().Elem()))
			}
		}
	}
}

func codecOf(t reflect.Type) *codec {
	for i := range codecs {
		if reflect.TypeOf(codecs[i].new()).Elem() == t {
			return &codecs[i]
		}
	}
	return nil
}

// entries of a JSON object in order, and an error if it is not one object without duplicates
func entries(b []byte) (map[string]json.RawMessage, error) {
	if !json.Valid(b) {
		return nil, fmt.Errorf("not valid JSON: %q", b)
	}
	d := json.NewDecoder(bytes.NewReader(b))
	t, err := d.Token()
	if err != nil || t != json.Delim('{') {
		return nil, fmt.Errorf("not an object: %q", b)
	}
	m := map[string]json.RawMessage{}
	for d.More() {
		k, err := d.Token()
		if err != nil {
			return nil, err
		}
		var v json.RawMessage
		if err := d.Decode(&v); err != nil {
			return nil, err
		}
		if _, dup := m[k.(string)]; dup {
			return nil, fmt.Errorf("property %q occurs twice", k)
		}
		m[k.(string)] = v
	}
	return m, nil
}

// carries: does the JSON value b carry the field value v
func carries(b []byte, v reflect.Value) error {
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			if string(b) != "null" {
				return fmt.Errorf("unset value written as %s", b)
			}
			return nil
		}
		return carries(b, v.Elem())
	}
	if v.Type() == reflect.TypeOf(time.Time{}) {
		var s string
		if err := json.Unmarshal(b, &s); err != nil {
			return fmt.Errorf("time written as %s", b)
		}
		t, err := time.Parse(time.RFC3339Nano, s)
		if err != nil || !t.Truncate(time.Second).Equal(v.Interface().(time.Time).Truncate(time.Second)) {
			return fmt.Errorf("time %v written as %s", v.Interface(), b)
		}
		return nil
	}
	switch v.Kind() {
	case reflect.Struct:
		if c := codecOf(v.Type()); c != nil {
			return c.check(b, v)
		}
		return fmt.Errorf("no schema for %s", v.Type())
	case reflect.Slice:
		var l []json.RawMessage
		if err := json.Unmarshal(b, &l); err != nil {
			return err
		}
		if len(l) != v.Len() {
			return fmt.Errorf("%d elements written as %d", v.Len(), len(l))
		}
		for i := range l {
			if err := carries(l[i], v.Index(i)); err != nil {
				return err
			}
		}
		return nil
	}
	w := reflect.New(v.Type())
	d := json.NewDecoder(bytes.NewReader(b))
	if err := d.Decode(w.Interface()); err != nil || string(b) == "null" {
		return fmt.Errorf("value %v written as %s", v.Interface(), b)
	}
	if !reflect.DeepEqual(w.Elem().Interface(), v.Interface()) {
		return fmt.Errorf("value %#v written as %s", v.Interface(), b)
	}
	return nil
}

func (c *codec) check(b []byte, v reflect.Value) error {
	m, err := entries(b)
	if err != nil {
		return err
	}
	for _, p := range c.props {
		f := v.FieldByName(p.field)
		raw, ok := m[p.name]
		delete(m, p.name)
		if !ok {
			if p.required {
				return fmt.Errorf("required property %q is missing in %s", p.name, b)
			}
			if !f.IsZero() && !(f.Kind() == reflect.Slice && f.Len() == 0) {
				return fmt.Errorf("property %q is missing in %s although its field is set", p.name, b)
			}
			continue
		}
		if err := carries(raw, f); err != nil {
			return fmt.Errorf("property %q: %v", p.name, err)
		}
	}
	for k := range m {
		return fmt.Errorf("property %q is not in the schema: %s", k, b)
	}
	return nil
}

// mayFail: may encoding v fail (a required object is missing somewhere)
func mayFail(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Ptr:
		return !v.IsNil() && mayFail(v.Elem())
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if mayFail(v.Index(i)) {
				return true
			}
		}
	case reflect.Struct:
		c := codecOf(v.Type())
		if c == nil {
			return false
		}
		for _, p := range c.props {
			f := v.FieldByName(p.field)
			if f.Kind() == reflect.Ptr && f.IsNil() && p.kind == "obj" && p.required || mayFail(f) {
				return true
			}
		}
	}
	return false
}

func safely(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	f()
	return nil
}

// an input object, as text by property
type input struct {
	vals map[string]string
	dup  string
}

func (in input) text() string {
	var ks []string
	for k := range in.vals {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var parts []string
	for _, k := range ks {
		kb, _ := json.Marshal(k)
		parts = append(parts, string(kb)+": "+in.vals[k])
	}
	return "{" + strings.Join(parts, ", ") + "}"
}

func (in input) with(k, v string) input {
	out := input{vals: map[string]string{}}
	for a, b := range in.vals {
		out.vals[a] = b
	}
	if v == "" {
		delete(out.vals, k)
	} else {
		out.vals[k] = v
	}
	return out
}

// valid text of a property of a field type
func validText(r *rand.Rand, t reflect.Type, full bool) string {
	if t == reflect.TypeOf(time.Time{}) {
		x := time.Unix(r.Int63n(4e9), 0).UTC()
		if r.Intn(2) == 0 {
			x = x.In(time.FixedZone("", 3600*(r.Intn(20)-10)))
		}
		return strconv.Quote(x.Format(time.RFC3339))
	}
	switch t.Kind() {
	case reflect.Ptr:
		return validText(r, t.Elem(), full)
	case reflect.Struct:
		if c := codecOf(t); c != nil {
			return c.valid(r, full).text()
		}
		return "{}"
	case reflect.Slice:
		var parts []string
		for i := r.Intn(3); i >= 0; i-- {
			parts = append(parts, validText(r, t.Elem(), full))
		}
		return "[" + strings.Join(parts, ",") + "]"
	case reflect.String:
		b, _ := json.Marshal(strs[r.Intn(len(strs))])
		return string(b)
	case reflect.Bool:
		return []string{"true", "false"}[r.Intn(2)]
	case reflect.Float64, reflect.Float32:
		return []string{"0", "1", "2.5", "-1e3", "21.4"}[r.Intn(5)]
	}
	return strconv.FormatInt(ints[r.Intn(len(ints))], 10)
}

func (c *codec) valid(r *rand.Rand, full bool) input {
	st := reflect.TypeOf(c.new()).Elem()
	in := input{vals: map[string]string{}}
	for _, p := range c.props {
		if p.required || full || r.Intn(2) == 0 {
			f, ok := st.FieldByName(p.field)
			if !ok {
				panic("no field " + p.field)
			}
			in.vals[p.name] = validText(r, f.Type, full)
		}
	}
	return in
}
