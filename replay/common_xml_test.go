package verifreplay

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"time"
)

// the XML of the OCPP 1.5 services, written and read without the code under
// test and without its struct tags

type xmlElem struct {
	ns, name string
	v        interface{}
}

type xmlRow struct {
	t                 interface{}
	field, kind, name string
	required          bool
}

func rowsOf(t reflect.Type) []xmlRow {
	var out []xmlRow
	for _, r := range xmlRows {
		if reflect.TypeOf(r.t) == t {
			out = append(out, r)
		}
	}
	return out
}

var timeType = reflect.TypeOf(time.Time{})

func xmlText(r *rand.Rand) string {
	al := []string{"a", "Z", "7", " x", "<", ">", "&", "\"", "'", "%d", "é", "…", "]]>", "-", ":"}
	var b strings.Builder
	for n := 1 + r.Intn(6); n > 0; n-- {
		b.WriteString(al[r.Intn(len(al))])
	}
	return strings.TrimSpace("q" + b.String() + "q")
}

// xmlFill: random values for the fields the services define
func xmlFill(r *rand.Rand, v reflect.Value, unset float64) {
	switch {
	case v.Type() == timeType:
		v.Set(reflect.ValueOf(time.Unix(r.Int63n(4e9), r.Int63n(1000)*1e6).UTC()))
		return
	case v.Kind() == reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		xmlFill(r, v.Elem(), unset)
		return
	case v.Kind() == reflect.Slice:
		n := 1 + r.Intn(3)
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			xmlFill(r, v.Index(i), unset)
		}
		return
	case v.Kind() == reflect.Struct:
		for _, row := range rowsOf(v.Type()) {
			f := v.FieldByName(row.field)
			if r.Float64() < unset && !(f.Kind() == reflect.Ptr && row.required) {
				continue
			}
			xmlFill(r, f, unset)
		}
		return
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString(xmlText(r))
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(r.Intn(90000)))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(r.Intn(200) - 100))
	}
}

func scalarText(v reflect.Value) string {
	if v.Type() == timeType {
		return v.Interface().(time.Time).Format(time.RFC3339Nano)
	}
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Float32, reflect.Float64:
		return strconv.FormatFloat(v.Float(), 'f', -1, 64)
	}
	return strconv.FormatInt(v.Int(), 10)
}

func escaped(s string) string {
	var b bytes.Buffer
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

func isZeroVal(v reflect.Value) bool {
	return reflect.DeepEqual(v.Interface(), reflect.Zero(v.Type()).Interface())
}

// element writes a value as the element of that name, its children in an
// arbitrary order
func element(r *rand.Rand, prefix, name string, v reflect.Value) string {
	for v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct || v.Type() == timeType {
		return fmt.Sprintf("<%s%s>%s</%s%s>", prefix, name, escaped(scalarText(v)), prefix, name)
	}
	attrs, text := "", ""
	var kids []string
	for _, row := range rowsOf(v.Type()) {
		f := v.FieldByName(row.field)
		if !row.required && isZeroVal(f) {
			continue
		}
		switch row.kind {
		case "attr":
			attrs += fmt.Sprintf(" %s=\"%s\"", row.name, escaped(scalarText(f)))
		case "chardata":
			text += escaped(scalarText(f))
		case "path":
			p := strings.Split(row.name, ">")
			k := fmt.Sprintf("<%s%s>", prefix, p[0])
			for i := 0; i < f.Len(); i++ {
				k += element(r, prefix, p[1], f.Index(i))
			}
			kids = append(kids, k+fmt.Sprintf("</%s%s>", prefix, p[0]))
		default:
			if f.Kind() == reflect.Slice {
				for i := 0; i < f.Len(); i++ {
					kids = append(kids, element(r, prefix, row.name, f.Index(i)))
				}
			} else {
				kids = append(kids, element(r, prefix, row.name, f))
			}
		}
	}
	return fmt.Sprintf("<%s%s%s>%s%s</%s%s>", prefix, name, attrs, text, strings.Join(kids, ""), prefix, name)
}

// envelope: a SOAP envelope with these header and body contents; m is the
// prefix of the elements of namespace ns ("" or "m:")
func envelope(header, body, ns, m string) string {
	decl := ""
	if m != "" {
		decl = fmt.Sprintf(` xmlns:%s="%s"`, strings.TrimSuffix(m, ":"), ns)
	}
	h := ""
	if header != "" {
		h = "<S:Header>" + header + "</S:Header>"
	}
	return `<?xml version="1.0" encoding="UTF-8"?>` + "\n" + `<S:Envelope xmlns:S="http://www.w3.org/2003/05/soap-envelope"` + decl + `>` + h + `<S:Body>` + body + `</S:Body></S:Envelope>`
}

func messageXML(r *rand.Rand, e xmlElem, v interface{}, header string) string {
	m := "m:"
	if r.Intn(2) == 0 {
		m = "ocpp:"
	}
	sp := []string{"", "\n  "}[r.Intn(2)]
	return envelope(header, sp+element(r, m, e.name, reflect.ValueOf(v))+sp, e.ns, m)
}

// ---- reading

type node struct {
	space, name, text string
	attrs             map[string]string
	kids              []*node
}

func parseXML(b []byte) (*node, error) {
	d := xml.NewDecoder(bytes.NewReader(b))
	var stack []*node
	var root *node
	for {
		t, err := d.Token()
		if err == io.EOF {
			if root == nil || len(stack) > 0 {
				return nil, fmt.Errorf("not one document")
			}
			return root, nil
		}
		if err != nil {
			return nil, err
		}
		switch x := t.(type) {
		case xml.StartElement:
			n := &node{space: x.Name.Space, name: x.Name.Local, attrs: map[string]string{}}
			for _, a := range x.Attr {
				n.attrs[a.Name.Local] = a.Value
			}
			if len(stack) > 0 {
				p := stack[len(stack)-1]
				p.kids = append(p.kids, n)
			} else if root != nil {
				return nil, fmt.Errorf("two documents")
			} else {
				root = n
			}
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if len(stack) > 0 {
				stack[len(stack)-1].text += string(x)
			}
		}
	}
}

func (n *node) all(name string) []*node {
	var out []*node
	if n != nil {
		for _, k := range n.kids {
			if k.name == name {
				out = append(out, k)
			}
		}
	}
	return out
}

func (n *node) kid(names ...string) *node {
	for _, m := range names {
		ks := n.all(m)
		if len(ks) != 1 {
			return nil
		}
		n = ks[0]
	}
	return n
}

const soapNS = "http://www.w3.org/2003/05/soap-envelope"

// holds checks that an element holds a value
func (n *node) holds(v reflect.Value) error {
	for v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct || v.Type() == timeType {
		if n.text != scalarText(v) {
			return fmt.Errorf("%s is %q, not %q", n.name, n.text, scalarText(v))
		}
		return nil
	}
	for _, row := range rowsOf(v.Type()) {
		f := v.FieldByName(row.field)
		var got []*node
		switch row.kind {
		case "attr":
			a, ok := n.attrs[row.name]
			if !ok && isZeroVal(f) && !row.required {
				continue
			}
			if !ok || a != scalarText(f) {
				return fmt.Errorf("attribute %s of %s is %q, not %q", row.name, n.name, a, scalarText(f))
			}
			continue
		case "chardata":
			if n.text != scalarText(f) {
				return fmt.Errorf("%s is %q, not %q", n.name, n.text, scalarText(f))
			}
			continue
		case "path":
			p := strings.Split(row.name, ">")
			for _, k := range n.all(p[0]) {
				got = append(got, k.all(p[1])...)
			}
		default:
			got = n.all(row.name)
		}
		if f.Kind() == reflect.Slice {
			if len(got) != f.Len() {
				return fmt.Errorf("%s has %d elements %s, not %d", n.name, len(got), row.name, f.Len())
			}
			for i := range got {
				if err := got[i].holds(f.Index(i)); err != nil {
					return err
				}
			}
			continue
		}
		if len(got) == 0 && isZeroVal(f) && (!row.required || f.Kind() == reflect.Ptr) {
			continue
		}
		if len(got) != 1 {
			return fmt.Errorf("%s has %d elements %s", n.name, len(got), row.name)
		}
		if err := got[0].holds(f); err != nil {
			return err
		}
	}
	return nil
}

// sameXML: two messages are the same in the fields that the services define
func sameFields(a, b reflect.Value) error {
	for a.Kind() == reflect.Ptr && b.Kind() == reflect.Ptr && !a.IsNil() && !b.IsNil() {
		a, b = a.Elem(), b.Elem()
	}
	if a.Type() != b.Type() {
		return fmt.Errorf("%s is not a %s", a.Type(), b.Type())
	}
	switch {
	case a.Type() == timeType:
		if !a.Interface().(time.Time).Equal(b.Interface().(time.Time)) {
			return fmt.Errorf("%v is not %v", a, b)
		}
	case a.Kind() == reflect.Struct:
		for _, row := range rowsOf(a.Type()) {
			if err := sameFields(a.FieldByName(row.field), b.FieldByName(row.field)); err != nil {
				return fmt.Errorf("%s: %v", row.field, err)
			}
		}
	case a.Kind() == reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Errorf("%d elements, not %d", a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if err := sameFields(a.Index(i), b.Index(i)); err != nil {
				return err
			}
		}
	default:
		if !reflect.DeepEqual(a.Interface(), b.Interface()) {
			return fmt.Errorf("%v is not %v", a, b)
		}
	}
	return nil
}

// bodyOf: the content of an envelope's body
func bodyOf(b []byte) (*node, error) {
	n, err := parseXML(b)
	if err != nil {
		return nil, err
	}
	if n.name != "Envelope" || n.space != soapNS {
		return nil, fmt.Errorf("not a SOAP envelope: {%s}%s", n.space, n.name)
	}
	bs := n.all("Body")
	if len(bs) != 1 {
		return nil, fmt.Errorf("%d bodies", len(bs))
	}
	return bs[0], nil
}

// checkMessage: an envelope holds exactly this message
func checkMessage(b []byte, e xmlElem, v interface{}) error {
	body, err := bodyOf(b)
	if err != nil {
		return err
	}
	if len(body.kids) != 1 {
		return fmt.Errorf("the body has %d elements", len(body.kids))
	}
	k := body.kids[0]
	if k.space != e.ns || k.name != e.name {
		return fmt.Errorf("the body holds {%s}%s, not {%s}%s", k.space, k.name, e.ns, e.name)
	}
	return k.holds(reflect.ValueOf(v))
}

// checkFault: an envelope holds exactly a fault with this reason
func checkFault(b []byte, reason string, exact bool) error {
	body, err := bodyOf(b)
	if err != nil {
		return err
	}
	if len(body.kids) != 1 || body.kids[0].name != "Fault" || body.kids[0].space != soapNS {
		return fmt.Errorf("the body does not hold one fault")
	}
	t := body.kids[0].kid("Reason", "Text")
	if t == nil {
		return fmt.Errorf("the fault has no reason")
	}
	if exact && t.text != reason {
		return fmt.Errorf("the fault's reason is %q, not %q", t.text, reason)
	}
	return nil
}

func elemOf(v interface{}) xmlElem {
	for _, e := range xmlElems {
		if reflect.TypeOf(e.v) == reflect.TypeOf(v) {
			return e
		}
	}
	panic(fmt.Sprintf("no element for %T", v))
}

func randomMessage(r *rand.Rand, e xmlElem) interface{} {
	v := reflect.New(reflect.TypeOf(e.v).Elem())
	xmlFill(r, v.Elem(), []float64{0, 0.3, 1}[r.Intn(3)])
	return v.Interface()
}
