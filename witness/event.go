package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/eventutil"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"
)

func init() {
	for _, p := range []string{"C01", "C02", "C03", "C04", "C07"} {
		p := p
		searches[p] = func(t *T) { eventOps(t, p) }
	}
	searches["C05"] = keyPaths
	searches["C06"] = escapes
}

// splitKey is the oracle for the path a key addresses.
func splitKey(key string) []string {
	var segs []string
	cur := ""
	for i := 0; i < len(key); i++ {
		c := key[i]
		esc := i > 0 && key[i-1] == '\\'
		switch {
		case c == '\\':
		case c == '.' && !esc:
			if cur != "" {
				segs = append(segs, cur)
			}
			cur = ""
		default:
			cur += string([]byte{c})
		}
	}
	if cur != "" {
		segs = append(segs, cur)
	}
	return segs
}

func root(e *event.Event) map[string]*event.Value {
	v := e.Get(".")
	if v == nil {
		return nil
	}
	return v.Object
}

// at is the oracle for the value at a path.
func at(e *event.Event, path []string) *event.Value {
	m := root(e)
	for i, s := range path {
		v := m[s]
		if i == len(path)-1 {
			return v
		}
		if v == nil || v.Type != event.ObjectType {
			return nil
		}
		m = v.Object
	}
	return nil
}

type field struct {
	path []string
	ptr  *event.Value
	text string
}

// snapshot lists every field of an event at every depth.
func snapshot(e *event.Event) map[string]field {
	out := map[string]field{}
	var walk func(m map[string]*event.Value, p []string)
	walk = func(m map[string]*event.Value, p []string) {
		for k, v := range m {
			q := append(append([]string{}, p...), k)
			f := field{path: q, ptr: v}
			if v != nil {
				if v.Type == event.ObjectType {
					f.text = "object"
					walk(v.Object, q)
				} else {
					f.text = dump(v)
				}
			}
			out[strings.Join(q, "\x00")] = f
		}
	}
	walk(root(e), nil)
	return out
}

func dump(v *event.Value) string {
	if v == nil {
		return "nil"
	}
	switch v.Type {
	case event.ObjectType:
		var ks []string
		for k := range v.Object {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var sb strings.Builder
		sb.WriteString("{")
		for _, k := range ks {
			fmt.Fprintf(&sb, "%q:%s,", k, dump(v.Object[k]))
		}
		return sb.String() + "}"
	case event.ArrayType:
		var sb strings.Builder
		sb.WriteString("[")
		for _, x := range v.Array {
			sb.WriteString(dump(x) + ",")
		}
		return sb.String() + "]"
	case event.StringType:
		return fmt.Sprintf("%q", v.String)
	case event.IntegerType:
		return fmt.Sprintf("int(%d)", v.Integer)
	case event.UnsignedIntegerType:
		return fmt.Sprintf("uint(%d)", v.UnsignedInteger)
	case event.FloatType:
		return fmt.Sprintf("float(%v)", v.Float)
	case event.BoolType:
		return fmt.Sprintf("bool(%v)", v.Bool)
	case event.TimestampType:
		return fmt.Sprintf("time(%d)", v.Timestamp.UnixNanos)
	case event.NullType:
		return "null"
	}
	return fmt.Sprintf("type%d", v.Type)
}

func dumpEvent(e *event.Event) string {
	return dump(&event.Value{Type: event.ObjectType, Object: root(e)})
}

var segPool = []string{"a", "b", "c", "a.b", "x", "\xff", "é", "0", "long_name", " "}

func (t *T) seg() string {
	if t.chance(40) {
		return fmt.Sprintf("f%d", t.r.Intn(40))
	}
	if t.chance(200) {
		return strings.Repeat("long", 1+t.r.Intn(100))
	}
	if t.chance(4) {
		return segPool[t.r.Intn(len(segPool))]
	}
	return segPool[t.r.Intn(3)]
}

func joinKey(segs []string) string {
	var o []string
	for _, s := range segs {
		o = append(o, strings.ReplaceAll(s, ".", `\.`))
	}
	return strings.Join(o, ".")
}

var oddKeys = []string{"", ".", "..", "a.", ".a", "a..b", `\`, `\\`, `a\.b`, `a\\.b`, `a.\b`, `\.`, `.\.`, `a\`, `a.b.`, "...a...b...", `a\.`, `\a`}

func (t *T) key() string {
	if t.chance(8) {
		return oddKeys[t.r.Intn(len(oddKeys))]
	}
	n := 1 + t.r.Intn(4)
	if t.chance(50) {
		n = 1 + t.r.Intn(40)
	}
	var s []string
	for i := 0; i < n; i++ {
		s = append(s, t.seg())
	}
	return joinKey(s)
}

func (t *T) value(d int) *event.Value {
	k := t.r.Intn(11)
	if d <= 0 && (k == 7 || k == 8) {
		k = 0
	}
	switch k {
	case 0, 9:
		return event.String(t.pick("", "x", "Hello", "ÄÖ", "a.b", "line\n"))
	case 1:
		return event.Integer(int64(t.r.Intn(5)) - 2)
	case 2:
		return event.UnsignedInteger(uint64(t.r.Intn(5)))
	case 3:
		return event.Float(float64(t.r.Intn(5)) / 4)
	case 4:
		return event.Bool(t.chance(2))
	case 5:
		return event.Timestamp(t.r.Int63() - t.r.Int63())
	case 6:
		return event.NullValue
	case 7:
		n := t.size(4)
		if n > 8 {
			d = 1
		}
		a := make([]*event.Value, 0, n+t.r.Intn(3))
		for i := n; i > 0; i-- {
			a = append(a, t.value(d-1))
		}
		return event.Array(a...)
	default:
		m := map[string]*event.Value{}
		n := t.size(4)
		if n > 8 {
			d = 1
		}
		for i := n; i > 0; i-- {
			m[t.seg()] = t.value(d - 1)
		}
		if len(m) == 0 && t.chance(3) {
			return event.Object(nil)
		}
		return event.Object(m)
	}
}

func (t *T) json(d int) interface{} {
	switch t.r.Intn(8) {
	case 0:
		return nil
	case 1:
		return t.chance(2)
	case 2:
		return float64(t.r.Intn(100)) / 4
	case 3:
		if d > 0 {
			a := []interface{}{}
			n := t.size(4)
			if n > 8 {
				d = 1
			}
			for i := n; i > 0; i-- {
				a = append(a, t.json(d-1))
			}
			return a
		}
	case 4, 5, 6:
		if d > 0 {
			m := map[string]interface{}{}
			for i := t.r.Intn(4); i > 0; i-- {
				m[t.seg()] = t.json(d - 1)
			}
			return m
		}
	}
	return t.pick("", "s", "Hello World", "ß", "\u2028", "<tag>")
}

func (t *T) object(d int) map[string]interface{} {
	m := map[string]interface{}{}
	for i := t.r.Intn(5); i > 0; i-- {
		m[t.seg()] = t.json(d)
	}
	return m
}

// fields are the operations on an event that processors have, too.
type fields interface {
	Put(string, *event.Value) (*event.Value, error)
	TryPut(string, *event.Value) (*event.Value, error)
	Get(string) *event.Value
	Delete(string) *event.Value
}

type insideConfig struct{}

// inside is a processor that calls do with the event it is given.
type inside struct{}

func (*inside) Config() insideConfig { return insideConfig{} }
func (*inside) Process(e processor.Event) error {
	if insideStop == 1 {
		e.Cancel()
	} else if insideStop == 2 {
		e.Drop()
	}
	insideDo(e)
	return nil
}

var (
	insideDo   func(fields)
	insideStop int // 1: cancel the event first, 2: drop it
	insidePipe *pipeline.Pipeline
)

// on calls do with the event or, now and then, in a processor of a pipeline
// that is given the event.
func (t *T) on(e *event.Event, do func(fields)) {
	if !t.chance(12) {
		do(e)
		return
	}
	if insidePipe == nil {
		registry.MustRegister("zz_inside", func(insideConfig) (*inside, error) { return &inside{}, nil })
		p, err := pipeline.New(&pipeline.Config{ID: "inside", Processors: []pipeline.ProcessorConfig{{"zz_inside": {}}}})
		if err != nil {
			p = &pipeline.Pipeline{} // C12's business
		}
		insidePipe = p
	}
	insideStop = t.r.Intn(6)
	t.logf("(in a processor%s:)", []string{"", " after Cancel", " after Drop", "", "", ""}[insideStop])
	ran := false
	insideDo = func(f fields) { ran = true; do(f) }
	if insidePipe.Process(e); !ran {
		do(e)
	}
}

// event makes an event: empty, decoded from JSON, or put together.
func (t *T) event() *event.Event {
	e := event.New()
	switch t.r.Intn(4) {
	case 0:
		t.logf("e := event.New()")
	case 1, 2:
		b, _ := json.Marshal(t.object(3))
		if t.chance(10) {
			b = []byte(t.pick("null", "{}", `{"a":null}`, `{"a":{}}`, `{"a":{"b":null}}`, `{"":1}`))
		}
		t.logf("json.Unmarshal(`%s`, e)", b)
		if err := json.Unmarshal(b, e); err != nil {
			t.fail("valid JSON decodes into an event", "%v", err)
		}
	default:
		n := t.r.Intn(5)
		t.logf("e := event.New()")
		for i := 0; i < n; i++ {
			k := t.key()
			v := t.value(2)
			t.logf("e.Put(%q, %s)", k, dump(v))
			e.Put(k, v)
		}
		if t.chance(6) {
			// an entry that is nil
			m := map[string]*event.Value{"a": nil, "b": event.Object(map[string]*event.Value{"a": nil})}
			t.logf(`e.Put("c", event.Object({a:nil, b:{a:nil}}))`)
			e.Put("c", event.Object(m))
		}
	}
	if t.chance(12) {
		// a wide object
		base := t.pick("", "a.", "w.", "a.b.")
		n := 1 + t.r.Intn(40)
		for i := 0; i < n; i++ {
			k, v := fmt.Sprintf("%sf%d", base, i), t.value(1)
			if t.chance(3) {
				v = &event.Value{Type: event.NullType}
			}
			t.logf("e.Put(%q, %s)", k, dump(v))
			e.Put(k, v)
		}
	}
	return e
}

func isUnder(p, q []string) bool { // q at or below p
	if len(q) < len(p) {
		return false
	}
	for i := range p {
		if p[i] != q[i] {
			return false
		}
	}
	return true
}

func blockedAt(e *event.Event, p []string) bool {
	for i := 1; i < len(p); i++ {
		if v := at(e, p[:i]); v != nil && v.Type != event.ObjectType {
			return true
		}
	}
	return false
}

// sameExcept compares two snapshots outside of the fields at or below p.
// parents: proper prefixes of p may have become objects.
func (t *T) sameExcept(before, after map[string]field, p []string, parents bool) {
	for k, b := range before {
		if p != nil && isUnder(p, b.path) {
			continue
		}
		a, ok := after[k]
		if !ok {
			t.fail("other fields unchanged", "field %q is gone", b.path)
		}
		if parents && isUnder(b.path, p) && (b.ptr == nil || b.ptr.Type == event.ObjectType) && a.text == "object" {
			continue
		}
		if a.ptr != b.ptr || a.text != b.text {
			t.fail("other fields unchanged", "field %q: %s became %s (same value: %v)", b.path, b.text, a.text, a.ptr == b.ptr)
		}
	}
	for k, a := range after {
		if p != nil && isUnder(p, a.path) {
			continue
		}
		if _, ok := before[k]; ok {
			continue
		}
		if parents && isUnder(a.path, p) && a.text == "object" {
			continue
		}
		t.fail("other fields unchanged", "field %q appeared: %s", a.path, a.text)
	}
}

func eventOps(t *T, prop string) {
	e := t.event()
	n := 1 + t.r.Intn(6)
	if t.chance(20) {
		n = 40
	}
	for i := 0; i < n; i++ {
		op := t.r.Intn(4)
		if t.chance(2) {
			op = map[string]int{"C01": 0, "C02": t.r.Intn(2), "C03": 1, "C04": 2, "C07": op}[prop]
		}
		k := t.key()
		if t.chance(2) {
			// an existing path, or just below one
			s := snapshot(e)
			var ks []string
			for q := range s {
				ks = append(ks, q)
			}
			sort.Strings(ks)
			if len(ks) > 0 {
				f := s[ks[t.r.Intn(len(ks))]]
				p := append([]string{}, f.path...)
				if t.chance(3) {
					p = append(p, t.seg())
				}
				ok := true
				for _, x := range p {
					ok = ok && x != ""
				}
				if ok {
					k = joinKey(p)
				}
			}
		}
		p := splitKey(k)
		before := snapshot(e)
		had := at(e, p)
		blocked := blockedAt(e, p)
		t.eval(fmt.Sprint(op, k, dumpEvent(e)))
		switch op {
		case 0, 1:
			v := t.value(2)
			if t.chance(15) {
				v = nil
			}
			name := []string{"Put", "TryPut"}[op]
			t.logf("e.%s(%q, %s)", name, k, dump(v))
			var old *event.Value
			var err error
			if op == 0 {
				t.on(e, func(f fields) { old, err = f.Put(k, v) })
			} else {
				t.on(e, func(f fields) { old, err = f.TryPut(k, v) })
			}
			after := snapshot(e)
			if prop == "C02" || prop == "C03" {
				if err != nil || v == nil {
					t.sameExcept(before, after, nil, false)
				} else {
					t.sameExcept(before, after, p, true)
				}
			}
			if op == 1 && prop == "C01" || op == 0 && prop == "C03" || prop == "C04" || prop == "C07" {
				continue
			}
			want := error(nil)
			switch {
			case len(p) == 0:
				want = event.ErrEmptyKey
			case v == nil:
			case op == 1 && had != nil:
				want = event.ErrKeyExists
			case blocked:
				want = event.ErrTargetKeyNotObject
			}
			if prop == "C02" {
				continue
			}
			if (want == nil) != (err == nil) || want != nil && !errors.Is(err, want) {
				t.fail(fmt.Sprintf("error %v", want), "error %v", err)
			}
			if op == 1 && want == event.ErrKeyExists && old != had {
				t.fail("TryPut returns the existing value "+dump(had), "%s", dump(old))
			}
			if err == nil && v == nil && old != nil {
				t.fail("Put of nil returns nil", "%s", dump(old))
			}
			if err == nil && v != nil {
				if old != had {
					t.fail("the previous value "+dump(had), "%s", dump(old))
				}
				var got *event.Value
				if t.on(e, func(f fields) { got = f.Get(k) }); got != v {
					t.fail("Get("+k+") returns the value put: "+dump(v), "%s", dump(got))
				}
				if got := at(e, p); got != v {
					t.fail("the value is stored at the path", "%s", dump(got))
				}
			}
		case 2:
			t.logf("e.Delete(%q)", k)
			got := e.Get(k)
			if len(p) == 0 {
				got = nil
			}
			var d *event.Value
			t.on(e, func(f fields) { d = f.Delete(k) })
			if prop != "C04" {
				continue
			}
			if d != got || got != had {
				t.fail("Delete returns what was there: "+dump(had), "%s (Get: %s)", dump(d), dump(got))
			}
			after := snapshot(e)
			if d == nil {
				t.sameExcept(before, after, nil, false)
			} else {
				if g := e.Get(k); g != nil {
					t.fail("the field is gone", "%s", dump(g))
				}
				t.sameExcept(before, after, p, false)
				if _, ok := after[strings.Join(p, "\x00")]; ok {
					t.fail("the field is gone", "its name is still present")
				}
			}
		default:
			t.logf("e.Get(%q)", k)
			got := e.Get(k)
			if prop == "C07" || prop == "C03" || prop == "C02" {
				continue
			}
			if len(p) > 0 && got != had {
				t.fail("Get returns "+dump(had), "%s", dump(got))
			}
		}
	}
}

func keyPaths(t *T) {
	alpha := []string{"a", "b", ".", `\`, ".", `\`, "é", " "}
	k := ""
	if t.round < 5461 { // every key of up to six of a . \ b
		n := t.round
		for n > 0 {
			n--
			k += []string{"a", ".", `\`, "b"}[n%4]
			n /= 4
		}
	} else {
		for i := t.size(12); i > 0; i-- {
			k += alpha[t.r.Intn(len(alpha))]
		}
	}
	p := splitKey(k)
	t.eval(k)
	// the path must lead to the value in an event built without keys
	e := event.New()
	v := event.String("v")
	t.logf("key %q, path %q", k, p)
	if len(p) == 0 {
		if _, err := e.Put(k, v); !errors.Is(err, event.ErrEmptyKey) {
			t.fail("Put fails with ErrEmptyKey", "%v", err)
		}
		if _, err := e.TryPut(k, v); !errors.Is(err, event.ErrEmptyKey) {
			t.fail("TryPut fails with ErrEmptyKey", "%v", err)
		}
		if g := e.Get(k); g != nil {
			t.fail("nil for an empty event", "%s", dump(g))
		}
		e.Put("q", v)
		if g := e.Get(k); g == nil || g.Type != event.ObjectType || len(g.Object) != 1 || g.Object["q"] != v {
			t.fail("an object holding the root fields", "%s", dump(g))
		}
		return
	}
	if _, err := e.Put(k, v); err != nil {
		t.fail("Put succeeds", "%v", err)
	}
	want := dump(v)
	for i := len(p) - 1; i >= 0; i-- {
		want = fmt.Sprintf("{%q:%s,}", p[i], want)
	}
	if got := dumpEvent(e); got != want {
		t.fail("the value at path "+fmt.Sprintf("%q", p)+": "+want, "%s", got)
	}
	if g := e.Get(k); g != v {
		t.fail("Get returns it", "%s", dump(g))
	}
	if g := e.Delete(k); g != v {
		t.fail("Delete returns it", "%s", dump(g))
	}
}

func escapes(t *T) {
	alpha := []string{"a", ".", ".", "b", "é", " ", "-", "\x00", "/"}
	n := ""
	if t.round < 1365 {
		k := t.round
		for k > 0 {
			k--
			n += []string{"a", ".", "b", "é"}[k%4]
			k /= 4
		}
	} else {
		for i := t.size(10); i > 0; i-- {
			n += alpha[t.r.Intn(len(alpha))]
		}
	}
	if n == "" {
		return
	}
	t.eval(n)
	k := eventutil.EscapeKey(n)
	t.logf("EscapeKey(%q) = %q", n, k)
	if !strings.Contains(n, ".") && k != n {
		t.fail("unchanged", "%q", k)
	}
	if p := splitKey(k); len(p) != 1 || p[0] != n {
		t.fail("a key addressing exactly the name", "path %q", p)
	}
	e := event.New()
	v := event.Bool(true)
	e.Put(k, v)
	if r := root(e); len(r) != 1 || r[n] != v {
		t.fail("the field has exactly that name", "%s", dumpEvent(e))
	}
}
