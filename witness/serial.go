package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/andrewkroh/go-sawmill/pkg/config"
	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/eventutil"
	"github.com/andrewkroh/go-sawmill/pkg/serialization/mapinterface"
	"github.com/andrewkroh/go-sawmill/pkg/serialization/protobuf"
)

func init() {
	searches["C18"] = plainMaps
	searches["C19"] = protobufs
	searches["C20"] = goValues
	searches["C21"] = jsonValues
	rules["C18"] = "random events compared with FromEvent; random plain maps compared with FromEvent(ToEvent(m))"
	rules["C19"] = "random events compared with ToLogEvent(FromEvent(e).GetLog()); messages decoded from damaged encodings converted"
	rules["C20"] = "random Go values of every kind (named types, pointers, structs with tags made by reflect.StructOf) compared with what ReflectValue makes of them"
	rules["C21"] = "random events encoded and the JSON compared field by field; random JSON documents decoded and encoded again"
}

// utf8Only gives v, or a string of UTF-8 where bytes of other strings are not kept.
func utf8Only(t *T, v *event.Value) *event.Value {
	if t.prop == "C21" {
		return event.String("a\ufffdb")
	}
	return v
}

// content is dump with nil entries as null.
func content(v *event.Value) string {
	return strings.ReplaceAll(dump(v), "nil", "null")
}

func okName(k string) bool { return k != "" && !strings.Contains(k, `\`) }

// extremes puts the values into e that conversions get wrong.
func (t *T) extremes(e *event.Event) {
	for i := t.r.Intn(4); i > 0; i-- {
		vs := []*event.Value{
			event.Integer(math.MinInt64), event.Integer(math.MaxInt64), event.Integer(1<<53 + 1), event.UnsignedInteger(math.MaxUint64), event.UnsignedInteger(1 << 63),
			event.Float(math.MaxFloat64), event.Float(math.SmallestNonzeroFloat64), event.Float(1e21), event.Float(0.1), event.Float(-0.5), event.Float(math.Copysign(0, -1)), event.Float(1 << 60),
			event.Timestamp(0), event.Timestamp(-1), event.Timestamp(1), event.Timestamp(math.MaxInt64), event.Timestamp(math.MinInt64), event.Timestamp(1234567890123456789), event.Timestamp(1500000000000000000),
			event.String("\x00\u2028\"\\"), utf8Only(t, event.String("a\xffb\xc3")), event.String("<a href=\"x\">&</a>"), event.String(strings.Repeat("x", 300)), event.Bool(false), event.Bool(true),
			event.Array(), event.Array(event.NullValue, nil, event.Array()), event.Object(nil), event.Object(map[string]*event.Value{}), {Type: event.NullType},
			{Type: event.NullType, String: "left over", Bool: true, Integer: 7}, {Type: event.StringType, String: "s", Integer: 3, Float: 2, UnsignedInteger: 9, Bool: true, Timestamp: event.Time{UnixNanos: 5}},
			{Type: event.IntegerType, Integer: 0, String: "x", UnsignedInteger: 4}, {Type: event.UnsignedIntegerType, Integer: 5}, {Type: event.BoolType, Integer: 1}, {Type: event.ArrayType, String: "x", Object: map[string]*event.Value{"a": event.Bool(true)}},
		}
		v := vs[t.r.Intn(len(vs))]
		k := fmt.Sprintf("x%d", t.r.Intn(9))
		if t.chance(3) {
			k = "deep.er." + k
		}
		if t.chance(4) {
			v = event.Array(event.String("before"), v, event.Object(map[string]*event.Value{"in": v}))
		}
		t.logf("e.Put(%q, %s)", k, dump(v))
		e.Put(k, v)
	}
}

func namesOK(m map[string]*event.Value) bool {
	for k := range m {
		if !okName(k) {
			return false
		}
	}
	return true
}

func protobufs(t *T) {
	e := t.event()
	t.extremes(e)
	before := dumpEvent(e)
	want := content(&event.Value{Type: event.ObjectType, Object: root(e)})
	w := protobuf.FromEvent(e)
	if got := dumpEvent(e); got != before {
		t.fail("FromEvent leaves the event alone: "+before, "%s", got)
	}
	t.eval(before)
	t.logf("g := protobuf.ToLogEvent(protobuf.FromEvent(e).GetLog())")
	g := protobuf.ToLogEvent(w.GetLog())
	if len(root(e)) > 0 && namesOK(root(e)) {
		if g == nil {
			t.fail(want, "no event")
		}
		if got := dumpEvent(g); got != want {
			t.fail(want, "%s", got)
		}
	}
	b, err := w.Marshal()
	if err != nil {
		return
	}
	for i := 0; i < 8; i++ {
		c := append([]byte(nil), b...)
		for j := t.r.Intn(4); j > 0 && len(c) > 0; j-- {
			switch p := t.r.Intn(len(c)); t.r.Intn(3) {
			case 0:
				c[p] = byte(t.r.Intn(256))
			case 1:
				c = append(c[:p], c[p+1:]...)
			default:
				c[p] = byte([]int{0x0a, 0x12, 0x00, 0x08, 0x3a, 0x32}[t.r.Intn(6)])
			}
		}
		var m protobuf.MessageWrapper
		if m.Unmarshal(c) == nil {
			t.log = append(t.log, fmt.Sprintf("message decoded from %x converted", c))
			t.eval(string(c))
			protobuf.ToLogEvent(m.GetLog())
			t.log = t.log[:len(t.log)-1]
		}
	}
}

// plain is the Go value an event value stands for.
func plain(v *event.Value) interface{} {
	if v == nil {
		return nil
	}
	switch v.Type {
	case event.ArrayType:
		a := make([]interface{}, 0)
		for _, x := range v.Array {
			a = append(a, plain(x))
		}
		return a
	case event.ObjectType:
		m := map[string]interface{}{}
		for k, x := range v.Object {
			m[k] = plain(x)
		}
		return m
	case event.BoolType:
		return v.Bool
	case event.FloatType:
		return v.Float
	case event.IntegerType:
		return v.Integer
	case event.StringType:
		return v.String
	case event.TimestampType:
		return time.Unix(v.Timestamp.UnixNanos/1e9, v.Timestamp.UnixNanos%1e9).UTC()
	case event.UnsignedIntegerType:
		return v.UnsignedInteger
	}
	return nil
}

func (t *T) plainValue(d int) interface{} {
	switch t.r.Intn(10) {
	case 0:
		return nil
	case 1:
		return t.chance(2)
	case 2:
		return []int64{0, -1, 7, math.MinInt64, math.MaxInt64}[t.r.Intn(5)]
	case 3:
		return []uint64{0, 7, 1 << 63, math.MaxUint64}[t.r.Intn(4)]
	case 4:
		return []float64{0, 1, -2.5, math.MaxFloat64, math.Inf(1), 1e-300}[t.r.Intn(6)]
	case 5:
		return time.Unix(int64(t.r.Intn(4000000000))-1000000000, int64(t.r.Intn(1e9))).UTC()
	case 6:
		if d > 0 {
			a := []interface{}{}
			for i := t.r.Intn(4); i > 0; i-- {
				a = append(a, t.plainValue(d-1))
			}
			return a
		}
	case 7, 8:
		if d > 0 {
			return t.plainMap(d - 1)
		}
	}
	return t.pick("", "x", "a.b", "Ä", `back\slash`, ".")
}

func (t *T) plainMap(d int) map[string]interface{} {
	m := map[string]interface{}{}
	for i := t.r.Intn(5); i > 0; i-- {
		k := t.pick("a", "b", "c", "a.b", ".", "a.", "..", " ", "é", "0", "id")
		m[k] = t.plainValue(d)
	}
	return m
}

func plainMaps(t *T) {
	if t.chance(2) {
		e := t.event()
		t.extremes(e)
		before := dumpEvent(e)
		t.eval(before)
		got := mapinterface.FromEvent(e)
		t.logf("m := mapinterface.FromEvent(e)")
		want := plain(&event.Value{Type: event.ObjectType, Object: root(e)})
		if len(root(e)) == 0 && len(got) == 0 {
			return
		}
		if !reflect.DeepEqual(interface{}(got), want) {
			t.fail(fmt.Sprintf("%#v", want), "%#v", got)
		}
		if dumpEvent(e) != before {
			t.fail("FromEvent leaves the event alone: "+before, "%s", dumpEvent(e))
		}
		return
	}
	m := t.plainMap(3)
	t.logf("m := %#v", m)
	t.eval(fmt.Sprintf("%#v", m))
	e, err := mapinterface.ToEvent(m)
	if err != nil {
		t.fail("ToEvent(m) succeeds", "%v", err)
	}
	got := mapinterface.FromEvent(e)
	t.logf("mapinterface.FromEvent(mapinterface.ToEvent(m))")
	if len(m) == 0 && len(got) == 0 {
		return
	}
	if !reflect.DeepEqual(got, m) {
		t.fail(fmt.Sprintf("%#v", m), "%#v", got)
	}
}

type (
	nBool   bool
	nInt    int
	nInt8   int8
	nInt64  int64
	nUint8  uint8
	nUint   uint
	nUptr   uintptr
	nF32    float32
	nF64    float64
	nStr    string
	nMap    map[string]interface{}
	nMapI   map[int]string
	nSlice  []string
	nArr    [2]int8
	nTime   time.Time
	nChan   chan int
	nCplx   complex64
	nStrKey string
	nErr    struct{ S string }
	pErr    struct{ s string }
	strg    struct{ A int }
	hidden  struct {
		Shown   string
		secret  string
		Dash    int  `event:"-"`
		Renamed int  `event:"new.name"`
		Empty   int  `event:",omitempty"`
		Str     strg `event:"str,string"`
		P       *int
		Any     interface{}
		E       error
		T       time.Time
	}
)

func (e nErr) Error() string  { return "nErr " + e.S }
func (e *pErr) Error() string { return "pErr " + e.s }
func (s strg) String() string { return fmt.Sprintf("strg%d", s.A) }

type pair struct {
	v    interface{}
	want *event.Value // nil: an UnsupportedTypeError
}

func (t *T) i64() int64 {
	return []int64{0, 1, -1, 100, -128, 127, 255, 32767, -32768, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64}[t.r.Intn(13)]
}

func (t *T) scalar() pair {
	i := t.i64()
	f := []float64{0, 0.1, -2.5, math.MaxFloat64, 1 << 60, math.Inf(-1)}[t.r.Intn(6)]
	s := t.pick("", "x", "a.b", "ÄÖ", "\xff", `a\b`)
	tm := time.Unix(int64(t.r.Intn(4000000000))-1000000000, int64(t.r.Intn(1e9)))
	if t.chance(2) {
		tm = tm.In(time.FixedZone("X", 3600*5))
	}
	sf := strconv.FormatFloat(f, 'g', -1, 64)
	_ = sf
	I, U, F, S, B, T := event.Integer, event.UnsignedInteger, event.Float, event.String, event.Bool, event.Timestamp
	all := []pair{
		{i%2 == 0, B(i%2 == 0)}, {nBool(true), B(true)},
		{int(i), I(i)}, {int8(i), I(int64(int8(i)))}, {int16(i), I(int64(int16(i)))}, {int32(i), I(int64(int32(i)))}, {i, I(i)}, {nInt(i), I(i)}, {nInt8(i), I(int64(int8(i)))}, {nInt64(i), I(i)},
		{uint(i), U(uint64(i))}, {uint8(i), U(uint64(uint8(i)))}, {uint16(i), U(uint64(uint16(i)))}, {uint32(i), U(uint64(uint32(i)))}, {uint64(i), U(uint64(i))}, {uintptr(i), U(uint64(i))}, {nUint8(i), U(uint64(uint8(i)))}, {nUint(i), U(uint64(i))}, {nUptr(i), U(uint64(i))},
		{f, F(f)}, {float32(f), F(float64(float32(f)))}, {nF32(f), F(float64(float32(f)))}, {nF64(f), F(f)},
		{s, S(s)}, {nStr(s), S(s)}, {tm, T(tm.UnixNano())}, {nTime(tm), T(tm.UnixNano())}, {time.Duration(i), I(i)}, {time.Month(3), I(3)},
		{nil, event.NullValue}, {(*int)(nil), event.NullValue}, {(*nErr)(nil), event.NullValue}, {(*pErr)(nil), event.NullValue}, {(*hidden)(nil), event.NullValue}, {(**string)(nil), event.NullValue}, {(*time.Time)(nil), event.NullValue},
		{errors.New(s), S(s)}, {nErr{s}, S("nErr " + s)}, {&nErr{s}, S("nErr " + s)}, {&pErr{s}, S("pErr " + s)}, {fmt.Errorf("wrapped: %w", nErr{s}), S("wrapped: nErr " + s)},
		{make(chan int), nil}, {func() {}, nil}, {complex(1, 2), nil}, {nCplx(1), nil}, {(chan string)(nil), nil}, {(func())(nil), nil}, {nChan(nil), nil},
	}
	p := all[t.r.Intn(len(all))]
	if p.want == nil && !t.chance(4) {
		return pair{s, S(s)}
	}
	return p
}

func (t *T) goValue(d int) pair {
	k := t.r.Intn(14)
	if d <= 0 && k > 1 {
		k = 0
	}
	switch k {
	case 2, 3: // pointers
		p := t.goValue(d - 1)
		if p.v == nil {
			var x interface{}
			return pair{&x, event.NullValue}
		}
		q := reflect.New(reflect.TypeOf(p.v))
		q.Elem().Set(reflect.ValueOf(p.v))
		return pair{q.Interface(), p.want}
	case 4: // slices and arrays of one type
		p := t.goValue(d - 1)
		if p.v == nil {
			return pair{[]interface{}{nil}, event.Array(event.NullValue)}
		}
		n := t.r.Intn(3)
		typ := reflect.SliceOf(reflect.TypeOf(p.v))
		var a []*event.Value
		for i := 0; i < n; i++ {
			a = append(a, p.want)
		}
		w := event.Array(a...)
		if n > 0 && p.want == nil {
			w = nil
		}
		if t.chance(2) {
			s := reflect.New(reflect.ArrayOf(n, reflect.TypeOf(p.v))).Elem()
			for i := 0; i < n; i++ {
				s.Index(i).Set(reflect.ValueOf(p.v))
			}
			return pair{s.Interface(), w}
		}
		s := reflect.MakeSlice(typ, n, n)
		for i := 0; i < n; i++ {
			s.Index(i).Set(reflect.ValueOf(p.v))
		}
		return pair{s.Interface(), w}
	case 5: // []interface{}
		var v []interface{}
		var a []*event.Value
		bad := false
		for i := t.r.Intn(4); i > 0; i-- {
			p := t.goValue(d - 1)
			v, a, bad = append(v, p.v), append(a, p.want), bad || p.want == nil
		}
		if bad {
			return pair{v, nil}
		}
		return pair{v, event.Array(a...)}
	case 6, 7: // map[string]interface{}
		v, m, bad := map[string]interface{}{}, map[string]*event.Value{}, false
		for i := t.r.Intn(4); i > 0; i-- {
			p := t.goValue(d - 1)
			k := t.pick("a", "b", "a.b", "", `x\y`, "Key", " ")
			if w, ok := m[k]; ok && w == nil {
				continue
			}
			v[k], m[k], bad = p.v, p.want, bad || p.want == nil
		}
		for _, w := range m {
			bad = bad || w == nil
		}
		var r interface{} = v
		if t.chance(3) {
			r = nMap(v)
		}
		if bad {
			return pair{r, nil}
		}
		return pair{r, event.Object(m)}
	case 8: // other maps
		switch t.r.Intn(6) {
		case 0:
			return pair{map[int]string{-1: "x", 20: ""}, event.Object(map[string]*event.Value{"-1": event.String("x"), "20": event.String("")})}
		case 1:
			return pair{map[nStrKey]uint8{"A.b": 3}, event.Object(map[string]*event.Value{"A.b": event.UnsignedInteger(3)})}
		case 2:
			return pair{map[bool]*int{true: nil}, event.Object(map[string]*event.Value{"true": event.NullValue})}
		case 3:
			return pair{nMapI(nil), event.Object(map[string]*event.Value{})}
		case 4:
			p := t.goValue(d - 1)
			if p.want == nil {
				return pair{map[interface{}]interface{}{"k": p.v, 1: 2}, nil}
			}
			return pair{map[interface{}]interface{}{"k": p.v, 1: nil}, event.Object(map[string]*event.Value{"k": p.want, "1": event.NullValue})}
		default:
			return pair{map[string]string{"Upper.Case": "v", "": "e"}, event.Object(map[string]*event.Value{"Upper.Case": event.String("v"), "": event.String("e")})}
		}
	case 9: // a fixed struct
		p := t.goValue(d - 1)
		if p.want == nil {
			return p
		}
		x := 5
		h := hidden{Shown: "s", secret: "t", Dash: 1, Renamed: 2, Str: strg{3}, Any: p.v, T: time.Unix(1, 2)}
		m := map[string]*event.Value{"shown": event.String("s"), "new.name": event.Integer(2), "str": event.String("strg3"), "p": event.NullValue, "any": p.want, "e": event.NullValue, "t": event.Timestamp(1000000002)}
		if t.chance(2) {
			h.P, m["p"] = &x, event.Integer(5)
		}
		if t.chance(2) {
			h.Empty, m["empty"] = 1, event.Integer(1)
		}
		if t.chance(2) {
			h.E, m["e"] = nErr{"q"}, event.String("nErr q")
		}
		if t.chance(2) {
			return pair{&h, event.Object(m)}
		}
		return pair{h, event.Object(m)}
	case 10, 11: // a struct made of fields of any type
		n := t.r.Intn(4)
		var fs []reflect.StructField
		var vals []interface{}
		m, bad := map[string]*event.Value{}, false
		names := []string{"A", "Bc", "ID", "URL"}
		tags := []string{"", `event:""`, `event:"x.y"`, `event:"-"`, `event:",omitempty"`, `event:"om,omitempty"`, `json:"j"`, `event:"-,"`, `event:"A,other"`, `event:"s,string"`}
		for i := 0; i < n; i++ {
			p := t.goValue(d - 1)
			typ := reflect.TypeOf((*interface{})(nil)).Elem()
			if p.v != nil && !t.chance(4) {
				typ = reflect.TypeOf(p.v)
			}
			tag := tags[t.r.Intn(len(tags))]
			f := reflect.StructField{Name: names[i], Type: typ, Tag: reflect.StructTag(tag)}
			et := f.Tag.Get("event")
			if et == "-" {
				fs, vals = append(fs, f), append(vals, p.v)
				continue
			}
			parts := strings.Split(et, ",")
			name := strings.ToLower(f.Name)
			if parts[0] != "" {
				name = parts[0]
			}
			opt := strings.Join(parts[1:], ",")
			if _, dup := m[name]; dup {
				continue
			}
			if opt == "string" {
				if _, ok := p.v.(fmt.Stringer); !ok || p.want == nil || reflect.ValueOf(p.v).Kind() == reflect.Ptr {
					continue
				}
				m[name] = event.String(p.v.(fmt.Stringer).String())
				fs, vals = append(fs, f), append(vals, p.v)
				continue
			}
			fs, vals = append(fs, f), append(vals, p.v)
			if opt == "omitempty" && (p.v == nil || typ.Kind() != reflect.Interface && reflect.DeepEqual(p.v, reflect.Zero(typ).Interface())) {
				continue
			}
			m[name], bad = p.want, bad || p.want == nil
		}
		s := reflect.New(reflect.StructOf(fs)).Elem()
		for i, v := range vals {
			if v != nil {
				s.Field(i).Set(reflect.ValueOf(v))
			}
		}
		if bad {
			return pair{s.Interface(), nil}
		}
		return pair{s.Interface(), event.Object(m)}
	case 12:
		switch t.r.Intn(5) {
		case 0:
			return pair{nSlice{"a", ""}, event.Array(event.String("a"), event.String(""))}
		case 1:
			return pair{nArr{1, -2}, event.Array(event.Integer(1), event.Integer(-2))}
		case 2:
			return pair{[]byte{0, 255}, event.Array(event.UnsignedInteger(0), event.UnsignedInteger(255))}
		case 3:
			return pair{[]error{nErr{"z"}, nil}, event.Array(event.String("nErr z"), event.NullValue)}
		default:
			return pair{[]string(nil), event.Array()}
		}
	}
	return t.scalar()
}

func goValues(t *T) {
	p := t.goValue(3)
	t.logf("eventutil.ReflectValue(%T %#v)", p.v, p.v)
	t.eval(fmt.Sprintf("%T %#v", p.v, p.v))
	v, err := eventutil.ReflectValue(p.v)
	if p.want == nil {
		var u *eventutil.UnsupportedTypeError
		if !errors.As(err, &u) {
			t.fail("an UnsupportedTypeError", "%v, %v", v, err)
		}
		var o config.EventValue
		if err := o.Unpack(p.v); !errors.As(err, &u) {
			t.fail("Unpack returns an UnsupportedTypeError", "%v", err)
		}
		return
	}
	if err != nil {
		t.fail(dump(p.want), "error %v", err)
	}
	if dump(v) != dump(p.want) {
		t.fail(dump(p.want), "%s", dump(v))
	}
	// As the option of a processor, which may hold another value already.
	o := config.EventValue(*t.value(1))
	if err := o.Unpack(p.v); err != nil || dump((*event.Value)(&o)) != dump(p.want) {
		t.fail("Unpack stores "+dump(p.want), "%s, %v", dump((*event.Value)(&o)), err)
	}
}

// sameJSON says how the decoded JSON j differs from the value v.
func sameJSON(v *event.Value, j interface{}, at string) string {
	bad := func(want string) string { return fmt.Sprintf("at %q: want %s, got %#v", at, want, j) }
	if v == nil || v.Type == event.NullType {
		if j != nil {
			return bad("null")
		}
		return ""
	}
	switch v.Type {
	case event.ArrayType:
		a, ok := j.([]interface{})
		if !ok || len(a) != len(v.Array) {
			return bad(fmt.Sprintf("an array of %d", len(v.Array)))
		}
		for i := range a {
			if s := sameJSON(v.Array[i], a[i], fmt.Sprintf("%s[%d]", at, i)); s != "" {
				return s
			}
		}
	case event.ObjectType:
		m, ok := j.(map[string]interface{})
		if !ok {
			return bad("an object")
		}
		n := map[string]bool{}
		for k, x := range v.Object {
			u := strings.ToValidUTF8(k, "\ufffd")
			if u != k {
				return "" // names that are no text can coincide
			}
			y, ok := m[k]
			if !ok {
				return bad("a member " + k)
			}
			n[k] = true
			if s := sameJSON(x, y, at+"."+k); s != "" {
				return s
			}
		}
		if len(n) != len(m) {
			return bad(fmt.Sprintf("the members %v", n))
		}
	case event.BoolType:
		if j != v.Bool {
			return bad(fmt.Sprint(v.Bool))
		}
	case event.StringType:
		s, ok := j.(string)
		if !ok || strings.ToValidUTF8(v.String, "") == v.String && s != v.String {
			return bad(fmt.Sprintf("%q", v.String))
		}
	case event.TimestampType:
		s, ok := j.(string)
		g, err := time.Parse(time.RFC3339Nano, s)
		if !ok || err != nil || !strings.HasSuffix(s, "Z") || g.UnixNano() != v.Timestamp.UnixNanos {
			return bad(fmt.Sprintf("the time %d", v.Timestamp.UnixNanos))
		}
	default:
		n, ok := j.(json.Number)
		if !ok {
			return bad("a number")
		}
		switch v.Type {
		case event.IntegerType:
			if n.String() != strconv.FormatInt(v.Integer, 10) {
				return bad(fmt.Sprint(v.Integer))
			}
		case event.UnsignedIntegerType:
			if n.String() != strconv.FormatUint(v.UnsignedInteger, 10) {
				return bad(fmt.Sprint(v.UnsignedInteger))
			}
		case event.FloatType:
			if f, err := strconv.ParseFloat(n.String(), 64); err != nil || f != v.Float || math.Signbit(f) != math.Signbit(v.Float) {
				return bad(fmt.Sprint(v.Float))
			}
		}
	}
	return ""
}

func typeOfJSON(j interface{}) event.ValueType {
	switch j.(type) {
	case nil:
		return event.NullType
	case bool:
		return event.BoolType
	case float64:
		return event.FloatType
	case string:
		return event.StringType
	case []interface{}:
		return event.ArrayType
	}
	return event.ObjectType
}

func kindsOf(v *event.Value, j interface{}, at string) string {
	if v == nil {
		return at + ": no value"
	}
	if v.Type != typeOfJSON(j) {
		return fmt.Sprintf("%s: type %v for %#v", at, v.Type, j)
	}
	switch x := j.(type) {
	case []interface{}:
		if len(x) != len(v.Array) {
			return at + ": length"
		}
		for i := range x {
			if s := kindsOf(v.Array[i], x[i], fmt.Sprintf("%s[%d]", at, i)); s != "" {
				return s
			}
		}
	case map[string]interface{}:
		if len(x) != len(v.Object) {
			return at + ": members"
		}
		for k := range x {
			if s := kindsOf(v.Object[k], x[k], at+"."+k); s != "" {
				return s
			}
		}
	}
	return ""
}

func jsonValues(t *T) {
	if t.chance(2) {
		e := t.event()
		t.extremes(e)
		t.eval(dumpEvent(e))
		t.logf("json.Marshal(e)")
		b, err := json.Marshal(e)
		if err != nil {
			t.fail("e encodes", "%v", err)
		}
		d := json.NewDecoder(bytes.NewReader(b))
		d.UseNumber()
		var j interface{}
		if err := d.Decode(&j); err != nil {
			t.fail("JSON", "%s: %v", b, err)
		}
		if s := sameJSON(&event.Value{Type: event.ObjectType, Object: root(e)}, j, ""); s != "" {
			t.fail("the JSON of "+dumpEvent(e), "%s (%s)", b, s)
		}
		return
	}
	m := t.object(4)
	if t.chance(3) {
		m["n"] = []float64{0, 1, -1, 0.1, 1e300, 123456789, 9007199254740992, 9007199254740994, -9007199254740994, 1 << 60, -1 << 62, 1 << 63, 1 << 64, -5.5, 1e18, 1e21, 1e-7, 3000000000}[t.r.Intn(18)]
	}
	b, _ := json.Marshal(m)
	t.eval(string(b))
	e := event.New()
	if t.chance(3) {
		e.Put("old.field", event.String("x"))
		t.logf("e.Put(old.field)")
	}
	t.logf("json.Unmarshal(`%s`, e)", b)
	if err := json.Unmarshal(b, e); err != nil {
		t.fail("e decodes", "%v", err)
	}
	var want interface{}
	json.Unmarshal(b, &want)
	if s := kindsOf(&event.Value{Type: event.ObjectType, Object: root(e)}, want, ""); s != "" {
		t.fail("values of the types of the JSON", "%s", s)
	}
	c, err := json.Marshal(e)
	if err != nil {
		t.fail("e encodes", "%v", err)
	}
	t.logf("json.Marshal(e)")
	var got interface{}
	json.Unmarshal(c, &got)
	if !reflect.DeepEqual(got, want) {
		t.fail(string(b), "%s", c)
	}
}
