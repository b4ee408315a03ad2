package main

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/andrewkroh/go-sawmill/pkg/config"
	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/eventutil"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
	pappend "github.com/andrewkroh/go-sawmill/pkg/processor/append"
	"github.com/andrewkroh/go-sawmill/pkg/processor/lowercase"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"
	"github.com/andrewkroh/go-sawmill/pkg/processor/remove"
	"github.com/andrewkroh/go-sawmill/pkg/processor/set"
	"github.com/andrewkroh/go-sawmill/pkg/processor/uppercase"
)

func init() {
	searches["C14"] = setCopies
	searches["C15"] = appends
	searches["C16"] = cases
	searches["C17"] = removes
	searches["C24"] = appends24
	rules["C14"] = "random set processors (values of every kind, copy_from) run on several random events; results are modified afterwards and configuration, other fields and other events compared"
	rules["C15"] = "random append processors run several times on random events; array contents compared with the property"
	rules["C16"] = "random lowercase/uppercase processors on random events with strings of many scripts; contents and errors compared with strings.ToLower/ToUpper"
	rules["C17"] = "random remove processors on random events; contents and errors compared with the property"
	rules["C24"] = "sequences of eventutil.Append on random events; array contents compared with the property"
}

// procEvent is an event as a processor sees it.
type procEvent struct{ *event.Event }

func (procEvent) Cancel() {}
func (procEvent) Drop()   {}

// somekey picks a key: often one that exists.
func (t *T) somekey(e *event.Event) string {
	if t.chance(3) {
		return t.key()
	}
	s := snapshot(e)
	var ks []string
	for q, f := range s {
		ok := true
		for _, x := range f.path {
			ok = ok && x != "" && !strings.Contains(x, `\`)
		}
		if ok {
			ks = append(ks, q)
		}
	}
	if len(ks) == 0 {
		return t.key()
	}
	sort.Strings(ks)
	f := s[ks[t.r.Intn(len(ks))]]
	p := append([]string{}, f.path...)
	if t.chance(6) {
		p = append(p, t.seg())
	}
	return joinKey(p)
}

// mutable collects everything of a value that can be written through.
func mutable(v *event.Value, m map[interface{}]string, at string) {
	if v == nil {
		return
	}
	m[v] = at
	if cap(v.Array) > 0 {
		a := v.Array[:cap(v.Array)]
		for i := range a {
			m[&a[i]] = at
		}
		for i, x := range v.Array {
			mutable(x, m, fmt.Sprintf("%s[%d]", at, i))
		}
	}
	if v.Object != nil {
		m[reflect.ValueOf(v.Object).Pointer()] = at
		for k, x := range v.Object {
			mutable(x, m, at+"."+k)
		}
	}
}

func isMissing(err error) (string, bool) {
	var k processor.ErrorKeyMissing
	if errors.As(err, &k) {
		return k.Key, true
	}
	return "", false
}

func (t *T) writable(e *event.Event, key string) bool {
	p := splitKey(key)
	return len(p) > 0 && !blockedAt(e, p)
}

func setCopies(t *T) {
	c := set.Config{TargetField: t.key(), IgnoreMissing: t.chance(3)}
	var conf *event.Value
	if t.chance(3) {
		c.CopyFrom = t.key()
	} else {
		conf = t.value(3)
		c.Value = config.EventValue(*conf)
		if t.chance(4) {
			c.CopyFrom = t.key()
		}
	}
	evts := []*event.Event{t.event(), t.event()}
	if t.chance(2) {
		c.TargetField = t.somekey(evts[0])
	}
	if c.CopyFrom != "" && t.chance(2) {
		c.CopyFrom = t.somekey(evts[0])
	}
	if c.CopyFrom != "" && len(splitKey(c.CopyFrom)) == 0 {
		c.CopyFrom = "a"
	}
	t.logf("set target %q from %q value %s", c.TargetField, c.CopyFrom, dump(conf))
	p, err := set.New(c)
	if err != nil {
		t.fail("New succeeds", "%v", err)
	}
	if c.CopyFrom == "" && t.chance(3) {
		conf = t.optionValue(3)
		t.logf("built by the registry with value %s", dump(conf))
		x, err := registry.NewProcessor("set", map[string]interface{}{"target_field": c.TargetField, "ignore_missing": c.IgnoreMissing, "value": plain(conf)})
		if err != nil {
			t.fail("NewProcessor succeeds", "%v", err)
		}
		p = x.(*set.Set)
		v := p.Config().Value
		if got := dump((*event.Value)(&v)); got != dump(conf) {
			t.fail("configured value "+dump(conf), "%s", got)
		}
	}
	confText := dump(conf)
	seen := map[interface{}]string{}
	if conf != nil {
		x := p.Config().Value
		mutable((*event.Value)(&x), seen, "configuration")
	}
	path := splitKey(c.TargetField)
	for n, e := range evts {
		before := snapshot(e)
		text := dumpEvent(e)
		src := conf
		if conf == nil || conf.Type == event.NullType {
			src = nil
			if c.CopyFrom != "" {
				src = at(e, splitKey(c.CopyFrom))
			}
		}
		want := dump(src)
		ok := t.writable(e, c.TargetField)
		err := p.Process(procEvent{e})
		t.eval(fmt.Sprint(c.TargetField, c.CopyFrom, confText, text))
		t.logf("event %s", text)
		missing := (conf == nil || conf.Type == event.NullType) && c.CopyFrom != "" && (src == nil || src.Type == event.NullType && c.IgnoreMissing)
		if missing {
			k, is := isMissing(err)
			if !is || k != c.CopyFrom {
				t.fail("a missing-key error for "+c.CopyFrom, "%v", err)
			}
			t.sameExcept(before, snapshot(e), nil, false)
			continue
		}
		if src == nil {
			if dumpEvent(e) != text {
				t.fail("no change", "%s", dumpEvent(e))
			}
			continue
		}
		if ok != (err == nil) {
			t.fail(fmt.Sprintf("success: %v", ok), "%v", err)
		}
		if err != nil {
			t.sameExcept(before, snapshot(e), nil, false)
			continue
		}
		got := at(e, path)
		if dump(got) != want {
			t.fail(fmt.Sprintf("event %d: field holds %s", n, want), "%s", dump(got))
		}
		mine := map[interface{}]string{}
		mutable(got, mine, "result")
		for x := range mine {
			if o, ok := seen[x]; ok {
				t.fail("a deep copy", "%s of event %d is shared with %s", mine[x], n, o)
			}
			seen[x] = fmt.Sprintf("event %d", n)
		}
		for k, f := range snapshot(e) {
			if isUnder(path, f.path) || isUnder(f.path, path) {
				continue
			}
			if o, ok := mine[f.ptr]; ok && f.ptr != nil {
				t.fail("a deep copy", "field %q is shared with %s", k, o)
			}
			if f.ptr != nil && f.ptr.Type == event.ArrayType {
				other := map[interface{}]string{}
				mutable(f.ptr, other, k)
				for x := range other {
					if o, ok := mine[x]; ok {
						t.fail("a deep copy", "field %q is shared with %s", k, o)
					}
				}
			}
		}
		// what happens to this event later must not matter
		scribble(got)
		if x := p.Config().Value; conf != nil && dump((*event.Value)(&x)) != confText {
			t.fail("configuration stays "+confText, "%s", dump((*event.Value)(&x)))
		}
	}
}

// built is p, or now and then a processor that the registry builds from the same
// options, of which those that are defaults may be left out.
func (t *T) built(p processor.Processor, name string, opts map[string]interface{}) processor.Processor {
	if !t.chance(3) {
		return p
	}
	for _, k := range []string{"value", "target_field", "allow_duplicates", "ignore_missing"} {
		if (opts[k] == "" || opts[k] == false) && t.chance(2) {
			delete(opts, k)
		}
	}
	t.logf("built by the registry from %v", opts)
	q, err := registry.NewProcessor(name, opts)
	if err != nil {
		t.fail("NewProcessor succeeds", "%v", err)
	}
	return q
}

// optionValue makes a value that go-ucfg passes on as it is.
func (t *T) optionValue(d int) *event.Value {
	k := t.r.Intn(6)
	if d <= 0 && k < 2 {
		k = 2
	}
	switch k {
	case 0:
		var a []*event.Value
		for n := t.size(3) + 1; n > 0; n-- {
			a = append(a, t.optionValue(d-1))
		}
		return event.Array(a...)
	case 1:
		m := map[string]*event.Value{}
		for n := t.size(3) + 1; n > 0; n-- {
			m[t.pick("a", "b", "c d", "Key", "x_y")] = t.optionValue(d - 1)
		}
		return event.Object(m)
	case 2:
		return event.Bool(t.chance(2))
	case 3:
		return event.Integer(-1 - int64(t.r.Intn(1000)))
	case 4:
		return event.Float(float64(t.r.Intn(99))/8 + 0.0625)
	}
	return event.String(t.pick("x", "Hello", "ÄÖ", "a.b", "line\n", "ns", "2020-01-01"))
}

// scribble modifies a value and all it holds.
func scribble(v *event.Value) {
	if v == nil {
		return
	}
	for _, x := range v.Array {
		scribble(x)
	}
	for _, x := range v.Object {
		scribble(x)
	}
	v.String, v.Integer = "scribbled", -1
	for i := range v.Array {
		v.Array[i] = event.String("scribbled")
	}
	if v.Array != nil {
		_ = append(v.Array, event.String("scribbled"))
	}
	if v.Object != nil {
		v.Object["scribbled"] = event.String("scribbled")
	}
}

// check15 compares the field with what append should have made of it.
func (t *T) checkArray(e *event.Event, p []string, had *event.Value, hadElems []*event.Value, added []string) {
	got := at(e, p)
	if got == nil || got.Type != event.ArrayType {
		t.fail("an array", "%s", dump(got))
	}
	if len(got.Array) != len(hadElems)+len(added) {
		t.fail(fmt.Sprintf("%d+%d elements", len(hadElems), len(added)), "%s", dump(got))
	}
	for i, x := range hadElems {
		if got.Array[i] != x {
			t.fail(fmt.Sprintf("element %d is kept: %s", i, dump(x)), "%s", dump(got))
		}
	}
	for i, x := range added {
		if dump(got.Array[len(hadElems)+i]) != x {
			t.fail(fmt.Sprintf("element %d is %s", len(hadElems)+i, x), "%s", dump(got))
		}
	}
}

// roomy gives arrays of the event spare capacity, as decoding and appending do.
func (t *T) roomy(e *event.Event) {
	for _, f := range snapshot(e) {
		if f.ptr != nil && f.ptr.Type == event.ArrayType && t.chance(2) {
			a := make([]*event.Value, len(f.ptr.Array), len(f.ptr.Array)+3)
			copy(a, f.ptr.Array)
			f.ptr.Array = a
		}
	}
}

func appends(t *T) {
	evts := []*event.Event{t.event(), t.event()}
	c := pappend.Config{Field: t.somekey(evts[0]), AllowDuplicates: t.chance(2), IgnoreMissing: t.chance(3), Value: t.pick("", "x", "Hello", "a.b", "y")}
	if len(splitKey(c.Field)) == 0 {
		c.Field = "a"
	}
	t.logf("append %+v", c)
	var p processor.Processor
	p, _ = pappend.New(c)
	p = t.built(p, "append", map[string]interface{}{"field": c.Field, "value": c.Value, "allow_duplicates": c.AllowDuplicates, "ignore_missing": c.IgnoreMissing})
	path := splitKey(c.Field)
	var shown [2]func()
	for n := 0; n < 6; n++ {
		e := evts[n%2]
		if n < 2 {
			t.roomy(e)
		}
		before, text := snapshot(e), dumpEvent(e)
		had := at(e, path)
		var elems []*event.Value
		switch {
		case had == nil || had.Type == event.NullType:
		case had.Type == event.ArrayType:
			elems = append(elems, had.Array...)
		default:
			elems = []*event.Value{had}
		}
		ok := t.writable(e, c.Field) && !(had != nil && had.Type == event.ObjectType)
		skip := c.IgnoreMissing && (had == nil || had.Type == event.NullType)
		var added []string
		dup := false
		for _, x := range elems {
			dup = dup || x != nil && x.Type == event.StringType && x.String == c.Value
		}
		if c.AllowDuplicates || !dup {
			added = []string{fmt.Sprintf("%q", c.Value)}
		}
		err := p.Process(procEvent{e})
		t.eval(fmt.Sprint(c, text))
		t.logf("event %s", text)
		if skip {
			if err != nil {
				t.fail("nothing happens", "%v", err)
			}
			t.sameExcept(before, snapshot(e), nil, false)
			continue
		}
		if ok != (err == nil) {
			t.fail(fmt.Sprintf("success: %v", ok), "%v", err)
		}
		if err != nil {
			t.sameExcept(before, snapshot(e), nil, false)
			continue
		}
		t.checkArray(e, path, had, elems, added)
		t.sameExcept(before, snapshot(e), path, true)
		kept := append([]*event.Value{}, at(e, path).Array...)
		if p := shown[n%2]; p != nil {
			p()
		}
		shown[1-n%2] = func() { // checked once the other event is processed
			t.checkArray(e, path, nil, kept, nil)
		}
	}
}

func appends24(t *T) {
	e := t.event()
	t.roomy(e)
	// Array values that are held elsewhere and appended more than once.
	var held []*event.Value
	for n := t.r.Intn(3); n > 0; n-- {
		a := make([]*event.Value, 0, 8)
		for k := t.r.Intn(4); k > 0; k-- {
			a = append(a, t.value(1))
		}
		held = append(held, event.Array(a...))
		held[len(held)-1].Array = a
	}
	for n := 1 + t.r.Intn(8); n > 0; n-- {
		key := t.somekey(e)
		if len(splitKey(key)) == 0 && t.chance(5) {
			key = "a"
		}
		var item *event.Value
		if !t.chance(10) {
			item = t.value(2)
			if len(held) > 0 && t.chance(2) {
				item = held[t.r.Intn(len(held))]
			}
		}
		var texts []string
		var others [][]*event.Value
		for _, x := range held {
			texts = append(texts, dump(x))
			others = append(others, append([]*event.Value{}, x.Array[:cap(x.Array)]...))
		}
		path := splitKey(key)
		before, text := snapshot(e), dumpEvent(e)
		had := at(e, path)
		var elems []*event.Value
		switch {
		case had == nil:
		case had.Type == event.ArrayType:
			elems = append(elems, had.Array...)
		default:
			elems = []*event.Value{had}
		}
		ok := t.writable(e, key)
		var items []*event.Value
		if item != nil && item.Type == event.ArrayType {
			items = append(items, item.Array...)
		} else if item != nil {
			items = append(items, item)
		}
		t.logf("event %s: Append(%q, %s)", text, key, dump(item))
		err := eventutil.Append(e, key, item)
		t.eval(fmt.Sprint(key, text, dump(item)))
		for i, x := range held {
			if got := dump(x); got != texts[i] {
				t.fail("an appended array value stays as it is: "+texts[i], "%s", got)
			}
			for j, y := range x.Array[:cap(x.Array)] {
				if y != others[i][j] {
					t.fail("nothing is written to the array of an appended value", "element %d of %d (capacity %d) changed", j, len(x.Array), cap(x.Array))
				}
			}
		}
		if item == nil {
			if err != nil {
				t.fail("nothing happens", "%v", err)
			}
			t.sameExcept(before, snapshot(e), nil, false)
			continue
		}
		if ok != (err == nil) {
			t.fail(fmt.Sprintf("success: %v", ok), "%v", err)
		}
		if err != nil {
			t.sameExcept(before, snapshot(e), nil, false)
			continue
		}
		t.checkArray(e, path, had, append(elems, items...), nil)
		t.sameExcept(before, snapshot(e), path, true)
	}
}

var texts = []string{"", "Hello", "hello", "HELLO", "ÄÖÜ straße", "ǅ Σ ς İ ı", "ΑΒΓ αβγ", "mixed 123 _-", "\xff\xfeAb", "日本語 Ab", "ﬁ", "A", "Aé ÄÉ", "x Ñ ñ Z", "ǆ ǅ Ǆ"}

func cases(t *T) {
	upper := t.chance(2)
	evts := []*event.Event{t.event(), t.event()}
	for _, e := range evts {
		for i := t.r.Intn(3); i > 0; i-- {
			k, s := t.key(), texts[t.r.Intn(len(texts))]
			t.logf("Put(%q, %q)", k, s)
			e.Put(k, event.String(s))
		}
	}
	field, target := t.somekey(evts[0]), ""
	if t.chance(2) {
		target = t.somekey(evts[0])
	}
	if len(splitKey(field)) == 0 {
		field = "a"
	}
	var p processor.Processor
	conv := strings.ToLower
	if upper {
		conv = strings.ToUpper
		p, _ = uppercase.New(uppercase.Config{Field: field, TargetField: target, IgnoreMissing: t.chance(3)})
		p = t.built(p, "uppercase", map[string]interface{}{"field": field, "target_field": target, "ignore_missing": t.chance(3)})
	} else {
		p, _ = lowercase.New(lowercase.Config{Field: field, TargetField: target, IgnoreMissing: t.chance(3)})
		p = t.built(p, "lowercase", map[string]interface{}{"field": field, "target_field": target, "ignore_missing": t.chance(3)})
	}
	t.logf("upper %v field %q target %q", upper, field, target)
	dst := field
	if target != "" {
		dst = target
	}
	for _, e := range evts {
		before, text := snapshot(e), dumpEvent(e)
		src := at(e, splitKey(field))
		ok := src != nil && src.Type == event.StringType && t.writable(e, dst)
		none := src == nil || src.Type == event.NullType
		want := ""
		if ok {
			want = fmt.Sprintf("%q", conv(src.String))
		}
		err := p.Process(procEvent{e})
		t.eval(fmt.Sprint(upper, field, target, text))
		t.logf("event %s", text)
		if ok != (err == nil) {
			t.fail(fmt.Sprintf("success: %v", ok), "%v", err)
		}
		if k, is := isMissing(err); is != none || none && k != field {
			t.fail(fmt.Sprintf("missing-key error: %v", none), "%v", err)
		}
		if err != nil {
			t.sameExcept(before, snapshot(e), nil, false)
			continue
		}
		if got := at(e, splitKey(dst)); dump(got) != want {
			t.fail("the field holds "+want, "%s", dump(got))
		}
		t.sameExcept(before, snapshot(e), splitKey(dst), true)
	}
}

func removes(t *T) {
	evts := []*event.Event{t.event(), t.event()}
	c := remove.Config{IgnoreMissing: t.chance(2)}
	for i := t.size(6); i > 0; i-- {
		k := t.somekey(evts[0])
		if len(splitKey(k)) == 0 && !t.chance(4) {
			k = "a"
		}
		c.Fields = append(c.Fields, k)
	}
	t.logf("remove %q ignore_missing %v", c.Fields, c.IgnoreMissing)
	var p processor.Processor
	p, _ = remove.New(c)
	usable := len(c.Fields) > 0
	for _, k := range c.Fields {
		usable = usable && k != ""
	}
	if usable {
		p = t.built(p, "remove", map[string]interface{}{"fields": c.Fields, "ignore_missing": c.IgnoreMissing})
	}
	for _, e := range evts {
		// the oracle removes from a list of the paths that are left
		left := snapshot(e)
		text := dumpEvent(e)
		stop := ""
		stopped := false
		for _, f := range c.Fields {
			path := splitKey(f)
			_, ok := left[strings.Join(path, "\x00")]
			if len(path) == 0 || ok && left[strings.Join(path, "\x00")].ptr == nil {
				ok = false
			}
			if !ok {
				if !c.IgnoreMissing {
					stop, stopped = f, true
					break
				}
				continue
			}
			for k, g := range left {
				if isUnder(path, g.path) {
					delete(left, k)
				}
			}
		}
		err := p.Process(procEvent{e})
		t.eval(fmt.Sprint(c, text))
		t.logf("event %s", text)
		k, is := isMissing(err)
		if stopped != (err != nil) || is != stopped || k != stop {
			t.fail(fmt.Sprintf("missing field %q: %v", stop, stopped), "%v", err)
		}
		after := snapshot(e)
		for _, f := range left {
			a, ok := after[strings.Join(f.path, "\x00")]
			if !ok || a.ptr != f.ptr || a.text != f.text {
				if ok || f.ptr != nil {
					t.fail("other fields unchanged", "field %q: %s became %s", f.path, f.text, a.text)
				}
			}
		}
		for k, a := range after {
			if _, ok := left[k]; !ok && a.ptr != nil {
				t.fail("every present field is removed", "field %q is left: %s", a.path, a.text)
			}
		}
	}
}
