def H(pkg, *imports):
    return 'package %s\n\nimport (\n\t"testing"\n\n\t"github.com/andrewkroh/go-sawmill/pkg/event"\n%s)\n\ntype zzEvent struct{ *event.Event }\n\nfunc (zzEvent) Cancel() {}\nfunc (zzEvent) Drop()   {}\n\nfunc TestZZDemo(t *testing.T) {\n\te := event.New()\n' % (pkg, ''.join('\t"%s"\n' % i for i in imports))
P = 'pkg/processor/'
M = 'github.com/andrewkroh/go-sawmill/'
EU = 'pkg/eventutil/event.go'
PR = 'pkg/pipeline/processor.go'
BUGS = [
 dict(id='b20-set-object-shared', property='C14', pkg=P+'set', edits=[(P+'set/process.go', '''		v = (*event.Value)(&p.config.Value)
''', '''		if p.config.Value.Type == event.ObjectType && p.config.CopyFrom == "" {
			_, err := evt.Put(p.config.TargetField, event.Object(p.config.Value.Object))
			return err
		}
		v = (*event.Value)(&p.config.Value)
''')], demo=H('set', M+'pkg/config') + '''	c := Config{TargetField: "a"}
	c.Value = config.EventValue(*event.Object(map[string]*event.Value{"x": event.Integer(1)}))
	p, _ := New(c)
	if err := p.Process(zzEvent{e}); err != nil {
		t.Fatal(err)
	}
	e.Put("a.y", event.Integer(2))
	e2 := event.New()
	p.Process(zzEvent{e2})
	if e2.Get("a.x") == nil || e2.Get("a.y") != nil {
		t.Fatal("the events share the configured object")
	}
}
''', needs='a configured object, and an event that is changed after set ran', breaks='the configured object is shared by all events'),
 dict(id='b21-set-prefers-copy', property='C14', pkg=P+'set', edits=[(P+'set/process.go', '''	if p.config.Value.Type != event.NullType {
''', '''	if p.config.Value.Type != event.NullType && (p.config.CopyFrom == "" || evt.Get(p.config.CopyFrom) == nil) {
''')], demo=H('set', M+'pkg/config') + '''	c := Config{TargetField: "a", CopyFrom: "b"}
	c.Value = config.EventValue(*event.Integer(7))
	p, _ := New(c)
	e.Put("b", event.Integer(1))
	if err := p.Process(zzEvent{e}); err != nil {
		t.Fatal(err)
	}
	if v := e.Get("a"); v == nil || v.Integer != 7 {
		t.Fatal("the target does not hold the configured value")
	}
}
''', needs='both value and copy_from configured and the copied field present', breaks='the configured value is not stored'),
 dict(id='b22-append-wraps-object', property='C15', pkg=P+'append', edits=[(P+'append/process.go', '''		return errors.New("value to append to is not array")
''', '''		if len(v.Object) > 0 {
			return errors.New("value to append to is not array")
		}
		v = event.Array()
''')], demo=H('append') + '''	o := event.Object(map[string]*event.Value{})
	e.Put("a", o)
	p, _ := New(Config{Field: "a", Value: "x"})
	if err := p.Process(zzEvent{e}); err == nil || e.Get("a") != o {
		t.Fatal("append replaced an object")
	}
}
''', needs='an empty object at the field', breaks='append succeeds on an empty object and replaces it'),
 dict(id='b23-append-reset', property='C15', pkg=P+'append', edits=[(P+'append/process.go', '''		v = event.Array()
''', '''		v = &event.Value{Type: event.ArrayType, Array: p.fresh[:0]}
'''), (P+'append/append.go', '''import (
''', '''import (
	"github.com/andrewkroh/go-sawmill/pkg/event"
'''), (P+'append/append.go', '''	config Config
}
''', '''	config Config

	fresh []*event.Value // Backing array for new array values.
}
'''), (P+'append/append.go', '''	return &Append{config: config}, nil''', '''	return &Append{config: config, fresh: make([]*event.Value, 0, 4)}, nil''')], demo=H('append') + '''	p, _ := New(Config{Field: "a", Value: "x", AllowDuplicates: true})
	e2 := event.New()
	p.Process(zzEvent{e})
	old := e.Get("a").Array[0]
	p.Process(zzEvent{e2})
	if e.Get("a").Array[0] != old {
		t.Fatal("an element of another event was replaced")
	}
}
''', needs='two events for which the field is missing', breaks='all new arrays share one backing array, so an earlier event loses its element'),
 dict(id='b24-upper-title', property='C16', pkg=P+'uppercase', edits=[(P+'uppercase/process.go', 'strings.ToUpper(', 'strings.ToTitle(')], demo=H('uppercase') + '''	e.Put("a", event.String("ǆ"))
	p, _ := New(Config{Field: "a"})
	if err := p.Process(zzEvent{e}); err != nil || e.Get("a").String != "Ǆ" {
		t.Fatal("not upper case", err)
	}
}
''', needs='a letter whose title case differs from its upper case', breaks='title case instead of upper case'),
 dict(id='b25-lower-ascii', property='C16', pkg=P+'lowercase', edits=[(P+'lowercase/process.go', '''	out := strings.ToLower(v.String)
''', '''	var out string
	if v.String != "" && v.String[0] < utf8.RuneSelf {
		// Fast path.
		b := []byte(v.String)
		for i, c := range b {
			if 'A' <= c && c <= 'Z' {
				b[i] = c + 'a' - 'A'
			}
		}
		out = string(b)
	} else {
		out = strings.ToLower(v.String)
	}
'''), (P+'lowercase/process.go', '''	"strings"
''', '''	"strings"
	"unicode/utf8"
''')], demo=H('lowercase') + '''	e.Put("a", event.String("Aé ÄÉ"))
	p, _ := New(Config{Field: "a"})
	if err := p.Process(zzEvent{e}); err != nil || e.Get("a").String != "aé äé" {
		t.Fatal("not lower case", err)
	}
}
''', needs='a string that starts with an ASCII byte and has a non-ASCII upper-case letter', breaks='letters outside ASCII keep their case'),
 dict(id='b26-upper-fallback', property='C16', pkg=P+'uppercase', edits=[(P+'uppercase/process.go', '''	_, err := evt.Put(targetField, event.String(out))
''', '''	_, err := evt.Put(targetField, event.String(out))
	if errors.Is(err, event.ErrTargetKeyNotObject) && targetField != p.config.Field {
		// The target cannot hold the value so convert in place.
		_, err = evt.Put(p.config.Field, event.String(out))
	}
''')], demo=H('uppercase') + '''	e.Put("a", event.String("x"))
	e.Put("b", event.Integer(1))
	p, _ := New(Config{Field: "a", TargetField: "b.c"})
	if err := p.Process(zzEvent{e}); err == nil || e.Get("a").String != "x" {
		t.Fatal("an impossible target must be an error and change nothing", err)
	}
}
''', needs='a target below a non-object', breaks='an impossible target converts the source in place'),
 dict(id='b27-remove-config', property='C17', pkg=P+'remove', edits=[(P+'remove/remove.go', '''	return &Remove{config: config}, nil''', '''	// Parents are removed with their children.
	var fields []string
	for _, f := range config.Fields {
		covered := false
		for _, other := range config.Fields {
			if len(other) < len(f) && f[:len(other)] == other {
				covered = true
			}
		}
		if !covered {
			fields = append(fields, f)
		}
	}
	config.Fields = fields
	return &Remove{config: config}, nil''')], demo=H('remove') + '''	e.Put("a", event.Integer(1))
	e.Put("ab", event.Integer(1))
	p, _ := New(Config{Fields: []string{"a", "ab"}})
	if err := p.Process(zzEvent{e}); err != nil || e.Get("ab") != nil {
		t.Fatal("a configured field was not removed", err)
	}
}
''', needs='a configured field whose name starts with that of another configured field', breaks='such fields are not removed'),
 dict(id='b28-append-flatten-order', property='C24', pkg='pkg/eventutil', edits=[(EU, '''		targetValue = event.Array(targetValue)
''', '''		if item.Type == event.ArrayType && cap(item.Array) > len(item.Array) {
			// Use the room in the item.
			targetValue = event.Array(append(item.Array[:0:cap(item.Array)], targetValue)...)
		} else {
			targetValue = event.Array(targetValue)
		}
''')], demo=H('eventutil') + '''	a := make([]*event.Value, 0, 4)
	a = append(a, event.String("x"), event.String("y"))
	s := event.String("old")
	e.Put("a", s)
	if err := Append(e, "a", event.Array(a...)); err != nil {
		t.Fatal(err)
	}
	got := e.Get("a").Array
	if len(got) != 3 || got[0] != s || got[1].String != "x" || got[2].String != "y" {
		t.Fatal("items were lost")
	}
}
''', needs='a scalar at the key and an array item with spare capacity', breaks='the first item is overwritten by the previous value'),
 dict(id='b29-append-null-skipped', property='C24', pkg='pkg/eventutil', edits=[(EU, '''	if targetValue == nil {
''', '''	if targetValue == nil || targetValue.Type == event.NullType && item.Type == event.ArrayType {
''')], demo=H('eventutil') + '''	e.Put("a", event.NullValue)
	if err := Append(e, "a", event.Array(event.String("x"))); err != nil {
		t.Fatal(err)
	}
	if got := e.Get("a").Array; len(got) != 2 || got[0] != event.NullValue {
		t.Fatal("the previous value was lost")
	}
}
''', needs='null at the key and an array item', breaks='the previous null value is lost'),
]
