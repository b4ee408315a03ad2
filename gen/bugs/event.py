H = '''package event_test

import (
	"testing"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/eventutil"
)

var _ = eventutil.EscapeKey

func TestZZDemo(t *testing.T) {
	e := event.New()
'''
EV = 'pkg/event/event.go'
BUGS = [
 dict(id='b01-put-merges', property='C01', pkg='pkg/event', edits=[(EV, '''	m[path[len(path)-1]] = val
	return old, nil''', '''	last := path[len(path)-1]
	if cur := m[last]; cur != nil && len(cur.Object) > 0 && len(val.Object) > 0 {
		for name, field := range val.Object {
			cur.Object[name] = field
		}
		return old, nil
	}
	m[last] = val
	return old, nil''')],
  demo=H + '''	e.Put("a", event.Object(map[string]*event.Value{"x": event.Integer(1)}))
	v := event.Object(map[string]*event.Value{"y": event.Integer(2)})
	e.Put("a", v)
	if e.Get("a") != v || e.Get("a.x") != nil {
		t.Fatal("the value that was put is not read back")
	}
}
''', needs='an object put over a non-empty object', breaks='Put of an object over an existing object merges the two instead of storing the value'),
 dict(id='b03-tryput-null', property='C03', pkg='pkg/event', edits=[(EV, '''	if old != nil && !overwrite {''', '''	if old != nil && old.Type != NullType && !overwrite {''')],
  demo=H + '''	e.Put("a.b", event.NullValue)
	v, err := e.TryPut("a.b", event.Integer(1))
	if err == nil || v != event.NullValue || e.Get("a.b") != event.NullValue {
		t.Fatal("TryPut overwrote an existing null")
	}
}
''', needs='a field that holds null', breaks='TryPut overwrites an existing null value'),
 dict(id='b04-delete-null', property='C04', pkg='pkg/event', edits=[(EV, '''	v := e.get(path)
	if v != nil {''', '''	v := e.get(path)
	if v != nil && v.Type != NullType {''')],
  demo=H + '''	e.Put("a.b", event.NullValue)
	if e.Delete("a.b") == nil || e.Get("a.b") != nil {
		t.Fatal("the null field is still there")
	}
}
''', needs='a field that holds null', breaks='Delete reports a null field as deleted but leaves it in place'),
 dict(id='b05-escape-sticks', property='C05', pkg='pkg/event', edits=[(EV, '''			pathScratch = append(pathScratch, c)
			escape = false
''', '''			pathScratch = append(pathScratch, c)
''')],
  demo=H + '''	v := event.Integer(1)
	e.Put("a.b", v)
	if e.Get(`\\a.b`) != v {
		t.Fatal("a dot not preceded by a backslash did not split the key")
	}
}
''', needs='a backslash in front of a character that is not a dot, and a dot after it', breaks='a backslash escapes the next dot even when other characters are in between'),
 dict(id='b06-escape-first-dot', property='C06', pkg='pkg/event', edits=[('pkg/eventutil/event.go', '''	if strings.IndexByte(key, '.') == -1 {
		return key
	}
	return strings.ReplaceAll(key, ".", `\\.`)''', '''	i := strings.IndexByte(key, '.')
	if i == -1 {
		return key
	}
	if strings.LastIndexByte(key, '.') == i+1 {
		return key[:i] + `\\.` + key[i+1:]
	}
	return strings.ReplaceAll(key, ".", `\\.`)''')],
  demo=H + '''	v := event.Integer(1)
	for _, name := range []string{"a..b", "a.b.c", "a.", "."} {
		e = event.New()
		e.Put(eventutil.EscapeKey(name), v)
		if r := e.Get("."); r == nil || r.Object[name] != v {
			t.Fatalf("%q is not one segment", name)
		}
	}
}
''', needs='a name with exactly two dots next to each other', breaks='EscapeKey leaves the second of two adjacent dots unescaped'),
 dict(id='b07-delete-root', property='C07', pkg='pkg/event', edits=[(EV, '''	if len(path) == 0 || len(e.fields) == 0 {
		return nil
	}
''', '''	if len(e.fields) == 0 {
		return nil
	}
''')],
  demo=H + '''	e.Put("a", event.Integer(1))
	e.Delete("..")
	e.Delete("")
}
''', needs='Delete of a key without segments on a non-empty event', breaks='Delete panics for a key without segments'),
 dict(id='b08-get-shortcut', property='C05', pkg='pkg/event', edits=[(EV, '''func (e *Event) Get(key string) *Value {
''', '''func (e *Event) Get(key string) *Value {
	if v, found := e.fields[key]; found && key != "" {
		return v // Not nested, no need to split the key.
	}
''')],
  demo=H + '''	e.Put(`a\\\\.b`, event.Integer(1))
	e.Put("a.b", event.Integer(2))
	if v := e.Get("a.b"); v == nil || v.Integer != 2 {
		t.Fatal("a.b is read from the field with a dot in its name")
	}
}
''', needs='a root field whose name contains a dot next to a nested field of the same path', breaks='Get looks the unsplit key up in the root object first'),
 dict(id='b09-put-keeps-old-on-same-type', property='C02', pkg='pkg/event', edits=[(EV, '''	m[path[len(path)-1]] = val
	return old, nil''', '''	m[path[len(path)-1]] = val
	if val.Type == NullType && len(m) > 8 {
		// Do not let cleared fields pile up.
		for name, field := range m {
			if field != val && field != nil && field.Type == NullType {
				delete(m, name)
			}
		}
	}
	return old, nil''')],
  demo=H + '''	for _, k := range []string{"a", "b", "c", "d", "e", "f", "g", "h"} {
		e.Put("o."+k, event.Integer(1))
	}
	other := &event.Value{Type: event.NullType}
	e.Put("o.n", other)
	e.Put("o.m", event.NullValue)
	if e.Get("o.n") != other {
		t.Fatal("another field disappeared")
	}
}
''', needs='an object of more than eight fields, one null, and a Put of null', breaks='Put of null removes the other null fields of a large object'),
]
