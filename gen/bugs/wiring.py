"""Bugs beside the main functions: error matching, option unpacking, the package's
own registry, what becomes of the values that an operation replaces."""
import os, runpy
_d = os.path.dirname(os.path.abspath(__file__))
EV, ER, CF, RG = 'pkg/event/event.go', 'pkg/processor/error.go', 'pkg/config/config.go', 'pkg/processor/registry/registry.go'
L = runpy.run_path(_d + '/later.py')
R = L['R']
HP = runpy.run_path(_d + '/pipeline.py')['H']
def T(pkg, imports, body):
    return 'package %s\n\nimport (\n%s)\n\nfunc TestZZDemo(t *testing.T) {\n%s}\n' % (pkg, ''.join('\t"%s"\n' % i for i in ['testing'] + imports), body)
E = 'github.com/andrewkroh/go-sawmill/pkg/event'
BUGS = [
 dict(id='b74-missing-wildcard', property='C09', pkg='pkg/pipeline', edits=[(ER, "\treturn ok\n", "\t// A wildcard that matched nothing is no missing key.\n\treturn ok && (len(e.Key) < 2 || e.Key[len(e.Key)-1] != '*')\n")],
  demo=HP + '''	zzDo["a"] = func(processor.Event) error { return fmt.Errorf("outer: %w", processor.ErrorKeyMissing{Key: "a.*"}) }
	pipe, err := New(&Config{ID: "p", Processors: []ProcessorConfig{zz("a", map[string]interface{}{"ignore_missing": true})}})
	if err != nil {
		t.Fatal(err)
	}
	if out, err := pipe.Process(e); err != nil || out == nil {
		t.Fatal(out, err)
	}
}
''', needs='a missing key that ends with an asterisk', breaks='ignore_missing does not swallow its error'),
 dict(id='b75-unpack-keeps', property='C20', pkg='pkg/config', edits=[(CF, '''	value, err := eventutil.ReflectValue(ifc)
''', '''	if ifc == nil {
		return nil
	}
	value, err := eventutil.ReflectValue(ifc)
''')], demo=T('config', [E], '''	v := EventValue(*event.String("old"))
	if err := v.Unpack(nil); err != nil || v.Type != event.NullType {
		t.Fatal(v, err)
	}
'''), needs='an option that holds a value and is set to null', breaks='the option keeps its value'),
 dict(id='b76-registry-cache', property='C22', pkg='pkg/processor/registry', edits=[(RG, '''	return constructors.NewProcessor(name, config)
''', '''	if len(config) > 0 {
		return constructors.NewProcessor(name, config)
	}
	if p, found := defaults[name]; found {
		return p, nil
	}
	p, err := constructors.NewProcessor(name, config)
	if err == nil {
		defaults[name] = p
	}
	return p, err
'''), (RG, '''var constructors = NewRegistry()
''', '''var constructors = NewRegistry()

// defaults holds the processors built with default options.
var defaults = map[string]processor.Processor{}
''')], demo=R + '''	_ = r
	n := 0
	MustRegister("zz", func(c zzConf) (*zzProc, error) { n++; return &zzProc{c}, nil })
	a, _ := NewProcessor("zz", nil)
	b, _ := NewProcessor("zz", map[string]interface{}{})
	if n != 3 || a == b {
		t.Fatal(n)
	}
}
''', needs='two constructions without options through the package', breaks='they share one processor'),
 dict(id='b77-delete-prunes', property='C04', pkg='pkg/event', edits=[(EV, '''	return e.delete(keyToPath(key))
''', '''	path := keyToPath(key)
	deleted = e.delete(path)
	if n := len(path); deleted != nil && n > 2 {
		// Do not leave an empty object behind.
		if parent := e.get(path[:n-1]); parent != nil && len(parent.Object) == 0 {
			e.delete(path[:n-1])
		}
	}
	return deleted
''')], demo=T('event', [], '''	e := New()
	e.Put("a.b.c", Bool(true))
	e.Delete("a.b.c")
	if e.Get("a.b") == nil {
		t.Fatal("a.b is gone")
	}
'''), needs='the last field of an object two levels down', breaks='the object disappears with it'),
 dict(id='b78-tryput-empty-object', property='C03', pkg='pkg/event', edits=[(EV, '''	if old != nil && !overwrite {
''', '''	if old != nil && !overwrite && !(old.Type == ObjectType && len(old.Object) == 0) {
''')], demo=T('event', [], '''	e := New()
	e.Put("a", Object(nil))
	if _, err := e.TryPut("a", Bool(true)); err == nil {
		t.Fatal("overwritten")
	}
'''), needs='an empty object at the key', breaks='TryPut replaces it'),
 dict(id='b79-put-equal-string', property='C01', pkg='pkg/event', edits=[(EV, '''	m := e.fields
	for _, key := range path[:len(path)-1] {
		inner, found := m[key]
		if found && inner != nil {
''', '''	if old != nil && old.Type == StringType && val.Type == StringType && old.String == val.String {
		return old, nil
	}

	m := e.fields
	for _, key := range path[:len(path)-1] {
		inner, found := m[key]
		if found && inner != nil {
''')], demo=T('event', [], '''	e := New()
	e.Put("a", String("x"))
	v := String("x")
	e.Put("a", v)
	if e.Get("a") != v {
		t.Fatal("not the value that was put")
	}
'''), needs='a string put over an equal string', breaks='Get returns the old value, not the one that was put'),
 dict(id='b80-put-empties-old', property='C02', pkg='pkg/event', edits=[(EV, '''	m[path[len(path)-1]] = val
	return old, nil
''', '''	m[path[len(path)-1]] = val
	if n := len(m); n > 16 && val.Type == NullType {
		// Large objects drop their nulls.
		for k, v := range m {
			if v != nil && v.Type == NullType && v != val {
				delete(m, k)
			}
		}
	}
	return old, nil
''')], demo=T('event', ['strconv'], '''	e := New()
	for i := 0; i < 20; i++ {
		e.Put("f"+strconv.Itoa(i), &Value{})
	}
	for i := 0; i < 20; i++ {
		if e.Get("f"+strconv.Itoa(i)) == nil {
			t.Fatal(i)
		}
	}
'''), needs='an object of more than sixteen fields and a Put of null', breaks='the other nulls of the object disappear'),
 dict(id='b81-decode-merges', property='C21', pkg='pkg/event', edits=[(EV, '''	var fields map[string]*Value
	if err''', '''	fields := e.fields
	if err''')], demo=T('event', ['encoding/json'], '''	e := New()
	json.Unmarshal([]byte(`{"a":1}`), e)
	json.Unmarshal([]byte(`{"b":2}`), e)
	if b, _ := json.Marshal(e); string(b) != `{"b":2}` {
		t.Fatal(string(b))
	}
'''), needs='an event that is decoded twice', breaks='the fields of the first document stay'),

 dict(id='b82-wrapper-tryput', property='C03', pkg='pkg/pipeline', edits=[('pkg/pipeline/event.go', '''	return e.data.TryPut(key, v)
''', '''	if old := e.data.Get(key); v != nil && old != nil && old.Type != event.NullType {
		return old, event.ErrKeyExists
	}
	return e.data.Put(key, v)
''')], demo=T('pipeline', ['github.com/andrewkroh/go-sawmill/pkg/event'], '''	e := event.New()
	null := &event.Value{}
	e.Put("a", null)
	pe := &pipelineEvent{data: e}
	if old, err := pe.TryPut("a", event.Bool(true)); err == nil || old != null {
		t.Fatal("overwritten")
	}
'''), needs='a processor that calls TryPut where a null is', breaks='the null is overwritten'),
 dict(id='b83-wrapper-put-stopped', property='C01', pkg='pkg/pipeline', edits=[('pkg/pipeline/event.go', '''	return e.data.Put(key, v)
''', '''	if e.cancelled {
		// Nobody will look at it any more.
		return e.data.Get(key), nil
	}
	return e.data.Put(key, v)
''')], demo=T('pipeline', ['github.com/andrewkroh/go-sawmill/pkg/event'], '''	pe := &pipelineEvent{data: event.New()}
	pe.Cancel()
	if _, err := pe.Put("a", event.Bool(true)); err != nil {
		t.Fatal(err)
	}
	if pe.Get("a") == nil {
		t.Fatal("not stored")
	}
'''), needs='a processor that cancels the event and then puts a field', breaks='the field is not stored although Put returns no error'),

 dict(id='b84-register-stops', property='C13', pkg='pkg/metrics', edits=[('pkg/metrics/metrics.go', '''	for _, coll := range c {
		reg.Register(coll)
	}
''', '''	for _, coll := range c {
		if err := reg.Register(coll); err != nil {
			return
		}
	}
''')], demo=T('metrics', ['github.com/prometheus/client_golang/prometheus'], '''	a := prometheus.NewCounter(prometheus.CounterOpts{Name: "a"})
	b := prometheus.NewCounter(prometheus.CounterOpts{Name: "b"})
	Register(a)
	Register(a, b)
	fs, err := reg.Gather()
	if err != nil {
		t.Fatal(err)
	}
	for _, f := range fs {
		if f.GetName() == "b" {
			return
		}
	}
	t.Fatal("not served")
'''), needs='a collector that is registered already, before others', breaks='the collectors after it are not served'),
 dict(id='b85-unregister-last', property='C13', pkg='pkg/metrics', edits=[('pkg/metrics/metrics.go', '''	for _, coll := range c {
		reg.Unregister(coll)
	}
''', '''	for n := len(c); n > 1; n = len(c) {
		reg.Unregister(c[n-1])
		c = c[:n-1]
	}
''')], demo=T('metrics', ['github.com/prometheus/client_golang/prometheus'], '''	c := []prometheus.Collector{prometheus.NewCounter(prometheus.CounterOpts{Name: "a"}), prometheus.NewCounter(prometheus.CounterOpts{Name: "b"})}
	Register(c...)
	Unregister(c...)
	fs, err := reg.Gather()
	if err != nil {
		t.Fatal(err)
	}
	for _, f := range fs {
		if f.GetName() == "a" || f.GetName() == "b" {
			t.Fatal("still served")
		}
	}
'''), needs='Unregister, then a look at what is served', breaks='the first collector stays registered'),
]
