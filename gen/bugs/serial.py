import os, runpy
PIPE = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'pipeline.py'))['H']
def H(pkg, *imports):
    return 'package %s\n\nimport (\n\t"testing"\n\n\t"github.com/andrewkroh/go-sawmill/pkg/event"\n%s)\n\nfunc TestZZDemo(t *testing.T) {\n\te := event.New()\n\t_ = e\n' % (pkg, ''.join('\t"%s"\n' % i for i in imports))
MI, PB, RF = 'pkg/serialization/mapinterface/mapinterface.go', 'pkg/serialization/protobuf/protobuf.go', 'pkg/eventutil/reflect.go'
PR, PL, CF = 'pkg/pipeline/processor.go', 'pkg/pipeline/pipeline.go', 'pkg/pipeline/config.go'
BUGS = [
 dict(id='b31-handlers-of-ignored', property='C12', pkg='pkg/pipeline', edits=[(PR, '''	onFailureProcessors, err := newPipelineProcessors(id+".on_failure", config.OnFailure)
	if err != nil {
		return nil, err
	}

	p := &pipelineProcessor{''', '''	// Failures that are ignored need no handlers.
	handlers := config.OnFailure
	if ignoreFailurePtr != nil && *ignoreFailurePtr && len(handlers) > 1 {
		handlers = handlers[:1]
	}
	onFailureProcessors, err := newPipelineProcessors(id+".on_failure", handlers)
	if err != nil {
		return nil, err
	}

	p := &pipelineProcessor{''')], demo=PIPE + '''	pipe, err := New(&Config{ID: "p", Processors: []ProcessorConfig{zz("a", map[string]interface{}{"ignore_failure": true}, zz("b", nil), zz("c", nil))}})
	if err != nil {
		t.Fatal(err)
	}
	if len(pipe.processors[0].OnFailure) != 2 {
		t.Fatal("a handler is missing")
	}
}
''', needs='two handlers of a processor with ignore_failure', breaks='only the first handler of a processor that ignores failures is constructed'),
 dict(id='b32-two-processors-one-nil', property='C12', pkg='pkg/pipeline', edits=[(CF, '''	if len(c) > 1 {
''', '''	if len(c) > 1 && len(c) != len(c.unset())+1 {
'''), (CF, '''	for k, v := range c {
		if v == nil {
''', '''	skip := c.unset()
	for k, v := range c {
		if skip[k] && len(skip) < len(c) {
			continue
		}
		if v == nil {
'''), (CF, '''func (c ProcessorConfig) getProcessor() (''', '''// unset returns the names that come without options.
func (c ProcessorConfig) unset() map[string]bool {
	names := map[string]bool{}
	for k, v := range c {
		if v == nil {
			names[k] = true
		}
	}
	return names
}

func (c ProcessorConfig) getProcessor() (''')], demo=PIPE + '''	p := zz("a", nil)
	p["set"] = nil
	if _, err := New(&Config{ID: "p", Processors: []ProcessorConfig{p}}); err == nil {
		t.Fatal("an entry with two processors was accepted")
	}
}
''', needs='an entry with two processors, one of them without options', breaks='an entry that names two processors is accepted when one has no options'),
 dict(id='b33-nested-handler-id', property='C12', pkg='pkg/pipeline', edits=[(PR, '''	for i, processorConfig := range procConfigs {
		procType, options, err := processorConfig.getProcessor()
		if err != nil {
			return nil, err
		}

		pipeProc, err := newPipelineProcessor(baseID, i, procType, options)
''', '''	for _, processorConfig := range procConfigs {
		procType, options, err := processorConfig.getProcessor()
		if err != nil {
			return nil, err
		}
		if options.If == "false" {
			continue
		}

		pipeProc, err := newPipelineProcessor(baseID, len(processors), procType, options)
''')], demo=PIPE + '''	off := zz("a", nil)
	off["zzdemo"].If = "false"
	pipe, err := New(&Config{ID: "p", Processors: []ProcessorConfig{off, zz("b", nil)}})
	if err != nil {
		t.Fatal(err)
	}
	if len(pipe.processors) != 2 || pipe.processors[1].ID != "p.processors[1].zzdemo" {
		t.Fatal("an entry was left out")
	}
}
''', needs='an entry with the condition "false"', breaks='entries with the condition "false" are left out of the pipeline'),
 dict(id='b34-metrics-deep', property='C13', pkg='pkg/pipeline', edits=[(PL, '''	for _, proc := range proc.OnFailure {
		visitProcessor(visit, proc)
	}
''', '''	for _, handler := range proc.OnFailure {
		visit(handler)
		for _, nested := range handler.OnFailure {
			visit(nested)
		}
	}
''')], demo=PIPE + '''	pipe, err := New(&Config{ID: "p", Processors: []ProcessorConfig{zz("a", nil, zz("b", nil, zz("c", nil, zz("d", nil))))}})
	if err != nil {
		t.Fatal(err)
	}
	if n := len(pipe.Metrics()); n != 16 {
		t.Fatal(n, "collectors")
	}
}
''', needs='handlers nested three deep', breaks='the collectors of handlers nested three deep are missing'),
 dict(id='b35-metrics-shared', property='C13', pkg='pkg/pipeline', edits=[(PL, '''	var metrics []prometheus.Collector
	pipe.visitProcessors(func(proc *pipelineProcessor) {
		metrics = append(metrics,
''', '''	var metrics []prometheus.Collector
	seen := map[string]bool{}
	pipe.visitProcessors(func(proc *pipelineProcessor) {
		if key := proc.Condition; key != "" {
			if seen[key] {
				return
			}
			seen[key] = true
		}
		metrics = append(metrics,
''')], demo=PIPE + '''	a, b := zz("a", nil), zz("b", nil)
	a["zzdemo"].If, b["zzdemo"].If = "x", "x"
	pipe, err := New(&Config{ID: "p", Processors: []ProcessorConfig{a, b}})
	if err != nil {
		t.Fatal(err)
	}
	if n := len(pipe.Metrics()); n != 8 {
		t.Fatal(n, "collectors")
	}
}
''', needs='two processors with the same condition', breaks='of the processors with one condition only the first has its collectors listed'),
 dict(id='b36-map-empty-object', property='C18', pkg='pkg/serialization/mapinterface', edits=[(MI, '''		return fromEventValueObject(v)
	case event.StringType:''', '''		if fields := fromEventValueObject(v); len(fields) > 0 {
			return fields
		}
		return nil
	case event.StringType:''')], demo=H('mapinterface') + '''	e.Put("a", event.Object(map[string]*event.Value{}))
	if m, ok := FromEvent(e)["a"].(map[string]interface{}); !ok || m == nil {
		t.Fatal("an empty object is not a map")
	}
}
''', needs='an empty object', breaks='an empty object becomes nil'),
 dict(id='b37-map-small-unsigned', property='C18', pkg='pkg/serialization/mapinterface', edits=[(MI, '''		return v.UnsignedInteger
	case event.NullType:''', '''		return number(v.UnsignedInteger)
	case event.NullType:'''), (MI, '''func fromEventValue(v *event.Value) interface{} {''', '''// number returns n as int64 where it fits.
func number(n uint64) interface{} {
	if i := int64(n); i >= 0 {
		return i
	}
	return n
}

func fromEventValue(v *event.Value) interface{} {''')], demo=H('mapinterface') + '''	e.Put("a", event.UnsignedInteger(5))
	if _, ok := FromEvent(e)["a"].(uint64); !ok {
		t.Fatalf("%T", FromEvent(e)["a"])
	}
}
''', needs='an unsigned integer below 2^63', breaks='unsigned integers become int64'),
 dict(id='b38-proto-utf8', property='C19', pkg='pkg/serialization/protobuf', edits=[(PB, '''		return event.String(string(t.String_))''', '''		return event.String(strings.ToValidUTF8(string(t.String_), "\\ufffd"))'''), (PB, '''	"fmt"
''', '''	"fmt"
	"strings"
''')], demo=H('protobuf') + '''	e.Put("a", event.String("x\\xff"))
	if s := ToLogEvent(FromEvent(e).GetLog()).Get("a").String; s != "x\\xff" {
		t.Fatalf("%q", s)
	}
}
''', needs='a string that is not UTF-8', breaks='bytes that are not UTF-8 are replaced'),
 dict(id='b39-proto-nil-items', property='C19', pkg='pkg/serialization/protobuf', edits=[(PB, '''			items = append(items, fromEventValue(x))
''', '''			if x != nil {
				items = append(items, fromEventValue(x))
			}
''')], demo=H('protobuf') + '''	e.Put("a", event.Array(event.Integer(1), nil, event.Integer(2)))
	if n := len(ToLogEvent(FromEvent(e).GetLog()).Get("a").Array); n != 3 {
		t.Fatal(n)
	}
}
''', needs='an array with a nil element', breaks='nil elements of arrays are dropped'),
 dict(id='b40-reflect-uint', property='C20', pkg='pkg/eventutil', edits=[(RF, '''		return event.UnsignedInteger(rv.Uint()), nil
''', '''		return unsigned(rv.Uint()), nil
'''), (RF, '''func reflectSliceToArray(''', '''func unsigned(n uint64) *event.Value {
	if i := int64(n); i >= 0 {
		return event.Integer(i)
	}
	return event.UnsignedInteger(n)
}

func reflectSliceToArray(''')], demo=H('eventutil') + '''	type port uint16
	v, err := ReflectValue(port(80))
	if err != nil || v.Type != event.UnsignedIntegerType || v.UnsignedInteger != 80 {
		t.Fatal(v, err)
	}
}
''', needs='a named unsigned type', breaks='named unsigned integers become signed'),
 dict(id='b41-reflect-bytes', property='C20', pkg='pkg/eventutil', edits=[(RF, '''	case reflect.Array, reflect.Slice:
''', '''	case reflect.Slice:
		if typ.Elem().Kind() == reflect.Uint8 {
			return event.String(string(rv.Bytes())), nil
		}
		return reflectSliceToArray(rv)
	case reflect.Array:
''')], demo=H('eventutil') + '''	v, err := ReflectValue([]byte("ab"))
	if err != nil || v.Type != event.ArrayType || len(v.Array) != 2 {
		t.Fatal(v, err)
	}
}
''', needs='a slice of bytes', breaks='byte slices become strings'),
 dict(id='b42-reflect-map-key', property='C20', pkg='pkg/eventutil', edits=[(RF, '''		key := fmt.Sprintf("%v", m.Key())
''', '''		key := strings.TrimSpace(fmt.Sprintf("%v", m.Key()))
''')], demo=H('eventutil') + '''	v, err := ReflectValue(map[string]int{" a": 1})
	if err != nil || v.Object[" a"] == nil {
		t.Fatal(v, err)
	}
}
''', needs='a typed map with a key that has blanks around it', breaks='blanks around the keys of typed maps are lost'),
 dict(id='b43-reflect-null-field', property='C20', pkg='pkg/eventutil', edits=[(RF, '''		obj[name] = finalVal
''', '''		if finalVal != event.NullValue || tagName == "" {
			obj[name] = finalVal
		}
''')], demo=H('eventutil') + '''	type s struct {
		P *int `event:"p"`
	}
	v, err := ReflectValue(s{})
	if err != nil || v.Object["p"] == nil {
		t.Fatal(v, err)
	}
}
''', needs='a nil pointer in a struct field with a tag', breaks='struct fields that are nil are left out when they have a tag'),
]
