"""Bugs that only rare inputs reach: long or deep ones, extreme values, state
left over from an earlier call."""
import os, runpy
_d = os.path.dirname(os.path.abspath(__file__))
EV, TI = 'pkg/event/event.go', 'pkg/event/time.go'
EU, RE = 'pkg/eventutil/event.go', 'pkg/eventutil/reflect.go'
PI, PR = 'pkg/pipeline/pipeline.go', 'pkg/pipeline/processor.go'
PB, MI = 'pkg/serialization/protobuf/protobuf.go', 'pkg/serialization/mapinterface/mapinterface.go'
RG, SA = 'pkg/processor/registry/registry.go', 'cmd/sawmill/sawmill.go'
L = runpy.run_path(_d + '/later.py')
R, C = L['R'], L['C']
P = runpy.run_path(_d + '/pipeline.py')
HP = P['H']
def T(pkg, imports, body):
    return 'package %s\n\nimport (\n%s)\n\nfunc TestZZDemo(t *testing.T) {\n%s}\n' % (pkg, ''.join('\t"%s"\n' % i for i in ['testing'] + imports), body)
E = 'github.com/andrewkroh/go-sawmill/pkg/event'
BUGS = [
 dict(id='b59-key-segments', property='C05', pkg='pkg/event', edits=[(EV, "			if escape {\n", "			if escape || len(paths) >= 24 {\n")],
  demo=T('event', ['strings'], '''	e := New()
	k := strings.Repeat("a.", 30) + "a"
	e.Put(k, Bool(true))
	v := e.Get("a")
	n := 1
	for v != nil && v.Type == ObjectType {
		v = v.Object["a"]
		n++
	}
	if n != 31 {
		t.Fatal(n)
	}
'''), needs='a key of more than 25 segments', breaks='the segments after the 25th are one segment'),
 dict(id='b60-escape-many', property='C06', pkg='pkg/eventutil', edits=[(EU, '''strings.ReplaceAll(key, ".", `\\.`)''', '''strings.Replace(key, ".", `\\.`, 16)''')],
  demo=T('eventutil', ['strings', E], '''	e := event.New()
	k := strings.Repeat(".", 20) + "a"
	e.Put(EscapeKey(k), event.Bool(true))
	if v := e.Get("."); v == nil || v.Object[k] == nil {
		t.Fatal("lost")
	}
'''), needs='a name with more than 16 dots', breaks='dots after the 16th are not escaped'),
 dict(id='b61-id-index', property='C12', pkg='pkg/pipeline', edits=[(PR, 'strconv.Itoa(processorIndex)', 'string(strconv.Itoa(processorIndex)[0])')],
  demo=HP + '''	var ps []ProcessorConfig
	for i := 0; i < 12; i++ {
		ps = append(ps, ProcessorConfig{"zzdemo": &ProcessorOptionConfig{}})
	}
	p, err := New(&Config{ID: "p", Processors: ps})
	if err != nil {
		t.Fatal(err)
	}
	if id := p.processors[11].ID; id != "p.processors[11].zzdemo" {
		t.Fatal(id)
	}
}
''', needs='more than ten processors', breaks='component IDs hold only the first digit of the index'),
 dict(id='b62-reflect-int8', property='C20', pkg='pkg/eventutil', edits=[(RE, '''	case int8:
		return event.Integer(int64(t)), nil
''', '''	case int8:
		return event.Integer(int64(uint8(t))), nil
''')], demo=T('eventutil', [], '''	v, _ := ReflectValue(int8(-3))
	if v.Integer != -3 {
		t.Fatal(v)
	}
'''), needs='a negative int8', breaks='the sign is lost'),
 dict(id='b63-map-no-list', property='C18', pkg='pkg/serialization/mapinterface', edits=[(MI, '''		items := make([]interface{}, 0, len(v.Array))
''', '''		var items []interface{}
		if len(v.Array) > 0 {
			items = make([]interface{}, 0, len(v.Array))
		}
''')], demo=T('mapinterface', [E], '''	e := event.New()
	e.Put("a", event.Array())
	if x, _ := FromEvent(e)["a"].([]interface{}); x == nil {
		t.Fatal("no list")
	}
'''), needs='an empty array', breaks='an empty array becomes a nil slice, which is null in JSON and YAML'),
 dict(id='b64-proto-epoch', property='C19', pkg='pkg/serialization/protobuf', edits=[(PB, '''		return event.Timestamp(t.Timestamp)
''', '''		if t.Timestamp == 0 {
			return event.NullValue
		}
		return event.Timestamp(t.Timestamp)
''')], demo=T('protobuf', [E], '''	e := event.New()
	e.Put("a", event.Timestamp(0))
	if v := ToLogEvent(FromEvent(e).GetLog()).Get("a"); v.Type != event.TimestampType {
		t.Fatal(v)
	}
'''), needs='the timestamp 1970-01-01T00:00:00Z', breaks='it is decoded as null'),
 dict(id='b66-cli-long-line', property='C23', pkg='cmd/sawmill', edits=[(SA, '''	var lineNumber uint64

''', '''	s.Buffer(make([]byte, 0, 4096), 32*1024)
	var lineNumber uint64

''')], demo=C + '''	out := run(t, strings.Repeat("x", 40000)+"\\n")
	if len(out) < 40000 {
		t.Fatal(len(out))
	}
}
''', needs='a line of more than 32 KiB', breaks='the line and all after it are not processed'),
 dict(id='b67-append-alias', property='C24', pkg='pkg/eventutil', edits=[(EU, '''	if item.Type == event.ArrayType {
		for''', '''	if item.Type == event.ArrayType && len(targetValue.Array) == 0 {
		targetValue.Array = item.Array
	} else if item.Type == event.ArrayType {
		for''')], demo=T('eventutil', [E], '''	item := event.Array(event.Integer(1))
	e1 := event.New()
	Append(e1, "a", item)
	Append(e1, "a", event.Integer(2))
	Append(e1, "a", event.Integer(3))
	e2 := event.New()
	Append(e2, "b", e1.Get("a"))
	Append(e1, "a", event.Integer(4))
	Append(e2, "b", event.Integer(5))
	if x := e1.Get("a").Array; len(x) != 4 || x[3].Integer != 4 {
		t.Fatal(x)
	}
'''), needs='an array appended to an empty field, then both arrays appended to', breaks='the two fields share an array, so that one overwrites the other\'s elements'),
 dict(id='b68-drop-and-cancel', property='C11', pkg='pkg/pipeline', edits=[(PI, '''	if pipeEvt.dropped {
''', '''	if pipeEvt.dropped && !pipeEvt.cancelled {
''')], demo=HP + '''	zzDo["d"] = func(e processor.Event) error { e.Drop(); e.Cancel(); return nil }
	p, err := New(&Config{ID: "p", Processors: []ProcessorConfig{{"zzdemo": &ProcessorOptionConfig{Config: map[string]interface{}{"name": "d"}}}}})
	if err != nil {
		t.Fatal(err)
	}
	if evt, err := p.Process(event.New()); evt != nil || err != nil {
		t.Fatal(evt, err)
	}
}
''', needs='a processor that drops and cancels the event', breaks='the dropped event is returned'),
 dict(id='b69-own-handlers-only', property='C08', pkg='pkg/pipeline', edits=[(PI, '''			// Go to global on_failure handler.
''', '''			// Go to global on_failure handler.
			if len(proc.OnFailure) > 1 {
				return err
			}
''')], demo=HP + '''	zzDo["f"] = func(e processor.Event) error { return errors.New("f") }
	c := func(n string, on ...ProcessorConfig) ProcessorConfig {
		return ProcessorConfig{"zzdemo": &ProcessorOptionConfig{Config: map[string]interface{}{"name": n}, OnFailure: on}}
	}
	p, err := New(&Config{ID: "p", Processors: []ProcessorConfig{c("f", c("a"), c("f"))}, OnFailure: []ProcessorConfig{c("g")}})
	if err != nil {
		t.Fatal(err)
	}
	evt, err := p.Process(event.New())
	if evt == nil || err != nil || zzCalls[len(zzCalls)-1] != "g" {
		t.Fatal(evt, err, zzCalls)
	}
}
''', needs='a processor with two on_failure processors, the second of which fails, in a pipeline with on_failure processors', breaks='the pipeline\'s on_failure processors do not run'),
 dict(id='b70-remove-stops', property='C17', pkg='pkg/processor/remove', edits=[('pkg/processor/remove/process.go', '''			return processor.ErrorKeyMissing{Key: field}
		}
''', '''			return processor.ErrorKeyMissing{Key: field}
		} else if v == nil && len(p.config.Fields) > 8 {
			break
		}
''')], demo=T('remove', [E], '''	e := event.New()
	e.Put("z", event.Bool(true))
	p, _ := New(Config{Fields: []string{"a", "b", "c", "d", "e", "f", "g", "h", "z"}, IgnoreMissing: true})
	p.Process(zzEvent{e})
	if e.Get("z") != nil {
		t.Fatal("not removed")
	}
''') + '\ntype zzEvent struct{ *event.Event }\n\nfunc (zzEvent) Cancel() {}\nfunc (zzEvent) Drop()   {}\n', needs='ignore_missing, more than eight fields and one of them missing', breaks='the fields after it are not removed'),
 dict(id='b71-time-offset', property='C21', pkg='pkg/event', edits=[(TI, '''	return time.Unix(0, t.UnixNanos).UTC()
''', '''	if t.UnixNanos < 0 {
		return time.Unix(t.UnixNanos/1e9, 0).UTC()
	}
	return time.Unix(0, t.UnixNanos).UTC()
''')], demo=T('event', ['encoding/json'], '''	b, _ := json.Marshal(Timestamp(-1))
	if string(b) != `"1969-12-31T23:59:59.999999999Z"` {
		t.Fatal(string(b))
	}
'''), needs='a timestamp before 1970 with a fraction of a second', breaks='the fraction is dropped'),
 dict(id='b72-cancelled-not-sent', property='C10', pkg='pkg/pipeline', edits=[(PR, '''	p.metricEventsOutTotal.Inc()
	return nil
}

func newPipelineProcessors(''', '''	if !event.cancelled || len(p.OnFailure) == 0 {
		p.metricEventsOutTotal.Inc()
	}
	return nil
}

func newPipelineProcessors(''')], demo=HP + '''	zzDo["c"] = func(e processor.Event) error { e.Cancel(); return nil }
	c := func(n string, on ...ProcessorConfig) ProcessorConfig {
		return ProcessorConfig{"zzdemo": &ProcessorOptionConfig{Config: map[string]interface{}{"name": n}, OnFailure: on}}
	}
	p, err := New(&Config{ID: "p", Processors: []ProcessorConfig{c("c", c("a"))}})
	if err != nil {
		t.Fatal(err)
	}
	p.Process(event.New())
	if n := zzValue(p, "p.processors[0].zzdemo", "es_component_sent_events_total"); n != 1 {
		t.Fatal(n)
	}
}
''', needs='a processor with on_failure processors that cancels the event and succeeds', breaks='the event is received but not counted as sent'),
 dict(id='b73-trailing-escape', property='C07', pkg='pkg/event', edits=[(EV, "			escape = true\n", "			escape = key[i+1] == '.' || key[i+1] == '\\\\'\n")], demo=T('event', [], '''	New().Get(`a\\\\`)
'''.replace('\\\\','\\')), needs='a key that ends with a backslash', breaks='index out of range'),
]
