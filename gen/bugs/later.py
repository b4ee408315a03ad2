EV, VA, TI = 'pkg/event/event.go', 'pkg/event/value.go', 'pkg/event/time.go'
RG, SA, CF = 'pkg/processor/registry/registry.go', 'cmd/sawmill/sawmill.go', 'pkg/pipeline/config.go'
J = '''package event

import (
	"encoding/json"
	"testing"
)

func TestZZDemo(t *testing.T) {
'''
R = '''package registry

import (
	"errors"
	"testing"

	"github.com/andrewkroh/go-sawmill/pkg/processor"
)

var _ = errors.New

type zzConf struct {
	A string `config:"a"`
	N int    `config:"n"`
}

func (c *zzConf) InitDefaults() { c.N = 7 }

type zzProc struct{ c zzConf }

func (*zzProc) Process(processor.Event) error { return nil }

func TestZZDemo(t *testing.T) {
	r := NewRegistry()
'''
C = '''package main

import (
	"bytes"
	"errors"
	"strings"
	"testing"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"
)

type zzConf struct{}

type zzProc struct{}

func (*zzProc) Config() zzConf { return zzConf{} }
func (*zzProc) String() string { return "zz" }
func (*zzProc) Process(e processor.Event) error {
	s := e.Get("event.original").String
	if strings.Contains(s, "FAIL") {
		return errors.New("failed")
	}
	if strings.Contains(s, "MARK") {
		e.Put("mark", event.Bool(true))
	}
	return nil
}

func init() {
	registry.MustRegister("zz", func(zzConf) (*zzProc, error) { return &zzProc{}, nil })
}

func run(t *testing.T, in string) string {
	p, err := pipeline.New(&pipeline.Config{ID: "p", Processors: []pipeline.ProcessorConfig{{"zz": &pipeline.ProcessorOptionConfig{}}}})
	if err != nil {
		t.Skip(err)
	}
	var out bytes.Buffer
	if err := processInput(strings.NewReader(in), &out, p); err != nil {
		t.Fatal(err)
	}
	return out.String()
}

func TestZZDemo(t *testing.T) {
'''
O = '''package pipeline

import (
	"encoding/json"
	"testing"
)

func TestZZDemo(t *testing.T) {
'''
BUGS = [
 dict(id='b44-json-local', property='C21', pkg='pkg/event', edits=[(TI, 't.GoTime().Format(', 't.GoTime().Local().Format(')], demo=J.replace('"testing"', '"testing"\n\t"time"') + """	time.Local = time.FixedZone("x", 3600)
	b, _ := json.Marshal(Timestamp(1))
	if string(b) != `"1970-01-01T00:00:00.000000001Z"` {
		t.Fatal(string(b))
	}
}
""", needs='a local time zone other than UTC', breaks='timestamps are encoded in local time'),
 dict(id='b45-json-uint', property='C21', pkg='pkg/event', edits=[(VA, '''	case UnsignedIntegerType:
		return v.UnsignedInteger
	case NullType:''', '''	case UnsignedIntegerType:
		return int64(v.UnsignedInteger)
	case NullType:''')], demo=J + '''	b, _ := json.Marshal(UnsignedInteger(1 << 63))
	if string(b) != "9223372036854775808" {
		t.Fatal(string(b))
	}
}
''', needs='an unsigned integer of 2^63 or more', breaks='large unsigned integers are encoded as negative numbers'),
 dict(id='b46-json-whole-float', property='C21', pkg='pkg/event', edits=[(VA, '''	case FloatType:
		return v.Float
	case IntegerType:
		return v.Integer
''', '''	case FloatType:
		if n := int64(v.Float); float64(n) == v.Float {
			return n
		}
		return v.Float
	case IntegerType:
		return v.Integer
''')], demo=J + '''	b, _ := json.Marshal(Float(1 << 63))
	if string(b) != "9223372036854775808" && string(b) != "9.223372036854776e+18" && string(b) != "9223372036854776000" {
		t.Fatal(string(b))
	}
	b, _ = json.Marshal(Float(float64(1<<62) * -2))
	if string(b) != "-9223372036854775808" && string(b) != "-9223372036854776000" {
		t.Fatal(string(b))
	}
	b, _ = json.Marshal(Float(1e20))
	if string(b) != "100000000000000000000" {
		t.Fatal(string(b))
	}
	b, _ = json.Marshal(Float(float64(1<<53) * 3))
	if string(b) != "27021597764222976" {
		t.Fatal(string(b))
	}
	var minus Value
	json.Unmarshal([]byte("-0"), &minus)
	b, _ = json.Marshal(&minus)
	if string(b) != "-0" {
		t.Fatal(string(b))
	}
}
''', needs='a negative zero', breaks='-0 is encoded as 0'),
 dict(id='b47-json-decode-big', property='C21', pkg='pkg/event', edits=[(VA, '''		case float64:
			v.Type = FloatType
			v.Float = x
''', '''		case float64:
			v.Type = FloatType
			v.Float = x
			if x == float64(int64(x)) && (x > 1<<53 || x < -1<<53) {
				v.Type, v.Integer = IntegerType, int64(x)
			}
''')], demo=J + '''	var v Value
	if err := json.Unmarshal([]byte("36028797018963968"), &v); err != nil || v.Type != FloatType {
		t.Fatal(v.Type, err)
	}
}
''', needs='a whole number above 2^53', breaks='large whole numbers decode to another type than other numbers'),
 dict(id='b49-registry-shared-processor', property='C22', pkg='pkg/processor/registry', edits=[(RG, '''	procs map[string]processorConstructor
}
''', '''	procs map[string]processorConstructor

	plain map[string]processor.Processor // built without options
}
'''), (RG, '''	return &Registry{procs: map[string]processorConstructor{}}
''', '''	return &Registry{procs: map[string]processorConstructor{}, plain: map[string]processor.Processor{}}
'''), (RG, '''	return pc.newProc(procConfigValue)
''', '''	if p, found := r.plain[name]; found && config == nil {
		return p, nil
	}
	p, err := pc.newProc(procConfigValue)
	if err == nil && config == nil {
		r.plain[name] = p
	}
	return p, err
''')], demo=R + '''	r.Register("p", func(c zzConf) (*zzProc, error) { return &zzProc{c}, nil })
	p, _ := r.NewProcessor("p", nil)
	q, _ := r.NewProcessor("p", nil)
	if p == q {
		t.Fatal("the same processor")
	}
}
''', needs='two constructions without options', breaks='the second construction returns the first processor'),
 dict(id='b50-registry-error-with-processor', property='C22', pkg='pkg/processor/registry', edits=[(RG, '''			if !out[1].IsNil() {
''', '''			if !out[1].IsNil() && out[0].IsNil() {
''')], demo=R + '''	r.Register("p", func(c zzConf) (*zzProc, error) {
		if c.A == "bad" {
			return &zzProc{c}, errors.New("bad")
		}
		return &zzProc{c}, nil
	})
	if _, err := r.NewProcessor("p", map[string]interface{}{"a": "bad"}); err == nil {
		t.Fatal("no error")
	}
}
''', needs='a constructor that returns a processor together with an error', breaks='the error of the constructor is lost'),
 dict(id='b51-registry-no-options', property='C22', pkg='pkg/processor/registry', edits=[(RG, '''	uConf, err := ucfg.NewFrom(config)
''', '''	if len(config) == 0 {
		return pc.newProc(procConfigValue)
	}

	uConf, err := ucfg.NewFrom(config)
''')], demo=R + '''	r.Register("p", func(c zzConf) (*zzProc, error) { return &zzProc{c}, nil })
	p, err := r.NewProcessor("p", map[string]interface{}{})
	if err != nil || p.(*zzProc).c != (zzConf{N: 7}) {
		t.Fatal(p, err)
	}
}
''', needs='a processor without options whose configuration has defaults', breaks='the defaults are not set'),
 dict(id='b52-cli-event-reused', property='C23', pkg='cmd/sawmill', edits=[(SA, '''	for s.Scan() {
		lineNumber++
''', '''	next := event.New()
	for s.Scan() {
		lineNumber++
'''), (SA, '''		evt := event.New()
''', '''		evt := next
'''), (SA, '''		if err := enc.Encode(evt); err != nil {
			log.Printf("Unexpected error marshaling event from line %d to JSON: %v", lineNumber, err)
			continue
		}
''', '''		if err := enc.Encode(evt); err != nil {
			log.Printf("Unexpected error marshaling event from line %d to JSON: %v", lineNumber, err)
			continue
		}
		next = event.New()
''')], demo=C + '''	if s := run(t, "MARK FAIL\\nx\\n"); strings.Count(s, "\\n") != 1 {
		t.Fatal(s)
	}
	if s := run(t, "x FAIL\\ny\\n"); strings.Contains(s, "mark") {
		t.Fatal(s)
	}
	e := event.New()
	_ = e
	p := &zzMarkFirst{}
	registry.MustRegister("zz_mark", func(zzConf) (*zzMarkFirst, error) { return p, nil })
	pl, err := pipeline.New(&pipeline.Config{ID: "p", Processors: []pipeline.ProcessorConfig{{"zz_mark": &pipeline.ProcessorOptionConfig{}}}})
	if err != nil {
		t.Skip(err)
	}
	var out bytes.Buffer
	if err := processInput(strings.NewReader("a\\nb\\n"), &out, pl); err != nil {
		t.Fatal(err)
	}
	if strings.Contains(out.String(), "mark") {
		t.Fatal(out.String())
	}
}

type zzMarkFirst struct{}

func (*zzMarkFirst) Config() zzConf { return zzConf{} }
func (*zzMarkFirst) String() string { return "zz_mark" }
func (*zzMarkFirst) Process(e processor.Event) error {
	if e.Get("event.original").String == "a" {
		e.Put("mark", event.Bool(true))
		return errors.New("failed")
	}
	return nil
}
''', needs='a line that fails after a processor changed the event, then another line', breaks='the event of a failed line is used again for the next line'),
 dict(id='b53-cli-line-number', property='C23', pkg='cmd/sawmill', edits=[(SA, '''		lineNumber++

		// Skip empty lines.
		line := strings.TrimSpace(s.Text())
		if line == "" {
			continue
		}
''', '''		// Skip empty lines.
		line := strings.TrimSpace(s.Text())
		if line == "" {
			continue
		}
		lineNumber++
''')], demo=C + '''	if s := run(t, "\\nx\\n"); !strings.Contains(s, `"line_number":2`) {
		t.Fatal(s)
	}
}
''', needs='a blank line before another line', breaks='blank lines are not counted in the line number'),
 dict(id='b54-cli-gives-up', property='C23', pkg='cmd/sawmill', edits=[(SA, '''	var lineNumber uint64
''', '''	var lineNumber, failures uint64
'''), (SA, '''			log.Printf("Error processing line %d: %v", lineNumber, err)
			continue
		}
''', '''			log.Printf("Error processing line %d: %v", lineNumber, err)
			if failures++; failures == 1000 {
				break
			}
			continue
		}
''')], demo=C + '''	if s := run(t, strings.Repeat("FAIL\\n", 1500)+"x\\n"); strings.Count(s, "\\n") != 1 {
		t.Fatal(s)
	}
}
''', needs='a thousand lines that fail', breaks='the lines after the thousandth failing one are not processed'),
 dict(id='b55-cli-trim', property='C23', pkg='cmd/sawmill', edits=[(SA, '''strings.TrimSpace(s.Text())''', '''strings.Trim(s.Text(), " \\t\\r\\n\\v\\f")''')], demo=C + '''	if s := run(t, "\\u00a0x\\u2003\\n"); !strings.Contains(s, `"original":"x"`) {
		t.Fatal(s)
	}
}
''', needs='a line with other Unicode white space around it', breaks='such white space is kept'),
 dict(id='b56-options-empty-id', property='C25', pkg='pkg/pipeline', edits=[(CF, '''	delete(raw, "id")
''', '''	if c.ID != "" {
		delete(raw, "id")
	}
''')], demo=O + '''	var o ProcessorOptionConfig
	if err := json.Unmarshal([]byte(`{"id":"","a":1}`), &o); err != nil || len(o.Config) != 1 {
		t.Fatal(o, err)
	}
}
''', needs='an empty id', breaks='an empty id becomes a configuration member'),
 dict(id='b57-options-null-member', property='C25', pkg='pkg/pipeline', edits=[(CF, '''	for k, v := range c.Config {
		data[k] = v
	}
''', '''	for k, v := range c.Config {
		if v != nil {
			data[k] = v
		}
	}
''')], demo=O + '''	b, err := json.Marshal(&ProcessorOptionConfig{Config: map[string]interface{}{"a": nil}})
	if string(b) != `{"a":null}` {
		t.Fatal(string(b), err)
	}
}
''', needs='a configuration member that is null', breaks='the member is not encoded'),
 dict(id='b58-options-merge', property='C25', pkg='pkg/pipeline', edits=[(CF, '''	if len(raw) > 0 {
		c.Config = make(map[string]interface{}, len(raw))
	}
''', '''	if c.Config == nil && len(raw) > 0 {
		c.Config = make(map[string]interface{}, len(raw))
	}
''')], demo=O + '''	o := ProcessorOptionConfig{Config: map[string]interface{}{"old": true}}
	if err := json.Unmarshal([]byte(`{"a":1}`), &o); err != nil || len(o.Config) != 1 {
		t.Fatal(o, err)
	}
}
''', needs='options that are decoded into a structure which was used before', breaks='members of an earlier decoding stay'),
]
