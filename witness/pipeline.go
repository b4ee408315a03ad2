package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"
)

func init() {
	for _, p := range []string{"C08", "C09", "C10", "C11", "C12", "C13"} {
		p := p
		searches[p] = func(t *T) { pipelines(t, p) }
		rules[p] = "random pipelines of scripted processors (fail, missing key, drop, cancel, ignore flags, nested handlers); result, calls, counters and ids compared with a reference interpreter of the property"
	}
	registry.MustRegister("zz_script", func(c scriptConfig) (*scriptProc, error) {
		if c.Broken {
			return nil, errors.New("broken")
		}
		return &scriptProc{c}, nil
	})
	registry.MustRegister("zz_other", func(c scriptConfig) (*otherProc, error) { return &otherProc{c}, nil })
	registry.MustRegister("zz_plain", func(c plainConfig) (*plainProc, error) { return &plainProc{c}, nil })
}

type scriptConfig struct {
	Name          string `config:"name"`
	Broken        bool   `config:"broken"`
	IgnoreMissing bool   `config:"ignore_missing"`
	IgnoreFailure bool   `config:"ignore_failure"`
}
type plainConfig struct {
	Name string `config:"name"`
}

// outcome is what one processor does to an event.
type outcome struct {
	err          error
	drop, cancel bool
	again        bool // drop or cancel twice
}

var script struct {
	calls []string
	evts  []processor.Event
	do    map[string]func(n int) outcome
	n     map[string]int
}

func runScript(name string, e processor.Event) error {
	script.calls = append(script.calls, name)
	script.evts = append(script.evts, e)
	n := script.n[name]
	script.n[name]++
	o := script.do[name](n)
	for i := 0; i < 2; i++ {
		if o.drop {
			e.Drop()
		}
		if o.cancel {
			e.Cancel()
		}
		if !o.again {
			break
		}
	}
	return o.err
}

type scriptProc struct{ c scriptConfig }

func (p *scriptProc) Process(e processor.Event) error { return runScript(p.c.Name, e) }
func (p *scriptProc) Config() scriptConfig            { return p.c }

type otherProc struct{ c scriptConfig }

func (p *otherProc) Process(e processor.Event) error { return runScript(p.c.Name, e) }
func (p *otherProc) Config() scriptConfig            { return p.c }

type plainProc struct{ c plainConfig }

func (p *plainProc) Process(e processor.Event) error { return runScript(p.c.Name, e) }
func (p *plainProc) Config() plainConfig             { return p.c }

// node is the model of one processor.
type pnode struct {
	typ, name, id  string
	im, ifl        bool
	broken         bool
	handlers       []*pnode
	in, out, er, d int
}

type pmodel struct {
	id          string
	procs, fail []*pnode
	cfg         *pipeline.Config
	all         []*pnode
	bad         bool // the configuration must be rejected
	out         map[*pnode]func(n int) outcome
	n           map[*pnode]int
	calls       []string
}

type plainErr struct{ s string }

func (e *plainErr) Error() string { return e.s }

func (m *pmodel) gen(t *T, prop, base string, depth, max int) ([]pipeline.ProcessorConfig, []*pnode) {
	var cfgs []pipeline.ProcessorConfig
	var ns []*pnode
	k := t.r.Intn(max + 1)
	if t.chance(40) && len(m.all) < 30 {
		k = 9 + t.r.Intn(5)
		depth = 0
	}
	if t.chance(60) && len(m.all) < 30 {
		k, depth = 1, 8
	}
	for i := 0; i < k; i++ {
		n := &pnode{typ: t.pick("zz_script", "zz_script", "zz_other", "zz_plain"), name: fmt.Sprintf("p%d", len(m.all))}
		m.all = append(m.all, n)
		opt := &pipeline.ProcessorOptionConfig{Config: map[string]interface{}{"name": n.name}}
		if t.chance(4) {
			opt.ID = t.pick("custom", "x")
		}
		if t.chance(4) {
			// Conditions are not implemented: they change nothing.
			opt.If = pipeline.ConditionalExpressionConfig(t.pick("false", "true", "x == 1"))
		}
		if n.typ != "zz_plain" && (prop != "C08" || t.chance(4)) {
			if t.chance(3) {
				n.im = true
				opt.Config["ignore_missing"] = true
			}
			if t.chance(3) {
				n.ifl = true
				opt.Config["ignore_failure"] = true
			}
			if t.chance(3) {
				opt.Config["ignore_failure"] = n.ifl
			}
		}
		pc := pipeline.ProcessorConfig{n.typ: opt}
		if prop == "C12" && t.chance(12) {
			m.bad = true
			switch t.r.Intn(4) {
			case 0:
				pc = pipeline.ProcessorConfig{"zz_unknown": opt}
			case 1:
				pc = pipeline.ProcessorConfig{}
			case 2:
				second := t.pick("zz_second", "zz_script", "zz_other", "zz_plain")
				if second == n.typ {
					second = "zz_second"
				}
				pc[second] = opt
				if t.chance(2) {
					pc[second] = nil
				}
			case 3:
				if n.typ == "zz_script" {
					opt.Config["broken"] = true
				} else {
					pc = nil
				}
			}
		}
		n.id = fmt.Sprintf("%s[%d].%s", base, i, n.typ)
		if depth > 0 && (t.chance(2) || depth > 4) {
			opt.OnFailure, n.handlers = m.gen(t, prop, n.id+".on_failure", depth-1, 3)
		}
		cfgs, ns = append(cfgs, pc), append(ns, n)
	}
	return cfgs, ns
}

func (m *pmodel) scriptFor(t *T, prop string, n *pnode) func(int) outcome {
	var os []outcome
	for i := 0; i < 4; i++ {
		var o outcome
		if t.chance(2) {
			switch t.r.Intn(4) {
			case 0:
				o.err = processor.ErrorKeyMissing{Key: t.pick(n.name, n.name, n.name, "", "*", t.key())}
			case 1:
				o.err = fmt.Errorf("wrapped %s: %w", n.name, processor.ErrorKeyMissing{Key: t.pick(n.name, n.name, "a.*", t.key())})
			default:
				o.err = &plainErr{n.name + fmt.Sprint(i)}
			}
		}
		if prop == "C10" || prop == "C11" {
			o.drop = t.chance(8)
			o.cancel = t.chance(8)
			o.again = t.chance(8)
		}
		os = append(os, o)
	}
	return func(i int) outcome { return os[i%len(os)] }
}

type pstate struct{ dropped, cancelled bool }

func (m *pmodel) run(n *pnode, s *pstate) error {
	n.in++
	m.calls = append(m.calls, n.name)
	o := m.out[n](m.n[n])
	m.n[n]++
	s.dropped = s.dropped || o.drop
	s.cancelled = s.cancelled || o.cancel
	err := o.err
	missing := err != nil && errors.As(err, new(processor.ErrorKeyMissing))
	if s.dropped {
		n.d++
		return nil
	}
	if err == nil || (n.im && missing) {
		n.out++
		return nil
	}
	for _, h := range n.handlers {
		if s.dropped || s.cancelled {
			break
		}
		if err = m.run(h, s); err != nil {
			break
		}
	}
	switch {
	case s.dropped:
		n.d++
		return nil
	case err == nil || n.ifl:
		n.out++
		return nil
	}
	n.er++
	return err
}

func (m *pmodel) event(s *pstate) error {
	var err error
	for _, n := range m.procs {
		if s.dropped || s.cancelled {
			break
		}
		if err = m.run(n, s); err != nil {
			break
		}
	}
	if err != nil {
		for _, n := range m.fail {
			if s.dropped || s.cancelled {
				break
			}
			if err = m.run(n, s); err != nil {
				break
			}
		}
	}
	return err
}

func metricKey(c prometheus.Collector) (id, name string, v float64) {
	m, ok := c.(prometheus.Metric)
	if !ok {
		return "?", "?", 0
	}
	var d dto.Metric
	if m.Write(&d) != nil {
		return "?", "?", 0
	}
	for _, l := range d.GetLabel() {
		if l.GetName() == "component_id" {
			id = l.GetValue()
		}
	}
	s := m.Desc().String()
	if i := strings.Index(s, "fqName: \""); i >= 0 {
		s = s[i+9:]
		if j := strings.Index(s, "\""); j >= 0 {
			name = s[:j]
		}
	}
	if d.Counter == nil {
		return id, name, -1
	}
	return id, name, d.Counter.GetValue()
}

func pipelines(t *T, prop string) {
	m := &pmodel{id: t.pick("p", "my-pipe", "a.b"), out: map[*pnode]func(int) outcome{}, n: map[*pnode]int{}}
	cfg := &pipeline.Config{ID: m.id}
	cfg.Processors, m.procs = m.gen(t, prop, m.id+".processors", 2+t.r.Intn(4)/3, 4)
	cfg.OnFailure, m.fail = m.gen(t, prop, m.id+".on_failure", 2+t.r.Intn(4)/3, 3)
	if prop == "C12" && t.chance(12) {
		if t.chance(3) {
			cfg = nil
		} else {
			cfg.ID = ""
		}
		m.bad = true
	}
	script.do, script.n = map[string]func(int) outcome{}, map[string]int{}
	for _, n := range m.all {
		f := m.scriptFor(t, prop, n)
		m.out[n] = f
		script.do[n.name] = f
		f0 := ""
		for i := 0; i < 4; i++ {
			o := f(i)
			f0 += fmt.Sprintf("(%v drop=%v cancel=%v twice=%v)", o.err, o.drop, o.cancel, o.again)
		}
		t.logf("%s %s missing=%v failure=%v handlers=%d %s", n.name, n.id, n.im, n.ifl, len(n.handlers), f0)
	}
	t.eval(strings.Join(t.log, ";"))
	pipe, err := pipeline.New(cfg)
	if m.bad {
		if err == nil {
			t.fail("pipeline.New rejects a configuration with an invalid entry", "no error")
		}
		return
	}
	if err != nil {
		t.fail("a valid configuration builds", "error %v", err)
	}
	if pipe.ID() != m.id && prop == "C12" {
		t.fail("id "+m.id, "%s", pipe.ID())
	}
	if prop == "C12" {
		// every processor succeeds or, for handlers to be visible, fails
		for _, n := range m.all {
			n := n
			e := &plainErr{n.name}
			f := func(int) outcome { return outcome{err: e} }
			for _, h := range m.all {
				for _, k := range h.handlers {
					if k == n {
						f = func(int) outcome { return outcome{} }
						if len(n.handlers) > 0 {
							f = m.out[n]
						}
					}
				}
			}
			m.out[n], script.do[n.name] = f, f
		}
	}
	for ev := 0; ev < 3; ev++ {
		script.calls, script.evts = nil, nil
		m.calls = nil
		e := &event.Event{}
		e.Put("n", event.Integer(int64(ev)))
		s := &pstate{}
		wantErr := m.event(s)
		got, err := pipe.Process(e)
		t.logf("event %d: calls %v", ev, script.calls)
		if prop == "C13" {
			continue
		}
		if prop != "C10" {
			if fmt.Sprint(script.calls) != fmt.Sprint(m.calls) {
				t.fail(fmt.Sprintf("processors called: %v", m.calls), "%v", script.calls)
			}
			for _, x := range script.evts {
				if x.Get("n") != e.Get("n") {
					t.fail("processors see the event", "another one")
				}
			}
			switch {
			case s.dropped:
				if got != nil || err != nil {
					t.fail("no event and no error after a drop", "%v %v", got, err)
				}
			case wantErr != nil:
				if got != nil || !errors.Is(err, wantErr) {
					t.fail(fmt.Sprintf("no event and error %v", wantErr), "%v %v", got, err)
				}
			default:
				if got != e || err != nil {
					t.fail("the event and no error", "%v %v", got, err)
				}
			}
		}
	}
	if prop == "C10" || prop == "C12" || prop == "C13" {
		want := map[string]int{}
		for _, n := range m.all {
			want[n.id+" es_component_received_events_total"] = n.in
			want[n.id+" es_component_sent_events_total"] = n.out
			want[n.id+" es_component_errors_total"] = n.er
			want[n.id+" es_component_discarded_events_total"] = n.d
		}
		seen := map[string]int{}
		for _, c := range pipe.Metrics() {
			id, name, v := metricKey(c)
			k := id + " " + name
			seen[k]++
			if prop == "C10" && (v != float64(want[k]) && strings.Contains(fmt.Sprint(keysOf(want)), k)) {
				t.fail(fmt.Sprintf("%s = %d", k, want[k]), "%v", v)
			}
		}
		if prop == "C13" || prop == "C12" {
			for k := range want {
				if seen[k] == 0 || (prop == "C13" && seen[k] != 1) {
					t.fail("Metrics lists "+k+" once", "%d times; listed %v", seen[k], keysOf(seen))
				}
			}
			for k := range seen {
				if _, ok := want[k]; !ok {
					t.fail("Metrics lists the counters of the pipeline's processors only", "%s", k)
				}
			}
			if prop == "C13" && t.chance(60) {
				t.served(pipe.Metrics())
			}
		}
	}
}

func keysOf(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
