H = '''package pipeline

import (
	"errors"
	"fmt"
	"testing"

	"github.com/prometheus/client_golang/prometheus"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"
)

var _ = fmt.Sprint
var _ prometheus.Counter

type zzConfig struct {
	Name          string `config:"name"`
	IgnoreMissing bool   `config:"ignore_missing"`
	IgnoreFailure bool   `config:"ignore_failure"`
}
type zzProc struct{ c zzConfig }

var (
	zzDo    = map[string]func(processor.Event) error{}
	zzCalls []string
)

func (p *zzProc) Config() zzConfig { return p.c }
func (p *zzProc) Process(e processor.Event) error {
	zzCalls = append(zzCalls, p.c.Name)
	if f := zzDo[p.c.Name]; f != nil {
		return f(e)
	}
	return nil
}

func init() {
	registry.MustRegister("zzdemo", func(c zzConfig) (*zzProc, error) { return &zzProc{c}, nil })
}

func zz(name string, opts map[string]interface{}, handlers ...ProcessorConfig) ProcessorConfig {
	c := map[string]interface{}{"name": name}
	for k, v := range opts {
		c[k] = v
	}
	return ProcessorConfig{"zzdemo": {Config: c, OnFailure: handlers}}
}

func zzFail(s string) func(processor.Event) error {
	err := errors.New(s)
	return func(processor.Event) error { return err }
}

func zzValue(pipe *Pipeline, id, metric string) (n float64) {
	reg := prometheus.NewRegistry()
	seen := map[prometheus.Collector]bool{}
	for _, c := range pipe.Metrics() {
		if !seen[c] {
			seen[c] = true
			reg.MustRegister(c)
		}
	}
	fs, _ := reg.Gather()
	for _, f := range fs {
		if f.GetName() != metric {
			continue
		}
		for _, m := range f.GetMetric() {
			for _, l := range m.GetLabel() {
				if l.GetName() == "component_id" && l.GetValue() == id {
					n += m.GetCounter().GetValue()
				}
			}
		}
	}
	return n
}

func TestZZDemo(t *testing.T) {
	e := event.New()
	_ = e
'''
PR, PL, EVT = 'pkg/pipeline/processor.go', 'pkg/pipeline/pipeline.go', 'pkg/pipeline/event.go'
BUGS = [
 dict(id='b10-first-error', property='C08', pkg='pkg/pipeline', edits=[(PR, '''		// On Failure
		if len(p.OnFailure) > 0 {''', '''		// On Failure
		cause := err
		if len(p.OnFailure) > 0 {'''), (PR, '''		p.metricErrorsTotal.Inc()
		return err
''', '''		p.metricErrorsTotal.Inc()
		return cause
''')],
  demo=H + '''	zzDo["p"], zzDo["h"] = zzFail("p"), zzFail("h")
	pipe, err := New(&Config{ID: "x", Processors: []ProcessorConfig{zz("p", nil, zz("h", nil))}})
	if err != nil {
		t.Fatal(err)
	}
	if r, err := pipe.Process(e); r != nil || err == nil || err.Error() != "h" {
		t.Fatal(r, err)
	}
}
''', needs='a handler that fails with an error of its own', breaks='the error of the processor is returned instead of that of the handler that failed last'),
 dict(id='b11-global-handlers-once', property='C08', pkg='pkg/pipeline', edits=[(PL, '''			if err = proc.Process(evt); err != nil {
				// Failure in global on_failure.
				return err
			}''', '''			if err = proc.Process(evt); err == nil {
				// Recovered by global on_failure.
				break
			}''')],
  demo=H + '''	zzDo["p"], zzDo["g2"] = zzFail("p"), zzFail("g2")
	pipe, err := New(&Config{ID: "x", Processors: []ProcessorConfig{zz("p", nil)}, OnFailure: []ProcessorConfig{zz("g1", nil), zz("g2", nil)}})
	if err != nil {
		t.Fatal(err)
	}
	if r, err := pipe.Process(e); r != nil || err == nil || fmt.Sprint(zzCalls) != "[p g1 g2]" {
		t.Fatal(r, err, zzCalls)
	}
}
''', needs='a pipeline with two on_failure processors', breaks='the pipeline on_failure processors stop at the first success instead of running in order until one fails'),
 dict(id='b12-missing-unwrapped', property='C09', pkg='pkg/pipeline', edits=[(PR, '''		if p.IgnoreMissing && errors.Is(err, processor.ErrorKeyMissing{}) {
			p.metricEventsOutTotal.Inc()
			return nil
		}
''', '''		if _, missing := err.(processor.ErrorKeyMissing); p.IgnoreMissing && missing {
			p.metricEventsOutTotal.Inc()
			return nil
		}
'''), (PR, '''import (
	"errors"
''', '''import (
''')],
  demo=H + '''	zzDo["p"] = func(processor.Event) error { return fmt.Errorf("x: %w", processor.ErrorKeyMissing{Key: "k"}) }
	pipe, err := New(&Config{ID: "x", Processors: []ProcessorConfig{zz("p", map[string]interface{}{"ignore_missing": true}, zz("h", nil))}})
	if err != nil {
		t.Fatal(err)
	}
	if r, err := pipe.Process(e); r != e || err != nil || fmt.Sprint(zzCalls) != "[p]" {
		t.Fatal(r, err, zzCalls)
	}
}
''', needs='a processor with ignore_missing whose missing-key error is wrapped', breaks='ignore_missing only recognises an unwrapped missing-key error'),
 dict(id='b13-missing-swallows-later', property='C09', pkg='pkg/pipeline', edits=[(PR, '''		if p.IgnoreFailure && err != nil {''', '''		if (p.IgnoreFailure || p.IgnoreMissing && len(p.OnFailure) > 0 && errors.Is(err, processor.ErrorKeyMissing{})) && err != nil {''')],
  demo=H + '''	zzDo["p"] = zzFail("p")
	zzDo["h"] = func(processor.Event) error { return processor.ErrorKeyMissing{Key: "k"} }
	pipe, err := New(&Config{ID: "x", Processors: []ProcessorConfig{zz("p", map[string]interface{}{"ignore_missing": true}, zz("h", nil))}})
	if err != nil {
		t.Fatal(err)
	}
	if r, err := pipe.Process(e); r != nil || err == nil {
		t.Fatal(r, err)
	}
}
''', needs='ignore_missing on a processor whose handler fails with a missing-key error', breaks="ignore_missing also swallows a handler's missing-key error"),
 dict(id='b14-ignored-counts-error', property='C10', pkg='pkg/pipeline', edits=[(PR, '''		if p.IgnoreFailure && err != nil {
			p.metricEventsOutTotal.Inc()
			return nil
		}
''', '''		if p.IgnoreFailure && err != nil {
			if len(p.OnFailure) > 0 {
				p.metricErrorsTotal.Inc()
				return nil
			}
			p.metricEventsOutTotal.Inc()
			return nil
		}
''')],
  demo=H + '''	zzDo["p"], zzDo["h"] = zzFail("p"), zzFail("h")
	pipe, err := New(&Config{ID: "x", Processors: []ProcessorConfig{zz("p", map[string]interface{}{"ignore_failure": true}, zz("h", nil))}})
	if err != nil {
		t.Fatal(err)
	}
	pipe.Process(e)
	id := "x.processors[0].zzdemo"
	if a, b := zzValue(pipe, id, "es_component_sent_events_total"), zzValue(pipe, id, "es_component_errors_total"); a != 1 || b != 0 {
		t.Fatal(a, b)
	}
}
''', needs='ignore_failure together with a handler that fails', breaks='an ignored failure is counted as an error instead of as sent when handlers ran'),
 dict(id='b15-drop-late', property='C11', pkg='pkg/pipeline', edits=[(PL, '''	if err := pipe.process(pipeEvt); err != nil {
		return nil, err
	}

	if pipeEvt.dropped {
		return nil, nil
	}
''', '''	if err := pipe.process(pipeEvt); err != nil {
		return nil, err
	}

	if pipeEvt.dropped && !pipeEvt.cancelled {
		return nil, nil
	}
''')],
  demo=H + '''	zzDo["p"] = func(e processor.Event) error { e.Drop(); e.Cancel(); return nil }
	pipe, err := New(&Config{ID: "x", Processors: []ProcessorConfig{zz("p", nil)}})
	if err != nil {
		t.Fatal(err)
	}
	if r, err := pipe.Process(e); r != nil || err != nil {
		t.Fatal(r, err)
	}
}
''', needs='a processor that both drops and cancels the event', breaks='an event that was dropped and cancelled is returned'),
 dict(id='b16-cancel-resets', property='C11', pkg='pkg/pipeline', edits=[(EVT, '''func (e *pipelineEvent) Cancel() {
	e.cancelled = true
}''', '''func (e *pipelineEvent) Cancel() {
	e.cancelled = !e.cancelled
}''')],
  demo=H + '''	zzDo["p"] = func(e processor.Event) error { e.Cancel(); e.Cancel(); return nil }
	pipe, err := New(&Config{ID: "x", Processors: []ProcessorConfig{zz("p", nil), zz("q", nil)}})
	if err != nil {
		t.Fatal(err)
	}
	pipe.Process(e)
	if fmt.Sprint(zzCalls) != "[p]" {
		t.Fatal(zzCalls)
	}
}
''', needs='a processor that cancels the event twice', breaks='a second Cancel undoes the first one'),
]
