#!/usr/bin/env python3
# Behaviour-preserving rewrites of the code under contract. Each is applied to a
# copy of /repo, which must build and pass its tests; then the checks of the
# properties concerned must be quiet.
#   gen/variants.py [-j N] [id-prefix...]
import os,subprocess,sys,shutil,concurrent.futures as cf
V=[]
def v(i,props,*edits): V.append((i,props.split(),edits))
EV="pkg/event/event.go"; VA="pkg/event/value.go"; TI="pkg/event/time.go"
PI="pkg/pipeline/pipeline.go"; PP="pkg/pipeline/processor.go"; PC="pkg/pipeline/config.go"; PE="pkg/pipeline/event.go"
EU="pkg/eventutil/event.go"; RE="pkg/eventutil/reflect.go"; ST="pkg/eventutil/structtag.go"
MI="pkg/serialization/mapinterface/mapinterface.go"; PB="pkg/serialization/protobuf/protobuf.go"
RG="pkg/processor/registry/registry.go"; CM="cmd/sawmill/sawmill.go"
AP="pkg/processor/append/process.go"; LO="pkg/processor/lowercase/process.go"; RM="pkg/processor/remove/process.go"; SE="pkg/processor/set/process.go"; UP="pkg/processor/uppercase/process.go"

v("e01-get-helper","C01 C02 C03 C04 C05 C07",(EV,"""	m := e.fields
	for _, key := range path[:len(path)-1] {
		inner, found := m[key]
		if !found || inner == nil || len(inner.Object) == 0 {
			return nil
		}
		m = inner.Object
	}

	return m[path[len(path)-1]]
}
""","""	return lookup(e.fields, path)
}

// lookup follows path from the object m.
func lookup(m map[string]*Value, path []string) *Value {
	last := len(path) - 1
	for i := 0; i < last; i++ {
		inner := m[path[i]]
		if inner == nil || inner.Object == nil {
			return nil
		}
		m = inner.Object
	}
	return m[path[last]]
}
"""))
v("e02-put-split","C01 C02 C03 C05 C07",(EV,"""		inner, found := m[key]
		if found && inner != nil {
			if inner.Type != ObjectType {
				return nil, fmt.Errorf("event put failed for path <%s>: %w", pathString(path), ErrTargetKeyNotObject)
			}
			if inner.Object != nil {
				m = inner.Object
				continue
			}
		}
		newObj := Object(map[string]*Value{})
		m[key] = newObj
		m = newObj.Object
	}
""","""		inner := m[key]
		if inner != nil && inner.Type != ObjectType {
			return nil, fmt.Errorf("event put failed for path <%s>: %w", pathString(path), ErrTargetKeyNotObject)
		}
		if inner == nil || inner.Object == nil {
			inner = Object(make(map[string]*Value))
			m[key] = inner
		}
		m = inner.Object
	}
"""))
v("e03-put-order","C01 C02 C03 C05 C07",(EV,"""	if len(path) == 0 {
		return nil, fmt.Errorf("event put failed: %w", ErrEmptyKey)
	}
	if val == nil {
		return nil, nil
	}

	if e.fields == nil {
		e.init()
	}

	old = e.get(path)
	if old != nil && !overwrite {
		return old, fmt.Errorf("event put failed for path <%s>: %w", pathString(path), ErrKeyExists)
	}
""","""	n := len(path)
	if n == 0 {
		return nil, fmt.Errorf("event put failed: %w", ErrEmptyKey)
	}
	if val == nil {
		return nil, nil
	}

	old = e.get(path)
	if !overwrite && old != nil {
		return old, fmt.Errorf("event put failed for path <%s>: %w", pathString(path), ErrKeyExists)
	}
	if e.fields == nil {
		e.init()
	}
"""))
v("e04-delete-walk","C04 C07",(EV,"""	v := e.get(path)
	if v != nil {
		m := e.fields
		for _, key := range path[:len(path)-1] {
			m = m[key].Object
		}
		delete(m, path[len(path)-1])
	}

	return v
""","""	v := e.get(path)
	if v == nil {
		return nil
	}

	parents, name := path[:len(path)-1], path[len(path)-1]
	m := e.fields
	for i := range parents {
		m = m[parents[i]].Object
	}
	delete(m, name)
	return v
"""))
v("e05-keytopath-ifs","C05 C06 C01",(EV,"""		switch c := key[i]; c {
		case '\\\\':
			escape = true
		case '.':
			if escape {
				pathScratch = append(pathScratch, '.')
			} else {
				if len(pathScratch) > 0 {
					paths = append(paths, string(pathScratch))
					pathScratch = pathScratch[:0]
				}
			}
			escape = false
		default:
			pathScratch = append(pathScratch, c)
			escape = false
		}
""","""		c := key[i]
		if c == '\\\\' {
			escape = true
			continue
		}
		if c != '.' || escape {
			pathScratch = append(pathScratch, c)
		} else if len(pathScratch) > 0 {
			paths = append(paths, string(pathScratch))
			pathScratch = pathScratch[:0]
		}
		escape = false
"""))
v("e06-keytopath-closure","C05 C06 C01",(EV,"""	var escape bool
	for i := 0; i < len(key); i++ {
		switch c := key[i]; c {
		case '\\\\':
			escape = true
		case '.':
			if escape {
				pathScratch = append(pathScratch, '.')
			} else {
				if len(pathScratch) > 0 {
					paths = append(paths, string(pathScratch))
					pathScratch = pathScratch[:0]
				}
			}
			escape = false
		default:
			pathScratch = append(pathScratch, c)
			escape = false
		}
	}

	if len(pathScratch) > 0 {
		paths = append(paths, string(pathScratch))
	}

	return paths
""","""	var escaped bool
	flush := func() {
		if len(pathScratch) == 0 {
			return
		}
		paths = append(paths, string(pathScratch))
		pathScratch = pathScratch[:0]
	}
	for i := 0; i < len(key); i++ {
		c := key[i]
		switch {
		case c == '\\\\':
			escaped = true
		case c == '.' && !escaped:
			flush()
		default:
			pathScratch = append(pathScratch, c)
			escaped = false
		}
	}
	flush()

	return paths
"""))
v("e07-escape","C06 C18 C19",(EU,"""	if strings.IndexByte(key, '.') == -1 {
		return key
	}
	return strings.ReplaceAll(key, ".", `\\.`)""","""	return strings.ReplaceAll(key, ".", `\\.`)"""))
v("e08-escape-contains","C06 C18 C19",(EU,"""	if strings.IndexByte(key, '.') == -1 {
		return key
	}
	return strings.ReplaceAll(key, ".", `\\.`)""","""	if !strings.Contains(key, ".") {
		return key
	}
	return strings.Replace(key, ".", "\\\\.", -1)"""))
v("e09-pathstring","C01 C02 C03 C05",(EV,"""	var sb strings.Builder
	for _, elem := range path {
		sb.WriteByte('/')
		sb.WriteString(elem)
	}

	return sb.String()""","""	return "/" + strings.Join(path, "/")"""))
v("a01-append-variadic","C24",(EU,"""		for _, v := range item.Array {
			targetValue.Array = append(targetValue.Array, v)
		}
""","""		targetValue.Array = append(targetValue.Array, item.Array...)
"""))
v("a02-append-items","C24",(EU,"""	if item.Type == event.ArrayType {
		for _, v := range item.Array {
			targetValue.Array = append(targetValue.Array, v)
		}
	} else {
		targetValue.Array = append(targetValue.Array, item)
	}
""","""	items := []*event.Value{item}
	if item.Type == event.ArrayType {
		items = item.Array
	}
	for i := range items {
		targetValue.Array = append(targetValue.Array, items[i])
	}
"""))
v("a03-append-helper","C24",(EU,"""	targetValue := evt.Get(key)
	if targetValue == nil {
		targetValue = event.Array()
	} else if targetValue.Type != event.ArrayType {
		targetValue = event.Array(targetValue)
	}
""","""	targetValue := asArray(evt.Get(key))
"""),(EU,"""// EscapeKey escapes""","""func asArray(v *event.Value) *event.Value {
	switch {
	case v == nil:
		return event.Array()
	case v.Type == event.ArrayType:
		return v
	default:
		return event.Array(v)
	}
}

// EscapeKey escapes"""))
v("p01-append-inline","C15",(AP,"""	if p.config.AllowDuplicates || !contains(v.Array, p.config.Value) {
		v.Array""","""	found := false
	for _, x := range v.Array {
		if x != nil && x.Type == event.StringType && x.String == p.config.Value {
			found = true
			break
		}
	}
	if p.config.AllowDuplicates || !found {
		v.Array"""),(AP,"""
func contains(values []*event.Value, s string) bool {
	for _, v := range values {
		if v != nil && v.Type == event.StringType && v.String == s {
			return true
		}
	}
	return false
}
""",""))
v("p02-append-switch","C15",(AP,"""	if v == nil || v.Type == event.NullType {
		if p.config.IgnoreMissing {
			return nil
		}
		v = event.Array()
	} else if v.Type == event.ObjectType {
		return errors.New("value to append to is not array")
	} else if v.Type != event.ArrayType {
		v = event.Array(v)
	}
""","""	switch {
	case v == nil, v.Type == event.NullType:
		if p.config.IgnoreMissing {
			return nil
		}
		v = &event.Value{Type: event.ArrayType}
	case v.Type == event.ArrayType:
	case v.Type == event.ObjectType:
		return errors.New("value to append to is not array")
	default:
		v = event.Array(v)
	}
"""),(AP,"""	for _, v := range values {
		if v != nil && v.Type == event.StringType && v.String == s {
			return true
		}
	}
	return false""","""	for i := 0; i < len(values); i++ {
		v := values[i]
		if v == nil || v.Type != event.StringType {
			continue
		}
		if v.String == s {
			return true
		}
	}
	return false"""))
v("p03-lower-target","C16",(LO,"""	targetField := p.config.Field
	if p.config.TargetField != "" {
		targetField = p.config.TargetField
	}

	_, err := evt.Put(targetField, event.String(out))
	return err""","""	_, err := evt.Put(p.target(), event.String(out))
	return err"""),(LO,"""func (p *Lowercase) Process(""","""func (p *Lowercase) target() string {
	if len(p.config.TargetField) == 0 {
		return p.config.Field
	}
	return p.config.TargetField
}

func (p *Lowercase) Process("""),(UP,"""	out := ""","""	field := p.config.Field
	_ = field
	out := """))
v("p04-remove-loop","C17",(RM,"""	for _, field := range p.config.Fields {
		if v := evt.Delete(field); v == nil && !p.config.IgnoreMissing {
			return processor.ErrorKeyMissing{Key: field}
		}
	}
	return nil""","""	fields := p.config.Fields
	for i := 0; i < len(fields); i++ {
		deleted := evt.Delete(fields[i])
		if deleted != nil || p.config.IgnoreMissing {
			continue
		}
		return processor.ErrorKeyMissing{Key: fields[i]}
	}
	return nil"""))
v("p05-set-helper","C14",(SE,"""	var v *event.Value
	if p.config.Value.Type != event.NullType {
		v = (*event.Value)(&p.config.Value)
	} else if p.config.CopyFrom != "" {
		v = evt.Get(p.config.CopyFrom)
		if v == nil || (v.Type == event.NullType && p.config.IgnoreMissing) {
			return processor.ErrorKeyMissing{Key: p.config.CopyFrom}
		}
	}

	// The event must not share mutable values with the configuration or with
	// the field that was copied.
	_, err := evt.Put(p.config.TargetField, v.Clone())
	return err
""","""	v, err := p.source(evt)
	if err != nil {
		return err
	}

	// The event must not share mutable values with the configuration or with
	// the field that was copied.
	_, err = evt.Put(p.config.TargetField, v.Clone())
	return err
}

func (p *Set) source(evt processor.Event) (*event.Value, error) {
	if p.config.Value.Type != event.NullType {
		return (*event.Value)(&p.config.Value), nil
	}
	if p.config.CopyFrom == "" {
		return nil, nil
	}
	v := evt.Get(p.config.CopyFrom)
	if v == nil {
		return nil, processor.ErrorKeyMissing{Key: p.config.CopyFrom}
	}
	if v.Type == event.NullType && p.config.IgnoreMissing {
		return nil, processor.ErrorKeyMissing{Key: p.config.CopyFrom}
	}
	return v, nil
"""))
v("p06-clone-order","C14",(VA,"""	c := *v
	if v.Array != nil {
		c.Array = make([]*Value, 0, len(v.Array))
		for _, x := range v.Array {
			c.Array = append(c.Array, x.Clone())
		}
	}
	if v.Object != nil {
		c.Object = make(map[string]*Value, len(v.Object))
		for k, x := range v.Object {
			c.Object[k] = x.Clone()
		}
	}
	return &c
""","""	c := *v
	if v.Object != nil {
		c.Object = make(map[string]*Value, len(v.Object))
		for k, x := range v.Object {
			c.Object[k] = x.Clone()
		}
	}
	if v.Array != nil {
		c.Array = make([]*Value, len(v.Array))
		for i, x := range v.Array {
			c.Array[i] = x.Clone()
		}
	}
	return &c
"""))
v("p07-clone-helpers","C14",(VA,"""	c := *v
	if v.Array != nil {
		c.Array = make([]*Value, 0, len(v.Array))
		for _, x := range v.Array {
			c.Array = append(c.Array, x.Clone())
		}
	}
	if v.Object != nil {
		c.Object = make(map[string]*Value, len(v.Object))
		for k, x := range v.Object {
			c.Object[k] = x.Clone()
		}
	}
	return &c
}
""","""	c := *v
	c.Array = cloneArray(v.Array)
	c.Object = cloneObject(v.Object)
	return &c
}

func cloneArray(a []*Value) []*Value {
	if a == nil {
		return nil
	}
	out := make([]*Value, 0, len(a))
	for _, x := range a {
		out = append(out, x.Clone())
	}
	return out
}

func cloneObject(m map[string]*Value) map[string]*Value {
	if m == nil {
		return nil
	}
	out := make(map[string]*Value, len(m))
	for k, x := range m {
		out[k] = x.Clone()
	}
	return out
}
"""))
v("r01-process-flat","C08 C09 C10 C11",(PI,"""	if err != nil && len(pipe.onFailure) > 0 {
		for _, proc := range pipe.onFailure {
			if evt.stopped() {
				break
			}
			if err = proc.Process(evt); err != nil {
				// Failure in global on_failure.
				return err
			}
		}
	}

	if err != nil {
		return err
	}

	return nil
""","""	if err == nil {
		return nil
	}

	for _, handler := range pipe.onFailure {
		if evt.stopped() {
			break
		}
		if err = handler.Process(evt); err != nil {
			// Failure in global on_failure.
			return err
		}
	}

	return err
"""))
v("r02-process-helper","C08 C09 C10 C11",(PI,"""	var err error
	for _, proc := range pipe.processors {
		if evt.stopped() {
			break
		}
		if err = proc.Process(evt); err != nil {
			// Go to global on_failure handler.
			break
		}
	}

	if err != nil && len(pipe.onFailure) > 0 {
		for _, proc := range pipe.onFailure {
			if evt.stopped() {
				break
			}
			if err = proc.Process(evt); err != nil {
				// Failure in global on_failure.
				return err
			}
		}
	}

	if err != nil {
		return err
	}

	return nil
}
""","""	err := runAll(pipe.processors, evt, nil)
	if err != nil {
		err = runAll(pipe.onFailure, evt, err)
	}
	return err
}

// runAll runs the processors until one fails or the event is stopped. It
// returns err if none of them ran.
func runAll(procs []*pipelineProcessor, evt *pipelineEvent, err error) error {
	for _, proc := range procs {
		if evt.stopped() {
			break
		}
		if err = proc.Process(evt); err != nil {
			break
		}
	}
	return err
}
"""))
v("r03-proc-early","C08 C09 C10 C11",(PP,"""	if err := p.proc.Process(event); err != nil || event.dropped {
		if event.dropped {
			p.metricDiscardedEventsTotal.Inc()
			return nil
		}

		// Ignore Missing
		if p.IgnoreMissing && errors.Is(err, processor.ErrorKeyMissing{}) {
			p.metricEventsOutTotal.Inc()
			return nil
		}

		// On Failure
		if len(p.OnFailure) > 0 {
			for _, proc := range p.OnFailure {
				if event.stopped() {
					break
				}
				if err = proc.Process(event); err != nil {
					break
				}
			}

			if event.dropped {
				p.metricDiscardedEventsTotal.Inc()
				return nil
			}

			// Recovered
			if err == nil {
				p.metricEventsOutTotal.Inc()
				return nil
			}
		}

		// Ignore Failure
		if p.IgnoreFailure && err != nil {
			p.metricEventsOutTotal.Inc()
			return nil
		}

		// Could not recover from the error or ignore it.
		p.metricErrorsTotal.Inc()
		return err
	}

	p.metricEventsOutTotal.Inc()
	return nil
""","""	err := p.proc.Process(event)
	if err != nil && !event.dropped && p.IgnoreMissing && errors.Is(err, processor.ErrorKeyMissing{}) {
		err = nil
	}

	// On Failure
	if err != nil && !event.dropped {
		for _, handler := range p.OnFailure {
			if event.stopped() {
				break
			}
			if err = handler.Process(event); err != nil {
				break
			}
		}
	}

	switch {
	case event.dropped:
		p.metricDiscardedEventsTotal.Inc()
		return nil
	case err == nil, p.IgnoreFailure:
		p.metricEventsOutTotal.Inc()
		return nil
	default:
		// Could not recover from the error or ignore it.
		p.metricErrorsTotal.Inc()
		return err
	}
"""))
v("r04-proc-helper","C08 C09 C10 C11",(PP,"""		if len(p.OnFailure) > 0 {
			for _, proc := range p.OnFailure {
				if event.stopped() {
					break
				}
				if err = proc.Process(event); err != nil {
					break
				}
			}

			if event""","""		if len(p.OnFailure) > 0 {
			err = p.recover(event, err)

			if event"""),(PP,"""func newPipelineProcessors(""","""func (p *pipelineProcessor) recover(event *pipelineEvent, err error) error {
	for _, proc := range p.OnFailure {
		if event.stopped() {
			return err
		}
		if err = proc.Process(event); err != nil {
			return err
		}
	}
	return err
}

func newPipelineProcessors("""))
v("r05-event-drop","C08 C11",(PI,"""	if err := pipe.process(pipeEvt); err != nil {
		return nil, err
	}

	if pipeEvt.dropped {
		return nil, nil
	}

	return pipeEvt.data, nil""","""	err := pipe.process(pipeEvt)
	if err != nil || pipeEvt.dropped {
		return nil, err
	}
	return evt, nil"""))
v("m01-metrics-plain","C13",(PI,"""	var metrics []prometheus.Collector
	pipe.visitProcessors(func(proc *pipelineProcessor) {
		metrics = append(metrics,
			proc.metricDiscardedEventsTotal,
			proc.metricErrorsTotal,
			proc.metricEventsInTotal,
			proc.metricEventsOutTotal,
		)
	})
	return metrics
}
""","""	var metrics []prometheus.Collector
	collect := func(proc *pipelineProcessor) {
		metrics = append(metrics, proc.metricDiscardedEventsTotal)
		metrics = append(metrics, proc.metricErrorsTotal)
		metrics = append(metrics, proc.metricEventsInTotal, proc.metricEventsOutTotal)
	}
	pipe.visitProcessors(collect)
	return metrics
}
"""))
v("m02-metrics-method","C13",(PI,"""		metrics = append(metrics,
			proc.metricDiscardedEventsTotal,
			proc.metricErrorsTotal,
			proc.metricEventsInTotal,
			proc.metricEventsOutTotal,
		)
	})
""","""		metrics = append(metrics, proc.collectors()...)
	})
"""),(PI,"""func (pipe *Pipeline) visitProcessors""","""func (p *pipelineProcessor) collectors() []prometheus.Collector {
	return []prometheus.Collector{
		p.metricDiscardedEventsTotal,
		p.metricErrorsTotal,
		p.metricEventsInTotal,
		p.metricEventsOutTotal,
	}
}

func (pipe *Pipeline) visitProcessors"""))
v("m03-metrics-lists","C13",(PI,"""	for _, proc := range pipe.processors {
		visitProcessor(visit, proc)
	}
	for _, proc := range pipe.onFailure {
		visitProcessor(visit, proc)
	}
}
""","""	visitAll(visit, pipe.processors)
	visitAll(visit, pipe.onFailure)
}

func visitAll(visit func(processor *pipelineProcessor), procs []*pipelineProcessor) {
	for _, proc := range procs {
		visitProcessor(visit, proc)
	}
}
"""))
v("n01-new-counters","C12",(PP,"""		metricDiscardedEventsTotal: prometheus.NewCounter(prometheus.CounterOpts{
			Namespace:   "es",
			Name:        "component_discarded_events_total",
			Help:        "Total number of events dropped by component.",
			ConstLabels: labels,
		}),
		metricErrorsTotal: prometheus.NewCounter(prometheus.CounterOpts{
			Namespace:   "es",
			Name:        "component_errors_total",
			Help:        "Total number of errors by component.",
			ConstLabels: labels,
		}),
""","""		metricDiscardedEventsTotal: newCounter("component_discarded_events_total", "Total number of events dropped by component.", labels),
		metricErrorsTotal:          newCounter("component_errors_total", "Total number of errors by component.", labels),
"""),(PP,"""func ignores(""","""func newCounter(name, help string, labels map[string]string) prometheus.Counter {
	return prometheus.NewCounter(prometheus.CounterOpts{
		Namespace:   "es",
		Name:        name,
		Help:        help,
		ConstLabels: labels,
	})
}

func ignores("""))
v("n02-new-order","C12",(PP,"""	ignoreMissingPtr, ignoreFailurePtr, err := ignores(proc)
	if err != nil {
		return nil, err
	}

	onFailureProcessors, err := newPipelineProcessors(id+".on_failure", config.OnFailure)
	if err != nil {
		return nil, err
	}
""","""	onFailureProcessors, err := newPipelineProcessors(id+".on_failure", config.OnFailure)
	if err != nil {
		return nil, err
	}

	ignoreMissingPtr, ignoreFailurePtr, err := ignores(proc)
	if err != nil {
		return nil, err
	}
"""),(PP,"""	processors := make([]*pipelineProcessor, 0, len(procConfigs))
	for i, processorConfig := range procConfigs {
		procType, options, err := processorConfig.getProcessor()
""","""	processors := make([]*pipelineProcessor, 0, len(procConfigs))
	for i := range procConfigs {
		procType, options, err := procConfigs[i].getProcessor()
"""))
v("n03-new-sprintf","C12",(PP,"""	id := baseID + "[" + strconv.Itoa(processorIndex) + "]." + processorType
""","""	index := "[" + strconv.Itoa(processorIndex) + "]"
	id := baseID + index + "." + processorType
"""),(PI,"""	if config == nil || config.ID == "" {
		return nil, errors.New("pipeline must have a non-empty id")
	}
""","""	if config == nil || len(config.ID) == 0 {
		return nil, errors.New("pipeline must have a non-empty id")
	}
"""),(PC,"""	if len(c) == 0 {
		return "", nil, errors.New("processor cannot be empty")
	}
	if len(c) > 1 {
		return "", nil, errors.New("only one processor must be specified")
	}
	for k, v := range c {
		if v == nil {
			v = &ProcessorOptionConfig{}
		}
		return k, v, nil
	}
""","""	switch n := len(c); {
	case n == 0:
		return "", nil, errors.New("processor cannot be empty")
	case n > 1:
		return "", nil, errors.New("only one processor must be specified")
	}
	for name, opts = range c {
		if opts == nil {
			opts = new(ProcessorOptionConfig)
		}
		return name, opts, nil
	}
"""))
v("n04-slice-set","C12",(PP,"""	processors := make([]*pipelineProcessor, 0, len(procConfigs))
""","""	processors := make([]*pipelineProcessor, len(procConfigs))
"""),(PP,"""		processors = append(processors, pipeProc)
""","""		processors[i] = pipeProc
"""))
v("s01-from-inline","C18",(MI,"""	case event.ObjectType:
		return fromEventValueObject(v)
""","""	case event.ObjectType:
		fields := make(map[string]interface{}, len(v.Object))
		for k, x := range v.Object {
			fields[k] = fromEventValue(x)
		}
		return fields
"""))
v("s02-from-items","C18",(MI,"""		items := make([]interface{}, 0, len(v.Array))
		for _, x := range v.Array {
			items = append(items, fromEventValue(x))
		}
		return items
""","""		return fromArray(v.Array)
"""),(MI,"""func fromEventValue(v""","""func fromArray(values []*event.Value) []interface{} {
	items := make([]interface{}, len(values))
	for i, x := range values {
		items[i] = fromEventValue(x)
	}
	return items
}

func fromEventValue(v"""))
v("s03-to-order","C18",(MI,"""	fields, err := eventutil.ReflectValue(m)
	if err != nil {
		return nil, err
	}

	evt := event.New()
	for k, v := range fields.Object {
		if _, err := evt.Put(eventutil.EscapeKey(k), v); err != nil {
			return nil, err
		}
	}
""","""	evt := event.New()
	obj, err := eventutil.ReflectValue(m)
	if err != nil {
		return nil, err
	}

	for name, value := range obj.Object {
		key := eventutil.EscapeKey(name)
		_, err = evt.Put(key, value)
		if err != nil {
			return nil, err
		}
	}
"""))
v("s04-pb-null","C19",(PB,"""	if v == nil {
		// A message with a nil value in a repeated field cannot be encoded.
		return &Value{
			Kind: &Value_Null{
				Null: ValueNull_NULL_VALUE,
			},
		}
	}

	switch""","""	if v == nil {
		// A message with a nil value in a repeated field cannot be encoded.
		return nullValue()
	}

	switch"""),(PB,"""	case event.NullType:
		return &Value{
			Kind: &Value_Null{
				Null: ValueNull_NULL_VALUE,
			},
		}
""","""	case event.NullType:
		return nullValue()
"""),(PB,"""func ToLogEvent""","""func nullValue() *Value {
	return &Value{Kind: &Value_Null{Null: ValueNull_NULL_VALUE}}
}

func ToLogEvent"""))
v("s05-pb-to-split","C19",(PB,"""		items := make([]*event.Value, 0, len(t.Array.GetItems()))
		for _, x := range t.Array.GetItems() {
			items = append(items, toEventValue(x))
		}
		return event.Array(items...)
""","""		return toEventArray(t.Array)
"""),(PB,"""		fields := make(map[string]*event.Value, len(t.Object.GetFields()))
		for k, v := range t.Object.GetFields() {
			fields[k] = toEventValue(v)
		}
		return event.Object(fields)
""","""		return toEventObject(t.Object)
"""),(PB,"""func toEventValue(""","""func toEventArray(a *ValueArray) *event.Value {
	values := a.GetItems()
	items := make([]*event.Value, 0, len(values))
	for _, x := range values {
		items = append(items, toEventValue(x))
	}
	return event.Array(items...)
}

func toEventObject(o *ValueObject) *event.Value {
	fields := make(map[string]*event.Value, len(o.GetFields()))
	for k, v := range o.GetFields() {
		fields[k] = toEventValue(v)
	}
	return event.Object(fields)
}

func toEventValue("""))
v("s06-pb-from","C19",(PB,"""	return &MessageWrapper{
		Message: &MessageWrapper_Log{
			Log: &Log{
				Object: fromEventValueObject(evt.Get(".")),
			},
		},
	}
""","""	root := evt.Get(".")
	log := &Log{Object: fromEventValueObject(root)}
	return &MessageWrapper{Message: &MessageWrapper_Log{Log: log}}
"""),(PB,"""	if l == nil || l.Object == nil {
		return nil
	}

	evt := event.New()
	for k, v := range l.Object.Fields {
""","""	if l == nil {
		return nil
	}
	obj := l.GetObject()
	if obj == nil {
		return nil
	}

	evt := event.New()
	for k, v := range obj.Fields {
"""))
v("g01-reflect-inline","C20 C18",(RE,"""	case reflect.Array, reflect.Slice:
		return reflectSliceToArray(rv)
""","""	case reflect.Slice, reflect.Array:
		values := make([]*event.Value, 0, rv.Len())
		for i := 0; i < rv.Len(); i++ {
			x, err := interfaceToValue(rv.Index(i).Interface())
			if err != nil {
				return nil, err
			}
			values = append(values, x)
		}
		return event.Array(values...), nil
"""),(RE,"""func reflectSliceToArray(rv reflect.Value) (*event.Value, error) {
	n := rv.Len()
	values := make([]*event.Value, 0, n)
	for i := 0; i < n; i++ {
		sliceValue, err := interfaceToValue(rv.Index(i).Interface())
		if err != nil {
			return nil, err
		}

		values = append(values, sliceValue)
	}

	return event.Array(values...), nil
}
""",""))
v("g02-reflect-order","C20 C18",(RE,"""	switch typ.Kind() {
	case reflect.Ptr, reflect.Interface:
		if rv.IsNil() {
			return event.NullValue, nil
		}
	}

	switch {
	case typ.Implements(errorInterface):
		err := rv.Interface().(error)
		return event.String(err.Error()), nil
	}
""","""	kind := typ.Kind()
	if kind == reflect.Ptr || kind == reflect.Interface {
		if rv.IsNil() {
			return event.NullValue, nil
		}
	}

	if typ.Implements(errorInterface) {
		return event.String(rv.Interface().(error).Error()), nil
	}
"""),(RE,"""		switch {
		case rv.CanConvert(timeInterface):
			return interfaceToValue(rv.Convert(timeInterface).Interface())
		}
""","""		if rv.CanConvert(timeInterface) {
			t := rv.Convert(timeInterface)
			return interfaceToValue(t.Interface())
		}
"""))
v("g03-struct-helper","C20 C18",(RE,"""		name := strings.ToLower(field.Name)

		tagName, tagOpts := parseTag(field.Tag.Get(tagName))
		if tagName != "" {
			name = tagName
		}
""","""		name, tagOpts := parseTag(field.Tag.Get(tagName))
		if name == "" {
			name = strings.ToLower(field.Name)
		}
"""),(RE,"""			zero := reflect.Zero(val.Type()).Interface()
			current := val.Interface()

			if reflect.DeepEqual(current, zero) {
				continue
			}
""","""			if reflect.DeepEqual(val.Interface(), reflect.Zero(val.Type()).Interface()) {
				continue
			}
"""))
v("g04-map-object","C20 C18",(RE,"""		obj := make(map[string]*event.Value, len(t))
		for k, v := range t {
			v, err := interfaceToValue(v)
			if err != nil {
				return nil, fmt.Errorf("failed on key %q: %w", k, err)
			}

			obj[k] = v
		}
		return event.Object(obj), nil
""","""		return mapToObject(t)
"""),(RE,"""func reflectToValue(""","""func mapToObject(m map[string]interface{}) (*event.Value, error) {
	obj := make(map[string]*event.Value, len(m))
	for k, elem := range m {
		val, err := interfaceToValue(elem)
		if err != nil {
			return nil, fmt.Errorf("failed on key %q: %w", k, err)
		}
		obj[k] = val
	}
	return event.Object(obj), nil
}

func reflectToValue("""))
v("g05-fields","C20 C18",(RE,"""		if field.PkgPath != "" {
			continue
		}

		// don't check if it's omitted
		if tag := field.Tag.Get(tagName); tag == "-" {
			continue
		}

		f = append(f, field)
""","""		exported := field.PkgPath == ""
		if exported && field.Tag.Get(tagName) != "-" {
			f = append(f, field)
		}
"""),(ST,"""	for _, tagOpt := range t {
		if tagOpt == opt {
			return true
		}
	}
""","""	for i := range t {
		if t[i] == opt {
			return true
		}
	}
"""))
v("j01-value-order","C21",(VA,"""	switch v.Type {
	case ArrayType:
		if v.Array == nil {
			return []*Value{} // A nil slice would encode as null.
		}
		return v.Array
	case BoolType:
		return v.Bool
""","""	switch v.Type {
	case BoolType:
		return v.Bool
	case ArrayType:
		if v.Array != nil {
			return v.Array
		}
		return make([]*Value, 0) // A nil slice would encode as null.
"""))
v("j02-unmarshal-helper","C21",(VA,"""	default:
		var value interface{}
		if err = json.Unmarshal(data, &value); err != nil {
			return err
		}

		switch x := value.(type) {
		case string:
			v.Type = StringType
			v.String = x
		case float64:
			v.Type = FloatType
			v.Float = x
		case int64:
			v.Type = IntegerType
			v.Integer = x
		case bool:
			v.Type = BoolType
			v.Bool = x
		case nil:
			v.Type = NullType
		default:
			return fmt.Errorf("unhandled type %T for value %q", x, string(data))
		}
	}

	return nil
}
""","""	default:
		return v.unmarshalScalar(data)
	}

	return nil
}

func (v *Value) unmarshalScalar(data []byte) error {
	var value interface{}
	if err := json.Unmarshal(data, &value); err != nil {
		return err
	}

	switch x := value.(type) {
	case nil:
		v.Type = NullType
	case bool:
		v.Type, v.Bool = BoolType, x
	case float64:
		v.Type, v.Float = FloatType, x
	case int64:
		v.Type, v.Integer = IntegerType, x
	case string:
		v.Type, v.String = StringType, x
	default:
		return fmt.Errorf("unhandled type %T for value %q", x, string(data))
	}
	return nil
}
"""))
v("j03-unmarshal-local","C21",(VA,"""		if err = json.Unmarshal(data, &v.Object); err != nil {
			return err
		}
		replaceNilFields(v.Object)
		v.Type = ObjectType
""","""		var object map[string]*Value
		if err = json.Unmarshal(data, &object); err != nil {
			return err
		}
		replaceNilFields(object)
		v.Type, v.Object = ObjectType, object
"""),(EV,"""	if e.fields == nil {
		return []byte("{}"), nil
	}
	return json.Marshal(e.fields)
""","""	fields := e.fields
	if fields == nil {
		fields = map[string]*Value{}
	}
	return json.Marshal(fields)
"""))
v("j04-time-fields","C21 C18",(TI,"""	return []byte(`"` + t.GoTime().Format(time.RFC3339Nano) + `"`), nil
""","""	text := t.GoTime().Format(time.RFC3339Nano)
	out := make([]byte, 0, len(text)+2)
	out = append(out, '"')
	out = append(out, text...)
	out = append(out, '"')
	return out, nil
"""))
v("j05-nil-fields","C21",(VA,"""	for k, v := range fields {
		if v == nil {
			fields[k] = NullValue
		}
	}
""","""	for k := range fields {
		if fields[k] != nil {
			continue
		}
		fields[k] = NullValue
	}
"""))
v("i01-registry-extract","C22",(RG,"""	pc := &processorConstructor{
		newConfig: func() reflect.Value {
			return reflect.New(configType)
		},
		newProc: func(config reflect.Value) (processor.Processor, error) {
			if config.Type().Kind() == reflect.Ptr {
				config = config.Elem()
			}
			out := v.Call([]reflect.Value{config})
			if !out[1].IsNil() {
				return nil, out[1].Interface().(error)
			}
			return out[0].Interface().(processor.Processor), nil
		},
	}
	v.Call(""","""	newConfig := func() reflect.Value { return reflect.New(configType) }
	newProc := func(config reflect.Value) (processor.Processor, error) {
		if config.Kind() == reflect.Ptr {
			config = config.Elem()
		}
		out := v.Call([]reflect.Value{config})
		if out[1].IsNil() {
			return out[0].Interface().(processor.Processor), nil
		}
		return nil, out[1].Interface().(error)
	}
	pc := &processorConstructor{newConfig: newConfig, newProc: newProc}
	v.Call("""))
v("i02-registry-unpack","C22",(RG,"""	procConfigValue := pc.newConfig()

	uConf, err := ucfg.NewFrom(config)
	if err != nil {
		return nil, err
	}

	if err := uConf.Unpack(procConfigValue.Interface()); err != nil {
		return nil, err
	}

	return pc.newProc(procConfigValue)
""","""	uConf, err := ucfg.NewFrom(config)
	if err != nil {
		return nil, err
	}

	procConfigValue := pc.newConfig()
	if err = uConf.Unpack(procConfigValue.Interface()); err != nil {
		return nil, err
	}

	proc, err := pc.newProc(procConfigValue)
	if err != nil {
		return nil, err
	}
	return proc, nil
"""),(RG,"""	pc, err := validateConfig(constructorFunc)
	if err != nil {
		return err
	}
	r.procs[name] = *pc
	return nil
""","""	pc, err := validateConfig(constructorFunc)
	if err == nil {
		r.procs[name] = *pc
	}
	return err
"""))
v("i03-registry-checks","C22",(RG,"""	// Check config.
	if t.NumIn() != 1 {
		return nil, fmt.Errorf("function must accept one arg")
	}
	configType := t.In(0)
	if configType.Kind() != reflect.Struct {
		return nil, fmt.Errorf("function must be config struct")
	}

	if t.NumOut() != 2 {
		return nil, fmt.Errorf("function must return 2 values")
	}
""","""	if t.NumIn() != 1 || t.NumOut() != 2 {
		return nil, fmt.Errorf("function must accept one arg and return 2 values")
	}

	// Check config.
	configType := t.In(0)
	if configType.Kind() != reflect.Struct {
		return nil, fmt.Errorf("function must be config struct")
	}
"""))
v("c01-cli-helper","C23",(CM,"""		// Create new event.
		evt := event.New()
		evt.Put("@metadata.line_number", event.UnsignedInteger(lineNumber))
		evt.Put("event.original", event.String(line))

		// Process the event.
		evt, err := pipe.Process(evt)
""","""		// Process the event.
		evt, err := pipe.Process(newLineEvent(lineNumber, line))
"""),(CM,"""func bufferedFileWriter(""","""func newLineEvent(number uint64, line string) *event.Event {
	evt := event.New()
	evt.Put("event.original", event.String(line))
	evt.Put("@metadata.line_number", event.UnsignedInteger(number))
	return evt
}

func bufferedFileWriter("""))
v("c02-cli-loop","C23",(CM,"""	for s.Scan() {
		lineNumber++
""","""	for lineNumber = 1; s.Scan(); lineNumber++ {
"""))
v("c03-cli-switch","C23",(CM,"""		if err != nil {
			log.Printf("Error processing line %d: %v", lineNumber, err)
			continue
		}

		// Dropped event.
		if evt == nil {
			continue
		}

		if err := enc.Encode(evt); err != nil {
			log.Printf("Unexpected error marshaling event from line %d to JSON: %v", lineNumber, err)
			continue
		}
	}
""","""		switch {
		case err != nil:
			log.Printf("Error processing line %d: %v", lineNumber, err)
		case evt != nil:
			if err = enc.Encode(evt); err != nil {
				log.Printf("Unexpected error marshaling event from line %d to JSON: %v", lineNumber, err)
			}
		}
	}
"""))
v("c04-cli-lines","C23",(CM,"""	for s.Scan() {
		lineNumber++

		// Skip empty lines.
		line := strings.TrimSpace(s.Text())
		if line == "" {
			continue
		}

		// Create new event.
		evt := event.New()
		evt.Put("@metadata.line_number", event.UnsignedInteger(lineNumber))
		evt.Put("event.original", event.String(line))

		// Process the event.
		evt, err := pipe.Process(evt)
		if err != nil {
			log.Printf("Error processing line %d: %v", lineNumber, err)
			continue
		}

		// Dropped event.
		if evt == nil {
			continue
		}

		if err := enc.Encode(evt); err != nil {
			log.Printf("Unexpected error marshaling event from line %d to JSON: %v", lineNumber, err)
			continue
		}
	}
	if err""","""	for s.Scan() {
		lineNumber++
		processLine(s.Text(), lineNumber, enc, pipe)
	}
	if err"""),(CM,"""func bufferedFileWriter(""","""func processLine(text string, lineNumber uint64, enc *json.Encoder, pipe *pipeline.Pipeline) {
	// Skip empty lines.
	line := strings.TrimSpace(text)
	if line == "" {
		return
	}

	// Create new event.
	evt := event.New()
	evt.Put("@metadata.line_number", event.UnsignedInteger(lineNumber))
	evt.Put("event.original", event.String(line))

	// Process the event.
	evt, err := pipe.Process(evt)
	if err != nil {
		log.Printf("Error processing line %d: %v", lineNumber, err)
		return
	}

	// Dropped event.
	if evt == nil {
		return
	}

	if err := enc.Encode(evt); err != nil {
		log.Printf("Unexpected error marshaling event from line %d to JSON: %v", lineNumber, err)
	}
}

func bufferedFileWriter("""))
v("o01-options-helper","C25",(PC,"""	id, cond, onFailure := c.ID, c.If, c.OnFailure
	if m, found := members["id"]; found {
		if err := json.Unmarshal(m, &id); err != nil {
			return err
		}
	}
	if m, found := members["if"]; found {
		if err := json.Unmarshal(m, &cond); err != nil {
			return err
		}
	}
	if m, found := members["on_failure"]; found {
		if err := json.Unmarshal(m, &onFailure); err != nil {
			return err
		}
	}
	c.ID, c.If, c.OnFailure = id, cond, onFailure
""","""	if m, found := members["id"]; found {
		if err := json.Unmarshal(m, &c.ID); err != nil {
			return err
		}
	}
	if m, found := members["if"]; found {
		if err := json.Unmarshal(m, &c.If); err != nil {
			return err
		}
	}
	if m, found := members["on_failure"]; found {
		if err := json.Unmarshal(m, &c.OnFailure); err != nil {
			return err
		}
	}
"""))
v("o02-options-raw","C25",(PC,"""	if len(raw) > 0 {
		c.Config = make(map[string]interface{}, len(raw))
	}
	for k, v := range raw {
		c.Config[k] = v
	}
	return nil
""","""	if len(raw) > 0 {
		c.Config = raw
	}
	return nil
"""))
v("o03-options-skip","C25",(PC,"""	delete(raw, "id")
	delete(raw, "if")
	delete(raw, "on_failure")

	if len(raw) > 0 {
		c.Config = make(map[string]interface{}, len(raw))
	}
	for k, v := range raw {
		c.Config[k] = v
	}
	return nil
""","""	settings := make(map[string]interface{}, len(raw))
	for k, v := range raw {
		switch k {
		case "id", "if", "on_failure":
		default:
			settings[k] = v
		}
	}
	if len(settings) > 0 {
		c.Config = settings
	}
	return nil
"""))
v("o04-marshal-order","C25",(PC,"""	data := map[string]interface{}{}
	if c.ID != "" {
		data["id"] = c.ID
	}
	if c.If != "" {
		data["if"] = c.If
	}
	if len(c.OnFailure) > 0 {
		data["on_failure"] = c.OnFailure
	}
	for""","""	data := make(map[string]interface{}, len(c.Config)+3)
	if len(c.OnFailure) != 0 {
		data["on_failure"] = c.OnFailure
	}
	if c.If != "" {
		data["if"] = c.If
	}
	if len(c.ID) > 0 {
		data["id"] = c.ID
	}
	for"""))

# --- second set ---
v("xe1-get-while","C01 C02 C04 C05 C07",(EV,"""	m := e.fields
	for _, key := range path[:len(path)-1] {
		inner, found := m[key]
		if !found || inner == nil || len(inner.Object) == 0 {
			return nil
		}
		m = inner.Object
	}

	return m[path[len(path)-1]]
""","""	m := e.fields
	for len(path) > 1 {
		inner, found := m[path[0]]
		if !found || inner == nil || len(inner.Object) == 0 {
			return nil
		}
		m = inner.Object
		path = path[1:]
	}

	return m[path[0]]
"""))
v("xe2-put-getfirst","C01 C02 C03 C05 C07",(EV,"""	for _, key := range path[:len(path)-1] {
		inner, found := m[key]
		if found && inner != nil {
			if inner.Type != ObjectType {
				return nil, fmt.Errorf("event put failed for path <%s>: %w", pathString(path), ErrTargetKeyNotObject)
			}
			if inner.Object != nil {
				m = inner.Object
				continue
			}
		}
		newObj := Object(map[string]*Value{})
		m[key] = newObj
		m = newObj.Object
	}
	m[path[len(path)-1]] = val
	return old, nil
""","""	parents, name := path[:len(path)-1], path[len(path)-1]
	for _, key := range parents {
		inner := m[key]
		switch {
		case inner != nil && inner.Type != ObjectType:
			return nil, fmt.Errorf("event put failed for path <%s>: %w", pathString(path), ErrTargetKeyNotObject)
		case inner != nil && inner.Object != nil:
			m = inner.Object
		default:
			next := make(map[string]*Value)
			m[key] = Object(next)
			m = next
		}
	}
	m[name] = val
	return old, nil
"""))
v("xe3-put-child-helper","C01 C02 C03 C05 C07",(EV,"""	for _, key := range path[:len(path)-1] {
		inner, found := m[key]
		if found && inner != nil {
			if inner.Type != ObjectType {
				return nil, fmt.Errorf("event put failed for path <%s>: %w", pathString(path), ErrTargetKeyNotObject)
			}
			if inner.Object != nil {
				m = inner.Object
				continue
			}
		}
		newObj := Object(map[string]*Value{})
		m[key] = newObj
		m = newObj.Object
	}
	m[path[len(path)-1]] = val
	return old, nil
}
""","""	for _, key := range path[:len(path)-1] {
		child, err := childObject(m, key)
		if err != nil {
			return nil, fmt.Errorf("event put failed for path <%s>: %w", pathString(path), err)
		}
		m = child
	}
	m[path[len(path)-1]] = val
	return old, nil
}

// childObject returns the object stored under key, creating it when needed.
func childObject(m map[string]*Value, key string) (map[string]*Value, error) {
	inner, found := m[key]
	if found && inner != nil {
		if inner.Type != ObjectType {
			return nil, ErrTargetKeyNotObject
		}
		if inner.Object != nil {
			return inner.Object, nil
		}
	}
	newObj := Object(map[string]*Value{})
	m[key] = newObj
	return newObj.Object, nil
}
"""))
v("xe4-delete-early","C04 C05 C07",(EV,"""	v := e.get(path)
	if v != nil {
		m := e.fields
		for _, key := range path[:len(path)-1] {
			m = m[key].Object
		}
		delete(m, path[len(path)-1])
	}

	return v
""","""	v := e.get(path)
	if v == nil {
		return nil
	}

	m := e.fields
	for i := 0; i < len(path)-1; i++ {
		m = m[path[i]].Object
	}
	delete(m, path[len(path)-1])
	return v
"""))
v("xe5-keytopath-range","C05 C06",(EV,"""	for i := 0; i < len(key); i++ {
		switch c := key[i]; c {
""","""	for _, c := range []byte(key) {
		switch c {
"""))
v("xe6-keytopath-flush","C05 C06",(EV,"""				if len(pathScratch) > 0 {
					paths = append(paths, string(pathScratch))
					pathScratch = pathScratch[:0]
				}
			}
			escape = false
""","""				paths, pathScratch = flush(paths, pathScratch)
			}
			escape = false
"""),(EV,"""	if len(pathScratch) > 0 {
		paths = append(paths, string(pathScratch))
	}

	return paths
}
""","""	paths, _ = flush(paths, pathScratch)
	return paths
}

func flush(paths []string, scratch []byte) ([]string, []byte) {
	if len(scratch) == 0 {
		return paths, scratch
	}
	return append(paths, string(scratch)), scratch[:0]
}
"""))
v("xe7-keytopath-scratchnil","C05 C06",(EV,"pathScratch = pathScratch[:0]","pathScratch = nil"))
v("xe8-put-direct","C01 C02 C03",(EV,"""	return e.put(keyToPath(key), val, true)
""","""	const overwrite = true
	path := keyToPath(key)
	return e.put(path, val, overwrite)
"""),(EV,"""	if e.fields == nil {
		e.init()
	}

	old = e.get""","""	if e.fields == nil {
		e.fields = make(map[string]*Value)
	}

	old = e.get"""))
v("xe9-put-replaceloop","C01 C02 C05",(EV,"""	for _, key := range path[:len(path)-1] {
		inner, found := m[key]
		if found && inner != nil {
			if inner.Type != ObjectType {""","""	for i := 0; i+1 < len(path); i++ {
		key := path[i]
		inner, found := m[key]
		if found && inner != nil {
			if inner.Type != ObjectType {"""))
v("xa1-append-ellipsis","C24",("pkg/eventutil/event.go","""	if item.Type == event.ArrayType {
		for _, v := range item.Array {
			targetValue.Array = append(targetValue.Array, v)
		}
	} else {
		targetValue.Array = append(targetValue.Array, item)
	}
""","""	if item.Type == event.ArrayType {
		targetValue.Array = append(targetValue.Array, item.Array...)
	} else {
		targetValue.Array = append(targetValue.Array, item)
	}
"""))
v("xa2-append-switch","C24",("pkg/eventutil/event.go","""	targetValue := evt.Get(key)
	if targetValue == nil {
		targetValue = event.Array()
	} else if targetValue.Type != event.ArrayType {
		targetValue = event.Array(targetValue)
	}
""","""	targetValue := evt.Get(key)
	switch {
	case targetValue == nil:
		targetValue = event.Array()
	case targetValue.Type != event.ArrayType:
		targetValue = event.Array(targetValue)
	}
"""))
v("xp1-append-index","C15",(AP,"""	for _, v := range values {
		if v != nil && v.Type == event.StringType && v.String == s {
			return true
		}
	}
	return false
""","""	found := false
	for i := 0; i < len(values) && !found; i++ {
		v := values[i]
		found = v != nil && v.Type == event.StringType && v.String == s
	}
	return found
"""))
v("xp2-append-convert","C15",(AP,"""	v := evt.Get(p.config.Field)
	if v == nil || v.Type == event.NullType {
		if p.config.IgnoreMissing {
			return nil
		}
		v = event.Array()
	} else if v.Type == event.ObjectType {
		return errors.New("value to append to is not array")
	} else if v.Type != event.ArrayType {
		v = event.Array(v)
	}

	if p.config.AllowDuplicates || !contains(v.Array, p.config.Value) {
		v.Array = append(v.Array, event.String(p.config.Value))
	}

	_, err := evt.Put(p.config.Field, v)
	return err
}
""","""	v := evt.Get(p.config.Field)
	missing := v == nil || v.Type == event.NullType
	if missing && p.config.IgnoreMissing {
		return nil
	}
	v, err := toArray(v)
	if err != nil {
		return err
	}

	duplicate := !p.config.AllowDuplicates && contains(v.Array, p.config.Value)
	if !duplicate {
		v.Array = append(v.Array, event.String(p.config.Value))
	}

	_, err = evt.Put(p.config.Field, v)
	return err
}

func toArray(v *event.Value) (*event.Value, error) {
	if v == nil {
		return event.Array(), nil
	}
	switch v.Type {
	case event.NullType:
		return event.Array(), nil
	case event.ObjectType:
		return nil, errors.New("value to append to is not array")
	case event.ArrayType:
		return v, nil
	default:
		return event.Array(v), nil
	}
}
"""))
v("xp3-lower-helper","C16",(LO,"""	targetField := p.config.Field
	if p.config.TargetField != "" {
		targetField = p.config.TargetField
	}

	_, err := evt.Put(targetField, event.String(out))
	return err
}
""","""	if _, err := evt.Put(p.target(), event.String(out)); err != nil {
		return err
	}
	return nil
}

func (p *Lowercase) target() string {
	if p.config.TargetField == "" {
		return p.config.Field
	}
	return p.config.TargetField
}
"""))
v("xp4-remove-index","C17",(RM,"""	for _, field := range p.config.Fields {
		if v := evt.Delete(field); v == nil && !p.config.IgnoreMissing {
			return processor.ErrorKeyMissing{Key: field}
		}
	}
	return nil
""","""	fields := p.config.Fields
	for i := 0; i < len(fields); i++ {
		v := evt.Delete(fields[i])
		if v != nil {
			continue
		}
		if !p.config.IgnoreMissing {
			return processor.ErrorKeyMissing{Key: fields[i]}
		}
	}
	return nil
"""))
v("xp5-set-switch","C14",(SE,"""	var v *event.Value
	if p.config.Value.Type != event.NullType {
		v = (*event.Value)(&p.config.Value)
	} else if p.config.CopyFrom != "" {
		v = evt.Get(p.config.CopyFrom)
		if v == nil || (v.Type == event.NullType && p.config.IgnoreMissing) {
			return processor.ErrorKeyMissing{Key: p.config.CopyFrom}
		}
	}

	// The event must not share mutable values with the configuration or with
	// the field that was copied.
	_, err := evt.Put(p.config.TargetField, v.Clone())
	return err
""","""	var v *event.Value
	switch {
	case p.config.Value.Type != event.NullType:
		cfg := event.Value(p.config.Value)
		v = &cfg
	case p.config.CopyFrom != "":
		src := evt.Get(p.config.CopyFrom)
		if src == nil {
			return processor.ErrorKeyMissing{Key: p.config.CopyFrom}
		}
		if src.Type == event.NullType && p.config.IgnoreMissing {
			return processor.ErrorKeyMissing{Key: p.config.CopyFrom}
		}
		v = src
	}

	clone := v.Clone()
	if _, err := evt.Put(p.config.TargetField, clone); err != nil {
		return err
	}
	return nil
"""))
v("xp6-clone-index","C14",(VA,"""		c.Array = make([]*Value, 0, len(v.Array))
		for _, x := range v.Array {
			c.Array = append(c.Array, x.Clone())
		}
""","""		c.Array = make([]*Value, len(v.Array))
		for i := range v.Array {
			c.Array[i] = v.Array[i].Clone()
		}
"""))
v("xp7-clone-locals","C14",(VA,"""	if v.Array != nil {
		c.Array = make([]*Value, 0, len(v.Array))
		for _, x := range v.Array {
			c.Array = append(c.Array, x.Clone())
		}
	}
	if v.Object != nil {
		c.Object = make(map[string]*Value, len(v.Object))
		for k, x := range v.Object {
			c.Object[k] = x.Clone()
		}
	}
""","""	if v.Array != nil {
		items := make([]*Value, 0, len(v.Array))
		for _, x := range v.Array {
			items = append(items, x.Clone())
		}
		c.Array = items
	}
	if v.Object != nil {
		fields := make(map[string]*Value, len(v.Object))
		for k, x := range v.Object {
			fields[k] = x.Clone()
		}
		c.Object = fields
	}
"""))
v("xr1-process-nobreak","C08 C09 C11",(PI,"""	var err error
	for _, proc := range pipe.processors {
		if evt.stopped() {
			break
		}
		if err = proc.Process(evt); err != nil {
			// Go to global on_failure handler.
			break
		}
	}
""","""	var err error
	for i := 0; i < len(pipe.processors) && err == nil && !evt.stopped(); i++ {
		// An error goes to the global on_failure handler.
		err = pipe.processors[i].Process(evt)
	}
"""))
v("xr2-process-early","C08 C11",(PI,"""	if err != nil && len(pipe.onFailure) > 0 {
		for _, proc := range pipe.onFailure {
			if evt.stopped() {
				break
			}
			if err = proc.Process(evt); err != nil {
				// Failure in global on_failure.
				return err
			}
		}
	}

	if err != nil {
		return err
	}

	return nil
""","""	if err == nil || len(pipe.onFailure) == 0 {
		return err
	}
	for _, proc := range pipe.onFailure {
		if evt.stopped() {
			break
		}
		if err = proc.Process(evt); err != nil {
			// Failure in global on_failure.
			return err
		}
	}
	return err
"""))
v("xr3-proc-recover","C08 C09 C10 C11",(PP,"""		if len(p.OnFailure) > 0 {
			for _, proc := range p.OnFailure {
				if event.stopped() {
					break
				}
				if err = proc.Process(event); err != nil {
					break
				}
			}

			if event.dropped {""","""		if len(p.OnFailure) > 0 {
			err = p.handleFailure(event, err)

			if event.dropped {"""),(PP,"""func newPipelineProcessors(""","""// handleFailure runs the on_failure processors.
func (p *pipelineProcessor) handleFailure(event *pipelineEvent, err error) error {
	for _, proc := range p.OnFailure {
		if event.stopped() {
			break
		}
		if err = proc.Process(event); err != nil {
			break
		}
	}
	return err
}

func newPipelineProcessors("""))
v("xr4-proc-flat","C08 C09 C10 C11",(PP,"""	if err := p.proc.Process(event); err != nil || event.dropped {
		if event.dropped {
			p.metricDiscardedEventsTotal.Inc()
			return nil
		}

		// Ignore Missing
		if p.IgnoreMissing && errors.Is(err, processor.ErrorKeyMissing{}) {
			p.metricEventsOutTotal.Inc()
			return nil
		}

		// On Failure
		if len(p.OnFailure) > 0 {
			for _, proc := range p.OnFailure {
				if event.stopped() {
					break
				}
				if err = proc.Process(event); err != nil {
					break
				}
			}

			if event.dropped {
				p.metricDiscardedEventsTotal.Inc()
				return nil
			}

			// Recovered
			if err == nil {
				p.metricEventsOutTotal.Inc()
				return nil
			}
		}

		// Ignore Failure
		if p.IgnoreFailure && err != nil {
			p.metricEventsOutTotal.Inc()
			return nil
		}

		// Could not recover from the error or ignore it.
		p.metricErrorsTotal.Inc()
		return err
	}

	p.metricEventsOutTotal.Inc()
	return nil
}
""","""	err := p.proc.Process(event)
	if event.dropped {
		p.metricDiscardedEventsTotal.Inc()
		return nil
	}
	if err == nil {
		return p.sent()
	}

	// Ignore Missing
	if p.IgnoreMissing && errors.Is(err, processor.ErrorKeyMissing{}) {
		return p.sent()
	}

	// On Failure
	for _, proc := range p.OnFailure {
		if event.stopped() {
			break
		}
		if err = proc.Process(event); err != nil {
			break
		}
	}
	if event.dropped {
		p.metricDiscardedEventsTotal.Inc()
		return nil
	}

	// Recovered or Ignore Failure
	if err == nil || p.IgnoreFailure {
		return p.sent()
	}

	// Could not recover from the error or ignore it.
	p.metricErrorsTotal.Inc()
	return err
}

func (p *pipelineProcessor) sent() error {
	p.metricEventsOutTotal.Inc()
	return nil
}
"""))
v("xm1-visit-concat","C13",(PI,"""	for _, proc := range pipe.processors {
		visitProcessor(visit, proc)
	}
	for _, proc := range pipe.onFailure {
		visitProcessor(visit, proc)
	}
}
""","""	visitProcessors(visit, pipe.processors)
	visitProcessors(visit, pipe.onFailure)
}

func visitProcessors(visit func(processor *pipelineProcessor), procs []*pipelineProcessor) {
	for _, proc := range procs {
		visitProcessor(visit, proc)
	}
}
"""))
v("xm2-metrics-collect","C13",(PI,"""	pipe.visitProcessors(func(proc *pipelineProcessor) {
		metrics = append(metrics,
			proc.metricDiscardedEventsTotal,
			proc.metricErrorsTotal,
			proc.metricEventsInTotal,
			proc.metricEventsOutTotal,
		)
	})
	return metrics
""","""	collect := func(proc *pipelineProcessor) {
		metrics = append(metrics, proc.collectors()...)
	}
	pipe.visitProcessors(collect)
	return metrics
"""),(PP,"""func newPipelineProcessors(""","""func (p *pipelineProcessor) collectors() []prometheus.Collector {
	return []prometheus.Collector{
		p.metricDiscardedEventsTotal,
		p.metricErrorsTotal,
		p.metricEventsInTotal,
		p.metricEventsOutTotal,
	}
}

func newPipelineProcessors("""))
v("xn1-new-assign","C12 C13",(PI,"""	return &Pipeline{
		id:         config.ID,
		processors: processors,
		onFailure:  onFailureProcessors,
	}, nil
""","""	pipe := &Pipeline{id: config.ID}
	pipe.processors = processors
	pipe.onFailure = onFailureProcessors
	return pipe, nil
"""))
v("xn2-counter-helper","C12 C10",(PP,"""		metricDiscardedEventsTotal: prometheus.NewCounter(prometheus.CounterOpts{
			Namespace:   "es",
			Name:        "component_discarded_events_total",
			Help:        "Total number of events dropped by component.",
			ConstLabels: labels,
		}),
		metricErrorsTotal: prometheus.NewCounter(prometheus.CounterOpts{
			Namespace:   "es",
			Name:        "component_errors_total",
			Help:        "Total number of errors by component.",
			ConstLabels: labels,
		}),
		metricEventsInTotal: prometheus.NewCounter(prometheus.CounterOpts{
			Namespace:   "es",
			Name:        "component_received_events_total",
			Help:        "Total number of events received by component.",
			ConstLabels: labels,
		}),
		metricEventsOutTotal: prometheus.NewCounter(prometheus.CounterOpts{
			Namespace:   "es",
			Name:        "component_sent_events_total",
			Help:        "Total number of events sent by component.",
			ConstLabels: labels,
		}),
	}
""","""
		metricDiscardedEventsTotal: newCounter("component_discarded_events_total", "Total number of events dropped by component.", labels),
		metricErrorsTotal:          newCounter("component_errors_total", "Total number of errors by component.", labels),
		metricEventsInTotal:        newCounter("component_received_events_total", "Total number of events received by component.", labels),
		metricEventsOutTotal:       newCounter("component_sent_events_total", "Total number of events sent by component.", labels),
	}
"""),(PP,"""func ignores(""","""func newCounter(name, help string, labels map[string]string) prometheus.Counter {
	opts := prometheus.CounterOpts{
		Namespace: "es",
		Name:      name,
		Help:      help,
	}
	opts.ConstLabels = labels
	return prometheus.NewCounter(opts)
}

func ignores("""))
v("xn3-ignores-bool","C12 C09",(PP,"""	ignoreMissingPtr, ignoreFailurePtr, err := ignores(proc)
	if err != nil {
		return nil, err
	}
""","""	var ignoreMissing, ignoreFailure bool
	if missing, failure, err := ignores(proc); err != nil {
		return nil, err
	} else {
		if missing != nil {
			ignoreMissing = *missing
		}
		if failure != nil {
			ignoreFailure = *failure
		}
	}
"""),(PP,"""	p := &pipelineProcessor{
		ID:        id,
""","""	p := &pipelineProcessor{
		ID:        id,

		IgnoreMissing: ignoreMissing,
		IgnoreFailure: ignoreFailure,

"""),(PP,"""	if ignoreMissingPtr != nil {
		p.IgnoreMissing = *ignoreMissingPtr
	}
	if ignoreFailurePtr != nil {
		p.IgnoreFailure = *ignoreFailurePtr
	}

""",""))
v("xn4-procs-nil","C12",(PP,"""	if len(procConfigs) == 0 {
		return nil, nil
	}

	processors := make([]*pipelineProcessor, 0, len(procConfigs))
	for i, processorConfig := range procConfigs {
		procType, options, err := processorConfig.getProcessor()""","""	var processors []*pipelineProcessor
	for i := 0; i < len(procConfigs); i++ {
		procType, options, err := procConfigs[i].getProcessor()"""))
v("xn5-procs-inline","C12",(PP,"""		pipeProc, err := newPipelineProcessor(baseID, i, procType, options)
		if err != nil {
			return nil, err
		}

		processors = append(processors, pipeProc)
""","""		if pipeProc, err := newPipelineProcessor(baseID, i, procType, options); err != nil {
			return nil, err
		} else {
			processors = append(processors, pipeProc)
		}
"""))
v("xn6-getproc-switch","C12",(PC,"""	if len(c) == 0 {
		return "", nil, errors.New("processor cannot be empty")
	}
	if len(c) > 1 {
		return "", nil, errors.New("only one processor must be specified")
	}
	for k, v := range c {
		if v == nil {
			v = &ProcessorOptionConfig{}
		}
		return k, v, nil
	}

	// Never invoked.
	return "", nil, errors.New("unexpected number of keys in processor")
""","""	switch n := len(c); {
	case n == 0:
		return "", nil, errors.New("processor cannot be empty")
	case n > 1:
		return "", nil, errors.New("only one processor must be specified")
	}
	for name, opts = range c {
	}
	if opts == nil {
		opts = new(ProcessorOptionConfig)
	}
	return name, opts, nil
"""))
v("xs1-from-sized","C18",(MI,"""		items := make([]interface{}, 0, len(v.Array))
		for _, x := range v.Array {
			items = append(items, fromEventValue(x))
		}
		return items
""","""		items := make([]interface{}, len(v.Array))
		for i, x := range v.Array {
			items[i] = fromEventValue(x)
		}
		return items
"""))
v("xs2-pb-sized","C19",(PB,"""		items := make([]*Value, 0, len(v.Array))
		for _, x := range v.Array {
			items = append(items, fromEventValue(x))
		}
""","""		items := make([]*Value, len(v.Array))
		for i := range items {
			items[i] = fromEventValue(v.Array[i])
		}
"""),(PB,"""		items := make([]*event.Value, 0, len(t.Array.GetItems()))
		for _, x := range t.Array.GetItems() {
			items = append(items, toEventValue(x))
		}
		return event.Array(items...)
""","""		src := t.Array.GetItems()
		items := make([]*event.Value, len(src))
		for i, x := range src {
			items[i] = toEventValue(x)
		}
		return event.Array(items...)
"""))
v("xs3-pb-helpers","C19",(PB,"""		items := make([]*event.Value, 0, len(t.Array.GetItems()))
		for _, x := range t.Array.GetItems() {
			items = append(items, toEventValue(x))
		}
		return event.Array(items...)
""","""		return toEventArray(t.Array)
"""),(PB,"""		fields := make(map[string]*event.Value, len(t.Object.GetFields()))
		for k, v := range t.Object.GetFields() {
			fields[k] = toEventValue(v)
		}
		return event.Object(fields)
""","""		return toEventObject(t.Object)
"""),(PB,"""func toEventValue(""","""func toEventArray(a *ValueArray) *event.Value {
	items := make([]*event.Value, 0, len(a.GetItems()))
	for _, x := range a.GetItems() {
		items = append(items, toEventValue(x))
	}
	return event.Array(items...)
}

func toEventObject(o *ValueObject) *event.Value {
	fields := make(map[string]*event.Value, len(o.GetFields()))
	for k, v := range o.GetFields() {
		fields[k] = toEventValue(v)
	}
	return event.Object(fields)
}

func toEventValue("""))
v("xs4-pb-fromarray","C19",(PB,"""		items := make([]*Value, 0, len(v.Array))
		for _, x := range v.Array {
			items = append(items, fromEventValue(x))
		}
		return &Value{
			Kind: &Value_Array{
				Array: &ValueArray{
					Items: items,
				},
			},
		}
""","""		return &Value{Kind: &Value_Array{Array: fromEventValueArray(v)}}
"""),(PB,"""func fromEventValueObject(""","""func fromEventValueArray(v *event.Value) *ValueArray {
	items := make([]*Value, 0, len(v.Array))
	for _, x := range v.Array {
		items = append(items, fromEventValue(x))
	}
	return &ValueArray{Items: items}
}

func fromEventValueObject("""))
v("xs5-pb-kind","C19",(PB,"""	switch v.Type {
	case event.ArrayType:
		items""","""	if v.Type == event.NullType {
		return &Value{Kind: &Value_Null{Null: ValueNull_NULL_VALUE}}
	}

	switch v.Type {
	case event.ArrayType:
		items"""),(PB,"""	case event.NullType:
		return &Value{
			Kind: &Value_Null{
				Null: ValueNull_NULL_VALUE,
			},
		}
	default:""","""	default:"""))
v("xs6-pb-tolog","C19",(PB,"""	evt := event.New()
	for k, v := range l.Object.Fields {
		evt.Put(eventutil.EscapeKey(k), toEventValue(v))
	}
	return evt
""","""	evt := event.New()
	for k := range l.GetObject().GetFields() {
		key := eventutil.EscapeKey(k)
		val := toEventValue(l.Object.Fields[k])
		evt.Put(key, val)
	}
	return evt
"""))
v("xs7-toevent-order","C18",(MI,"""	evt := event.New()
	for k, v := range fields.Object {
		if _, err := evt.Put(eventutil.EscapeKey(k), v); err != nil {
			return nil, err
		}
	}

	return evt, nil
""","""	evt := event.New()
	for name, value := range fields.Object {
		key := eventutil.EscapeKey(name)
		_, err = evt.Put(key, value)
		if err != nil {
			return nil, err
		}
	}
	return evt, err
"""))
v("xg1-slice-sized","C20",(RE,"""	values := make([]*event.Value, 0, n)
	for i := 0; i < n; i++ {
		sliceValue, err := interfaceToValue(rv.Index(i).Interface())
		if err != nil {
			return nil, err
		}

		values = append(values, sliceValue)
	}
""","""	values := make([]*event.Value, n)
	for i := range values {
		elem, err := interfaceToValue(rv.Index(i).Interface())
		if err != nil {
			return nil, err
		}
		values[i] = elem
	}
"""))
v("xg2-kind-var","C20",(RE,"""	typ := rv.Type()

	switch typ.Kind() {
	case reflect.Ptr, reflect.Interface:
		if rv.IsNil() {
			return event.NullValue, nil
		}
	}

	switch {
	case typ.Implements(errorInterface):
		err := rv.Interface().(error)
		return event.String(err.Error()), nil
	}

	switch typ.Kind() {
""","""	typ := rv.Type()
	kind := typ.Kind()

	if (kind == reflect.Ptr || kind == reflect.Interface) && rv.IsNil() {
		return event.NullValue, nil
	}

	if typ.Implements(errorInterface) {
		return event.String(rv.Interface().(error).Error()), nil
	}

	switch kind {
"""))
v("xg3-fieldname","C20",(RE,"""		name := strings.ToLower(field.Name)

		tagName, tagOpts := parseTag(field.Tag.Get(tagName))
		if tagName != "" {
			name = tagName
		}
""","""		name, tagOpts := parseTag(field.Tag.Get(tagName))
		if name == "" {
			name = strings.ToLower(field.Name)
		}
"""))
v("xg4-isempty","C20",(RE,"""		if tagOpts.Has("omitempty") {
			zero := reflect.Zero(val.Type()).Interface()
			current := val.Interface()

			if reflect.DeepEqual(current, zero) {
				continue
			}
		}
""","""		if tagOpts.Has("omitempty") && isZero(val) {
			continue
		}
"""),(RE,"""func structFields(""","""func isZero(val reflect.Value) bool {
	return reflect.DeepEqual(val.Interface(), reflect.Zero(val.Type()).Interface())
}

func structFields("""))
v("xg5-has-index","C20",(ST,"""	for _, tagOpt := range t {
		if tagOpt == opt {
			return true
		}
	}

	return false
""","""	for i := range t {
		if t[i] == opt {
			return true
		}
	}
	return false
"""))
v("xg6-struct-string","C20",(RE,"""		if tagOpts.Has("string") {
			s, ok := val.Interface().(fmt.Stringer)
			if ok {
				obj[name] = event.String(s.String())
			}
			continue
		}

		obj[name] = finalVal
""","""		if !tagOpts.Has("string") {
			obj[name] = finalVal
		} else if s, ok := val.Interface().(fmt.Stringer); ok {
			obj[name] = event.String(s.String())
		}
"""))
v("xg7-map-iter","C20",(RE,"""	m := rv.MapRange()
	for m.Next() {
		key := fmt.Sprintf("%v", m.Key())
		val, err := interfaceToValue(m.Value().Interface())
		if err != nil {
			return nil, err
		}
		obj[key] = val
	}
""","""	for iter := rv.MapRange(); iter.Next(); {
		val, err := interfaceToValue(iter.Value().Interface())
		if err != nil {
			return nil, err
		}
		obj[fmt.Sprintf("%v", iter.Key())] = val
	}
"""))
v("xj1-value-nilhelper","C21",(VA,"""	case ArrayType:
		if v.Array == nil {
			return []*Value{} // A nil slice would encode as null.
		}
		return v.Array
""","""	case ArrayType:
		if v.Array != nil {
			return v.Array
		}
		return []*Value{} // A nil slice would encode as null.
"""))
v("xj2-unmarshal-index","C21",(VA,"""		for i, x := range v.Array {
			if x == nil {
				v.Array[i] = NullValue
			}
		}
""","""		for i := 0; i < len(v.Array); i++ {
			if v.Array[i] == nil {
				v.Array[i] = NullValue
			}
		}
"""))
v("xj3-unmarshal-tmp","C21",(VA,"""		if err = json.Unmarshal(data, &v.Object); err != nil {
			return err
		}
		replaceNilFields(v.Object)
		v.Type = ObjectType
""","""		err = json.Unmarshal(data, &v.Object)
		if err != nil {
			return err
		}
		v.Type = ObjectType
		for k, x := range v.Object {
			if x != nil {
				continue
			}
			v.Object[k] = NullValue
		}
"""))
v("xi1-newproc","C22",(RG,"""			out := v.Call([]reflect.Value{config})
			if !out[1].IsNil() {
				return nil, out[1].Interface().(error)
			}
			return out[0].Interface().(processor.Processor), nil
""","""			args := []reflect.Value{config}
			results := v.Call(args)
			if errValue := results[1]; !errValue.IsNil() {
				return nil, errValue.Interface().(error)
			}
			return results[0].Interface().(processor.Processor), nil
"""))
v("xi2-register-order","C22",(RG,"""	pc, err := validateConfig(constructorFunc)
	if err != nil {
		return err
	}
	r.procs[name] = *pc
	return nil
""","""	if pc, err := validateConfig(constructorFunc); err != nil {
		return err
	} else {
		r.procs[name] = *pc
	}
	return nil
"""))
v("xc1-cli-inverse","C23",(CM,"""		// Dropped event.
		if evt == nil {
			continue
		}

		if err := enc.Encode(evt); err != nil {
			log.Printf("Unexpected error marshaling event from line %d to JSON: %v", lineNumber, err)
			continue
		}
	}
""","""		// A dropped event is nil.
		if evt != nil {
			if err := enc.Encode(evt); err != nil {
				log.Printf("Unexpected error marshaling event from line %d to JSON: %v", lineNumber, err)
			}
		}
	}
"""))
v("xc2-cli-newevent","C23",(CM,"""		evt := event.New()
		evt.Put("@metadata.line_number", event.UnsignedInteger(lineNumber))
		evt.Put("event.original", event.String(line))

		// Process the event.
		evt, err := pipe.Process(evt)
""","""		// Process the event.
		evt, err := pipe.Process(newEvent(lineNumber, line))
"""),(CM,"""func bufferedFileWriter(""","""func newEvent(lineNumber uint64, line string) *event.Event {
	evt := event.New()
	evt.Put("@metadata.line_number", event.UnsignedInteger(lineNumber))
	evt.Put("event.original", event.String(line))
	return evt
}

func bufferedFileWriter("""))
v("xo1-marshal-flat","C25",(PC,"""	data := map[string]interface{}{}
	if c.ID != "" {
		data["id"] = c.ID
	}
	if c.If != "" {
		data["if"] = c.If
	}
	if len(c.OnFailure) > 0 {
		data["on_failure"] = c.OnFailure
	}
	for k, v := range c.Config {
		data[k] = v
	}

	return json.Marshal(data)
""","""	return json.Marshal(c.members())
}

func (c ProcessorOptionConfig) members() map[string]interface{} {
	data := map[string]interface{}{}
	if c.ID != "" {
		data["id"] = c.ID
	}
	if c.If != "" {
		data["if"] = c.If
	}
	if len(c.OnFailure) > 0 {
		data["on_failure"] = c.OnFailure
	}
	for k := range c.Config {
		data[k] = c.Config[k]
	}
	return data
"""))
v("xo2-unmarshal-member","C25",(PC,"""	if m, found := members["id"]; found {
		if err := json.Unmarshal(m, &id); err != nil {
			return err
		}
	}
	if m, found := members["if"]; found {
		if err := json.Unmarshal(m, &cond); err != nil {
			return err
		}
	}
	if m, found := members["on_failure"]; found {
		if err := json.Unmarshal(m, &onFailure); err != nil {
			return err
		}
	}
""","""	if err := unmarshalMember(members, "id", &id); err != nil {
		return err
	}
	if err := unmarshalMember(members, "if", &cond); err != nil {
		return err
	}
	if err := unmarshalMember(members, "on_failure", &onFailure); err != nil {
		return err
	}
"""),(PC,"""// MarshalJSON contains""","""func unmarshalMember(members map[string]json.RawMessage, name string, dst interface{}) error {
	m, found := members[name]
	if !found {
		return nil
	}
	return json.Unmarshal(m, dst)
}

// MarshalJSON contains"""))

# ---- third set ----

v("ye1-put-parents","C01 C02 C03 C05 C07",(EV,"""	m := e.fields
	for _, key := range path[:len(path)-1] {
		inner, found := m[key]
		if found && inner != nil {
			if inner.Type != ObjectType {
				return nil, fmt.Errorf("event put failed for path <%s>: %w", pathString(path), ErrTargetKeyNotObject)
			}
			if inner.Object != nil {
				m = inner.Object
				continue
			}
		}
		newObj := Object(map[string]*Value{})
		m[key] = newObj
		m = newObj.Object
	}
	m[path[len(path)-1]] = val
	return old, nil
}
""","""	parent, err := e.makeParents(path)
	if err != nil {
		return nil, err
	}
	parent[path[len(path)-1]] = val
	return old, nil
}

// makeParents returns the object that the last element of path belongs to.
func (e *Event) makeParents(path []string) (map[string]*Value, error) {
	m := e.fields
	for i := 0; i+1 < len(path); i++ {
		inner := m[path[i]]
		switch {
		case inner == nil || inner.Type == ObjectType && inner.Object == nil:
			inner = Object(map[string]*Value{})
			m[path[i]] = inner
		case inner.Type != ObjectType:
			return nil, fmt.Errorf("event put failed for path <%s>: %w", pathString(path), ErrTargetKeyNotObject)
		}
		m = inner.Object
	}
	return m, nil
}
"""))
v("ye2-get-parent","C01 C02 C03 C04 C05 C07",(EV,"""	m := e.fields
	for _, key := range path[:len(path)-1] {
		inner, found := m[key]
		if !found || inner == nil || len(inner.Object) == 0 {
			return nil
		}
		m = inner.Object
	}

	return m[path[len(path)-1]]
}
""","""	m := e.fields
	for len(path) > 1 {
		inner := m[path[0]]
		if inner == nil {
			return nil
		}
		if m = inner.Object; len(m) == 0 {
			return nil
		}
		path = path[1:]
	}
	return m[path[0]]
}
"""))
v("ye3-delete-found","C04 C07",(EV,"""	v := e.get(path)
	if v != nil {
		m := e.fields
		for _, key := range path[:len(path)-1] {
			m = m[key].Object
		}
		delete(m, path[len(path)-1])
	}

	return v
}
""","""	if deleted = e.get(path); deleted == nil {
		return nil
	}
	last := len(path) - 1
	m := e.fields
	for i := 0; i < last; i++ {
		m = m[path[i]].Object
	}
	delete(m, path[last])
	return deleted
}
"""))
v("ye4-keytopath-rangebytes","C05 C06 C01",(EV,"""	for i := 0; i < len(key); i++ {
		switch c := key[i]; c {
		case '\\\\':
			escape = true
		case '.':
			if escape {
				pathScratch = append(pathScratch, '.')
			} else {
				if len(pathScratch) > 0 {
					paths = append(paths, string(pathScratch))
					pathScratch = pathScratch[:0]
				}
			}
			escape = false
		default:
			pathScratch = append(pathScratch, c)
			escape = false
		}
	}
""","""	for i := 0; i < len(key); i++ {
		c := key[i]
		if c == '\\\\' {
			escape = true
			continue
		}
		if c != '.' || escape {
			pathScratch = append(pathScratch, c)
			escape = false
			continue
		}
		if len(pathScratch) > 0 {
			paths = append(paths, string(pathScratch))
			pathScratch = pathScratch[:0]
		}
	}
"""))
v("ye5-put-nilfirst","C01 C02 C03 C05 C07",(EV,"""	if len(path) == 0 {
		return nil, fmt.Errorf("event put failed: %w", ErrEmptyKey)
	}
	if val == nil {
		return nil, nil
	}

	if e.fields == nil {
		e.init()
	}

	old = e.get(path)
	if old != nil && !overwrite {
		return old, fmt.Errorf("event put failed for path <%s>: %w", pathString(path), ErrKeyExists)
	}
""","""	switch {
	case len(path) == 0:
		return nil, fmt.Errorf("event put failed: %w", ErrEmptyKey)
	case val == nil:
		return nil, nil
	}

	if old = e.get(path); !overwrite && old != nil {
		return old, fmt.Errorf("event put failed for path <%s>: %w", pathString(path), ErrKeyExists)
	}
	if e.fields == nil {
		e.init()
	}
"""))
v("ye6-pathjoin","C01 C02 C03 C05 C07",(EV,"""	switch len(path) {
	case 0:
		return "/"
	case 1:
		return "/" + path[0]
	}

	var sb strings.Builder
	for _, elem := range path {
		sb.WriteByte('/')
		sb.WriteString(elem)
	}

	return sb.String()
""","""	return "/" + strings.Join(path, "/")
"""))
v("yc1-clone-helper","C14",(VA,"""	c := *v
	if v.Array != nil {
		c.Array = make([]*Value, 0, len(v.Array))
		for _, x := range v.Array {
			c.Array = append(c.Array, x.Clone())
		}
	}
	if v.Object != nil {
		c.Object = make(map[string]*Value, len(v.Object))
		for k, x := range v.Object {
			c.Object[k] = x.Clone()
		}
	}
	return &c
}
""","""	c := *v
	c.Array = cloneItems(v.Array)
	if v.Object != nil {
		c.Object = make(map[string]*Value)
		for k := range v.Object {
			c.Object[k] = v.Object[k].Clone()
		}
	}
	return &c
}

func cloneItems(items []*Value) []*Value {
	if items == nil {
		return nil
	}
	out := make([]*Value, 0, len(items))
	for _, x := range items {
		out = append(out, x.Clone())
	}
	return out
}
"""))
v("yc2-set-source","C14",(SE,"""	var v *event.Value
	if p.config.Value.Type != event.NullType {
		v = (*event.Value)(&p.config.Value)
	} else if p.config.CopyFrom != "" {
		v = evt.Get(p.config.CopyFrom)
		if v == nil || (v.Type == event.NullType && p.config.IgnoreMissing) {
			return processor.ErrorKeyMissing{Key: p.config.CopyFrom}
		}
	}

	// The event must not share mutable values with the configuration or with
	// the field that was copied.
	_, err := evt.Put(p.config.TargetField, v.Clone())
	return err
}
""","""	v, err := p.source(evt)
	if err != nil {
		return err
	}

	// The event must not share mutable values with the configuration or with
	// the field that was copied.
	_, err = evt.Put(p.config.TargetField, v.Clone())
	return err
}

// source returns the value to set.
func (p *Set) source(evt processor.Event) (*event.Value, error) {
	c := &p.config
	if c.Value.Type != event.NullType {
		return (*event.Value)(&c.Value), nil
	}
	if c.CopyFrom == "" {
		return nil, nil
	}
	v := evt.Get(c.CopyFrom)
	if v == nil || (v.Type == event.NullType && c.IgnoreMissing) {
		return nil, processor.ErrorKeyMissing{Key: c.CopyFrom}
	}
	return v, nil
}
"""))
v("yr1-run-helper","C08 C09 C10 C11",(PI,"""	var err error
	for _, proc := range pipe.processors {
		if evt.stopped() {
			break
		}
		if err = proc.Process(evt); err != nil {
			// Go to global on_failure handler.
			break
		}
	}

	if err != nil && len(pipe.onFailure) > 0 {
		for _, proc := range pipe.onFailure {
			if evt.stopped() {
				break
			}
			if err = proc.Process(evt); err != nil {
				// Failure in global on_failure.
				return err
			}
		}
	}

	if err != nil {
		return err
	}

	return nil
}
""","""	err := runAll(pipe.processors, evt)
	if err == nil || len(pipe.onFailure) == 0 || evt.stopped() {
		return err
	}
	return runAll(pipe.onFailure, evt)
}

// runAll runs processors until one fails or the event is done.
func runAll(processors []*pipelineProcessor, evt *pipelineEvent) error {
	for _, proc := range processors {
		if evt.stopped() {
			return nil
		}
		if err := proc.Process(evt); err != nil {
			return err
		}
	}
	return nil
}
"""))
v("yr2-proc-defer","C08 C09 C10 C11",(PP,"""	// TODO: Check Condition before executing.
	p.metricEventsInTotal.Inc()

	if err := p.proc.Process(event); err != nil || event.dropped {
		if event.dropped {
			p.metricDiscardedEventsTotal.Inc()
			return nil
		}

		// Ignore Missing
		if p.IgnoreMissing && errors.Is(err, processor.ErrorKeyMissing{}) {
			p.metricEventsOutTotal.Inc()
			return nil
		}
""","""	// TODO: Check Condition before executing.
	p.metricEventsInTotal.Inc()

	err := p.proc.Process(event)
	if event.dropped {
		p.metricDiscardedEventsTotal.Inc()
		return nil
	}

	if err != nil {
		// Ignore Missing
		if errors.Is(err, processor.ErrorKeyMissing{}) && p.IgnoreMissing {
			p.metricEventsOutTotal.Inc()
			return nil
		}
"""))
v("yr3-proc-count","C08 C09 C10 C11",(PP,"""			for _, proc := range p.OnFailure {
				if event.stopped() {
					break
				}
				if err = proc.Process(event); err != nil {
					break
				}
			}
""","""			for i := 0; i < len(p.OnFailure) && !event.stopped(); i++ {
				err = p.OnFailure[i].Process(event)
				if err != nil {
					break
				}
			}
"""))
v("ym1-metrics-index","C13",(PI,"""	for _, proc := range pipe.processors {
		visitProcessor(visit, proc)
	}
	for _, proc := range pipe.onFailure {
		visitProcessor(visit, proc)
	}
}
""","""	visitAll(visit, pipe.processors)
	visitAll(visit, pipe.onFailure)
}

func visitAll(visit func(processor *pipelineProcessor), procs []*pipelineProcessor) {
	for i := range procs {
		visitProcessor(visit, procs[i])
	}
}
"""))
v("yn1-new-metrics","C12 C10 C13",(PP,"""		metricDiscardedEventsTotal: prometheus.NewCounter(prometheus.CounterOpts{
			Namespace:   "es",
			Name:        "component_discarded_events_total",
			Help:        "Total number of events dropped by component.",
			ConstLabels: labels,
		}),
""","""		metricDiscardedEventsTotal: counter("component_discarded_events_total", "Total number of events dropped by component.", labels),
"""),(PP,"""		metricErrorsTotal: prometheus.NewCounter(prometheus.CounterOpts{
			Namespace:   "es",
			Name:        "component_errors_total",
			Help:        "Total number of errors by component.",
			ConstLabels: labels,
		}),
""","""		metricErrorsTotal: counter("component_errors_total", "Total number of errors by component.", labels),
"""),(PP,"""func ignores(proc""","""func counter(name, help string, labels map[string]string) prometheus.Counter {
	opts := prometheus.CounterOpts{Namespace: "es", Name: name, Help: help}
	opts.ConstLabels = labels
	return prometheus.NewCounter(opts)
}

func ignores(proc"""))
v("yn2-ignores-helper","C12",(PP,"""	if v := out.FieldByName("IgnoreMissing"); v != zeroValue && v.Kind() == reflect.Bool {
		boolValue := v.Bool()
		ignoreMissing = &boolValue
	}
	if v := out.FieldByName("IgnoreFailure"); v != zeroValue && v.Kind() == reflect.Bool {
		boolValue := v.Bool()
		ignoreFailure = &boolValue
	}
	return ignoreMissing, ignoreFailure, nil
}
""","""	return boolField(out, "IgnoreMissing"), boolField(out, "IgnoreFailure"), nil
}

// boolField returns the bool in the named field.
func boolField(v reflect.Value, name string) *bool {
	f := v.FieldByName(name)
	if f == (reflect.Value{}) || f.Kind() != reflect.Bool {
		return nil
	}
	b := f.Bool()
	return &b
}
"""))
v("yn3-new-each","C12",(PP,"""	for i, processorConfig := range procConfigs {
		procType, options, err := processorConfig.getProcessor()
		if err != nil {
			return nil, err
		}

		pipeProc, err := newPipelineProcessor(baseID, i, procType, options)
		if err != nil {
			return nil, err
		}

		processors = append(processors, pipeProc)
	}
""","""	for i := 0; i < len(procConfigs); i++ {
		procType, options, err := procConfigs[i].getProcessor()
		if err != nil {
			return nil, err
		}
		if p, err := newPipelineProcessor(baseID, i, procType, options); err == nil {
			processors = append(processors, p)
		} else {
			return nil, err
		}
	}
"""))
v("ys1-from-fields","C18",(MI,"""	fields := make(map[string]interface{}, len(v.Object))
	for k, v := range v.Object {
		fields[k] = fromEventValue(v)
	}
	return fields
""","""	obj := v.Object
	fields := map[string]interface{}{}
	for k := range obj {
		fields[k] = fromEventValue(obj[k])
	}
	return fields
"""),(MI,"""		items := make([]interface{}, 0, len(v.Array))
		for _, x := range v.Array {
			items = append(items, fromEventValue(x))
		}
		return items
""","""		return fromItems(v.Array)
"""),(MI,"""func fromEventValue(v""","""func fromItems(values []*event.Value) []interface{} {
	items := make([]interface{}, 0, len(values))
	for i := range values {
		items = append(items, fromEventValue(values[i]))
	}
	return items
}

func fromEventValue(v"""))
v("ys2-pb-nullconst","C19",(PB,"""	if v == nil {
		// A message with a nil value in a repeated field cannot be encoded.
		return &Value{
			Kind: &Value_Null{
				Null: ValueNull_NULL_VALUE,
			},
		}
	}

	switch""","""	// A message with a nil value in a repeated field cannot be encoded.
	if v == nil || v.Type == event.NullType {
		return nullValue()
	}

	switch"""),(PB,"""	case event.NullType:
		return &Value{
			Kind: &Value_Null{
				Null: ValueNull_NULL_VALUE,
			},
		}
	default""","""	default"""),(PB,"""func fromEventValue(v""","""func nullValue() *Value {
	return &Value{Kind: &Value_Null{Null: ValueNull_NULL_VALUE}}
}

func fromEventValue(v"""))
v("ys3-pb-totarget","C19",(PB,"""	evt := event.New()
	for k, v := range l.Object.Fields {
		evt.Put(eventutil.EscapeKey(k), toEventValue(v))
	}
	return evt
""","""	evt := event.New()
	fields := l.GetObject().GetFields()
	for name, field := range fields {
		key := eventutil.EscapeKey(name)
		value := toEventValue(field)
		evt.Put(key, value)
	}
	return evt
"""))
v("yg1-slice-range","C20 C18",(RE,"""	n := rv.Len()
	values := make([]*event.Value, 0, n)
	for i := 0; i < n; i++ {
		sliceValue, err := interfaceToValue(rv.Index(i).Interface())
		if err != nil {
			return nil, err
		}

		values = append(values, sliceValue)
	}

	return event.Array(values...), nil
""","""	var values []*event.Value
	for i, n := 0, rv.Len(); i < n; i++ {
		elem := rv.Index(i)
		v, err := interfaceToValue(elem.Interface())
		if err != nil {
			return nil, err
		}
		values = append(values, v)
	}
	return event.Array(values...), nil
"""))
v("yg2-nil-early","C20 C18",(RE,"""	typ := rv.Type()

	switch typ.Kind() {
	case reflect.Ptr, reflect.Interface:
		if rv.IsNil() {
			return event.NullValue, nil
		}
	}

	switch {
	case typ.Implements(errorInterface):
		err := rv.Interface().(error)
		return event.String(err.Error()), nil
	}
""","""	typ := rv.Type()
	kind := typ.Kind()

	indirect := kind == reflect.Ptr || kind == reflect.Interface
	if indirect && rv.IsNil() {
		return event.NullValue, nil
	}

	if typ.Implements(errorInterface) {
		return event.String(rv.Interface().(error).Error()), nil
	}
"""))
v("yj1-decode-split","C21",(VA,"""	case json.Delim('['):
		if err = json.Unmarshal(data, &v.Array); err != nil {
			return err
		}
		for i, x := range v.Array {
			if x == nil {
				v.Array[i] = NullValue
			}
		}
		v.Type = ArrayType
""","""	case json.Delim('['):
		v.Type = ArrayType
		err = json.Unmarshal(data, &v.Array)
		if err != nil {
			return err
		}
		replaceNilItems(v.Array)
"""),(VA,"""// replaceNilFields replaces""","""func replaceNilItems(items []*Value) {
	for i := 0; i < len(items); i++ {
		if items[i] == nil {
			items[i] = NullValue
		}
	}
}

// replaceNilFields replaces"""))
v("yj2-scalar-helper","C21",(VA,"""		var value interface{}
		if err = json.Unmarshal(data, &value); err != nil {
			return err
		}

		switch x := value.(type) {
		case string:
			v.Type = StringType
			v.String = x
		case float64:
			v.Type = FloatType
			v.Float = x
		case int64:
			v.Type = IntegerType
			v.Integer = x
		case bool:
			v.Type = BoolType
			v.Bool = x
		case nil:
			v.Type = NullType
		default:
			return fmt.Errorf("unhandled type %T for value %q", x, string(data))
		}
	}

	return nil
}
""","""		return v.unmarshalScalar(data)
	}

	return nil
}

func (v *Value) unmarshalScalar(data []byte) error {
	var value interface{}
	if err := json.Unmarshal(data, &value); err != nil {
		return err
	}
	switch x := value.(type) {
	case nil:
		v.Type = NullType
	case bool:
		v.Bool, v.Type = x, BoolType
	case string:
		v.String, v.Type = x, StringType
	case float64:
		v.Float, v.Type = x, FloatType
	case int64:
		v.Integer, v.Type = x, IntegerType
	default:
		return fmt.Errorf("unhandled type %T for value %q", x, string(data))
	}
	return nil
}
"""))
v("yi1-registry-lookup","C22",(RG,"""	pc, found := r.procs[name]
	if !found {
		return nil, fmt.Errorf("processor type %q not found", name)
	}

	procConfigValue := pc.newConfig()

	uConf, err := ucfg.NewFrom(config)
	if err != nil {
		return nil, err
	}

	if err := uConf.Unpack(procConfigValue.Interface()); err != nil {
		return nil, err
	}

	return pc.newProc(procConfigValue)
""","""	pc, found := r.procs[name]
	if !found {
		return nil, fmt.Errorf("processor type %q not found", name)
	}
	conf, err := pc.configure(config)
	if err != nil {
		return nil, err
	}
	return pc.newProc(conf)
"""),(RG,"""type Registry struct""","""// configure returns a new configuration with the given options.
func (pc processorConstructor) configure(options map[string]interface{}) (reflect.Value, error) {
	uConf, err := ucfg.NewFrom(options)
	if err != nil {
		return reflect.Value{}, err
	}
	conf := pc.newConfig()
	err = uConf.Unpack(conf.Interface())
	return conf, err
}

type Registry struct"""))
v("yk1-cli-event","C23",(CM,"""		// Create new event.
		evt := event.New()
		evt.Put("@metadata.line_number", event.UnsignedInteger(lineNumber))
		evt.Put("event.original", event.String(line))

		// Process the event.
		evt, err := pipe.Process(evt)
		if err != nil {
			log.Printf("Error processing line %d: %v", lineNumber, err)
			continue
		}

		// Dropped event.
		if evt == nil {
			continue
		}

		if err := enc.Encode(evt); err != nil {
			log.Printf("Unexpected error marshaling event from line %d to JSON: %v", lineNumber, err)
			continue
		}
	}
""","""		// Process the event.
		evt, err := pipe.Process(newEvent(lineNumber, line))
		switch {
		case err != nil:
			log.Printf("Error processing line %d: %v", lineNumber, err)
		case evt == nil:
			// Dropped event.
		default:
			if err := enc.Encode(evt); err != nil {
				log.Printf("Unexpected error marshaling event from line %d to JSON: %v", lineNumber, err)
			}
		}
	}
"""),(CM,"""func processInput""","""func newEvent(lineNumber uint64, line string) *event.Event {
	evt := event.New()
	evt.Put("event.original", event.String(line))
	evt.Put("@metadata.line_number", event.UnsignedInteger(lineNumber))
	return evt
}

func processInput"""))
v("yo1-options-delete","C25",(PC,"""	delete(raw, "id")
	delete(raw, "if")
	delete(raw, "on_failure")

	if len(raw) > 0 {
		c.Config = make(map[string]interface{}, len(raw))
	}
	for k, v := range raw {
		c.Config[k] = v
	}
	return nil
""","""	for _, name := range []string{"id", "if", "on_failure"} {
		delete(raw, name)
	}
	if len(raw) == 0 {
		return nil
	}
	c.Config = map[string]interface{}{}
	for name, setting := range raw {
		c.Config[name] = setting
	}
	return nil
"""))
v("yo2-getprocessor","C12 C25",(PC,"""	if len(c) == 0 {
		return "", nil, errors.New("processor cannot be empty")
	}
	if len(c) > 1 {
		return "", nil, errors.New("only one processor must be specified")
	}
	for k, v := range c {
		if v == nil {
			v = &ProcessorOptionConfig{}
		}
		return k, v, nil
	}

	// Never invoked.
	return "", nil, errors.New("unexpected number of keys in processor")
""","""	switch n := len(c); {
	case n == 0:
		return "", nil, errors.New("processor cannot be empty")
	case n > 1:
		return "", nil, errors.New("only one processor must be specified")
	}
	for name, opts = range c {
	}
	if opts == nil {
		opts = &ProcessorOptionConfig{}
	}
	return name, opts, nil
"""))
v("ya1-append-target","C24",(EU,"""	// Make the target value into an array.
	targetValue := evt.Get(key)
	if targetValue == nil {
		targetValue = event.Array()
	} else if targetValue.Type != event.ArrayType {
		targetValue = event.Array(targetValue)
	}

	// Append the new item to the array.
	if item.Type == event.ArrayType {
		for _, v := range item.Array {
			targetValue.Array = append(targetValue.Array, v)
		}
	} else {
		targetValue.Array = append(targetValue.Array, item)
	}

	// Overwrite the existing value.
	_, err := evt.Put(key, targetValue)
	return err
}
""","""	target := asArray(evt.Get(key))
	if item.Type != event.ArrayType {
		target.Array = append(target.Array, item)
	} else {
		target.Array = append(target.Array, item.Array...)
	}

	// Overwrite the existing value.
	if _, err := evt.Put(key, target); err != nil {
		return err
	}
	return nil
}

// asArray makes a value into an array.
func asArray(v *event.Value) *event.Value {
	switch {
	case v == nil:
		return event.Array()
	case v.Type == event.ArrayType:
		return v
	default:
		return event.Array(v)
	}
}
"""))
v("yp1-append-add","C15",(AP,"""	if p.config.AllowDuplicates || !contains(v.Array, p.config.Value) {
		v.Array = append(v.Array, event.String(p.config.Value))
	}

	_, err := evt.Put(p.config.Field, v)
	return err
}

func contains(values []*event.Value, s string) bool {
	for _, v := range values {
		if v != nil && v.Type == event.StringType && v.String == s {
			return true
		}
	}
	return false
}
""","""	add := p.config.AllowDuplicates
	if !add {
		add = !contains(v.Array, p.config.Value)
	}
	if add {
		v.Array = append(v.Array, event.String(p.config.Value))
	}

	if _, err := evt.Put(p.config.Field, v); err != nil {
		return err
	}
	return nil
}

func contains(values []*event.Value, s string) bool {
	for i := len(values) - 1; i >= 0; i-- {
		if isString(values[i], s) {
			return true
		}
	}
	return false
}

func isString(v *event.Value, s string) bool {
	return v != nil && v.Type == event.StringType && v.String == s
}
"""))
v("yp2-lower-flow","C16",(LO,"""	v := evt.Get(p.config.Field)
	if v == nil || v.Type == event.NullType {
		return processor.ErrorKeyMissing{Key: p.config.Field}
	}

	if v.Type != event.StringType {
		return errors.New("value to lowercase is not a string")
	}

	out := strings.ToLower(v.String)

	targetField := p.config.Field
	if p.config.TargetField != "" {
		targetField = p.config.TargetField
	}

	_, err := evt.Put(targetField, event.String(out))
	return err
""","""	source, target := p.config.Field, p.config.TargetField
	if target == "" {
		target = source
	}
	v := evt.Get(source)
	switch {
	case v == nil, v.Type == event.NullType:
		return processor.ErrorKeyMissing{Key: source}
	case v.Type != event.StringType:
		return errors.New("value to lowercase is not a string")
	}
	if _, err := evt.Put(target, event.String(strings.ToLower(v.String))); err != nil {
		return err
	}
	return nil
"""))
v("yp3-remove-continue","C17",(RM,"""	for _, field := range p.config.Fields {
		if v := evt.Delete(field); v == nil && !p.config.IgnoreMissing {
			return processor.ErrorKeyMissing{Key: field}
		}
	}
	return nil
""","""	for i := range p.config.Fields {
		field := p.config.Fields[i]
		if deleted := evt.Delete(field); deleted != nil {
			continue
		}
		if p.config.IgnoreMissing {
			continue
		}
		return processor.ErrorKeyMissing{Key: field}
	}
	return nil
"""))
v("yq1-missing-is","C09",("pkg/processor/error.go","""	_, ok := target.(ErrorKeyMissing)
	return ok
""","""	switch target.(type) {
	case ErrorKeyMissing:
		return true
	}
	return false
"""))
v("yq2-unpack","C20",("pkg/config/config.go","""	value, err := eventutil.ReflectValue(ifc)
	if err != nil {
		return err
	}
	*v = *(*EventValue)(value)
	return nil
""","""	value, err := eventutil.ReflectValue(ifc)
	if err == nil {
		*v = EventValue(*value)
	}
	return err
"""))

# ---- metrics registry, wrappers ----
MT="pkg/metrics/metrics.go"; PE="pkg/pipeline/event.go"
v("z01-register-index","C13",(MT,"""	for _, coll := range c {
		reg.Register(coll)
	}
""","""	for i := 0; i < len(c); i++ {
		if err := reg.Register(c[i]); err != nil {
			continue
		}
	}
"""),(MT,"""	for _, coll := range c {
		reg.Unregister(coll)
	}
""","""	for len(c) > 0 {
		reg.Unregister(c[0])
		c = c[1:]
	}
"""))
v("z02-register-each","C13",(MT,"""	for _, coll := range c {
		reg.Register(coll)
	}
""","""	each(c, func(coll prometheus.Collector) { reg.Register(coll) })
"""),(MT,"""	for _, coll := range c {
		reg.Unregister(coll)
	}
}
""","""	each(c, func(coll prometheus.Collector) { reg.Unregister(coll) })
}

func each(c []prometheus.Collector, do func(prometheus.Collector)) {
	for _, coll := range c {
		do(coll)
	}
}
"""))
v("z03-wrapper-local","C01 C02 C03 C04 C15",(PE,"""	return e.data.Put(key, v)
""","""	evt := e.data
	old, err := evt.Put(key, v)
	return old, err
"""),(PE,"""	return e.data.TryPut(key, v)
""","""	if old, err := e.data.TryPut(key, v); err != nil {
		return old, err
	} else {
		return old, nil
	}
"""),(PE,"""	return e.data.Delete(key)
""","""	v := e.data.Delete(key)
	if v == nil {
		return nil
	}
	return v
"""))
v("z04-listen","C13",(MT,"""	mux := http.NewServeMux()
	mux.Handle("/metrics", httpHandler)
	go http.ListenAndServe(host, mux)
""","""	mux := http.NewServeMux()
	mux.Handle("/metrics", httpHandler)
	srv := &http.Server{Addr: host, Handler: mux}
	go func() { srv.ListenAndServe() }()
"""),(MT,"""	reg = prometheus.NewRegistry()
	reg.Register(collectors.NewBuildInfoCollector())
""","""	r := prometheus.NewRegistry()
	reg = r
	reg.Register(collectors.NewBuildInfoCollector())
"""))
def one(x):
    i,props,edits=x
    d="/tmp/var."+i
    shutil.rmtree(d,ignore_errors=True); subprocess.run(["cp","-a","/repo",d],check=True)
    out=[]
    try:
        for f,a,b in edits:
            s=open(d+"/"+f).read()
            if s.count(a)!=1: return i+": edit does not apply to "+f+": "+a[:60]
            open(d+"/"+f,"w").write(s.replace(a,b))
        env=dict(os.environ,GOFLAGS="-mod=readonly",GOPROXY="off")
        r=subprocess.run("go build ./... && go test ./...",shell=True,cwd=d,env=env,capture_output=True,text=True)
        if r.returncode: out.append("BUILD/TEST FAILS "+(r.stdout+r.stderr)[-400:])
        else:
            for p in props:
                o="/tmp/varout."+i+p; os.makedirs(o,exist_ok=True)
                r=subprocess.run([os.environ.get("GOCV","/tmp/gocv_bin"),"verify","-prop",p,"-out",o,"-repo",d,"-retry"],cwd="/verif",capture_output=True,text=True)
                t=r.stdout+r.stderr
                fails=[l[:170] for l in t.split("\n") if l.startswith(("FAIL","FATAL","fatal"))]
                tot=[l for l in t.split("\n") if l.startswith("functions")]
                out.append(p+" "+("ok" if not fails and r.returncode==0 else "ALARM "+"\n      ".join(fails[:4])+ ("" if fails else t[-300:]))+("" if not tot else " ["+tot[0][:60]+"]"))
                shutil.rmtree(o,ignore_errors=True)
    finally:
        shutil.rmtree(d,ignore_errors=True)
    return i+": "+"\n   ".join(out)

if __name__=="__main__":
    a=sys.argv[1:]; j=2
    if a[:1]==["-j"]: j=int(a[1]); a=a[2:]
    todo=[x for x in V if not a or any(x[0].startswith(y) for y in a)]
    with cf.ThreadPoolExecutor(j) as ex:
        for r in ex.map(one,todo): print(r,flush=True)
