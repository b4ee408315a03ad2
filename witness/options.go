package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
)

func init() {
	searches["C25"] = optionsJSON
	rules["C25"] = "random JSON options (special members, other members of every kind, names that differ by case, nested handlers, ill-typed members), decoded, encoded and decoded again, compared with a generic decoding of the same text; random entries built into pipelines"
}

func (t *T) anyJSON(d int) interface{} {
	switch k := t.r.Intn(8); {
	case k == 0:
		return nil
	case k == 1:
		return t.chance(2)
	case k == 2:
		return float64(t.r.Intn(2000)-1000) / 4
	case k == 3 && d > 0:
		l := []interface{}{}
		for i := t.r.Intn(3); i > 0; i-- {
			l = append(l, t.anyJSON(d-1))
		}
		return l
	case k == 4 && d > 0:
		m := map[string]interface{}{}
		for i := t.r.Intn(3); i > 0; i-- {
			m[t.optName()] = t.anyJSON(d - 1)
		}
		return m
	}
	return t.pick("", "x", "on_failure", "<&>", "é\u2028", "\"q\"\\")
}

func (t *T) optName() string {
	return t.pick("field", "value", "a", "", "é", "ID", "Id", "If", "IF", "On_Failure", "ON_FAILURE", "config", "Config", "id ", "onfailure", "OnFailure", "x.y", "id", "if")
}

// optJSON generates an options object; ok tells whether it can be decoded.
func (t *T) optJSON(d int) (m map[string]interface{}, ok bool) {
	m, ok = map[string]interface{}{}, true
	if t.chance(2) {
		m["id"] = t.pick("p1", "", "p2")
	} else if t.chance(8) {
		m["id"] = nil
	} else if t.chance(20) {
		m["id"], ok = 1.0, false
	}
	if t.chance(3) {
		m["if"] = t.pick("x == 1", "", "true")
	} else if t.chance(10) {
		m["if"] = nil
	} else if t.chance(20) {
		m["if"], ok = true, false
	}
	if d > 0 && t.chance(2) {
		l := []interface{}{}
		for i := t.r.Intn(3); i > 0; i-- {
			e, ok2 := t.entryJSON(d - 1)
			l, ok = append(l, e), ok && ok2
		}
		m["on_failure"] = l
	} else if t.chance(10) {
		m["on_failure"] = nil
	} else if t.chance(20) {
		m["on_failure"], ok = "x", false
	}
	for i := t.r.Intn(4); i > 0; i-- {
		k := t.optName()
		if k == "id" || k == "if" || k == "on_failure" {
			continue
		}
		m[k] = t.anyJSON(2)
	}
	return m, ok
}

func (t *T) entryJSON(d int) (interface{}, bool) {
	if t.chance(12) {
		return nil, true
	}
	e, ok := map[string]interface{}{}, true
	n := 1
	if t.chance(6) {
		n = t.r.Intn(3)
	}
	for i := 0; i < n; i++ {
		name := t.pick("set", "append", "id", "remove", "if")
		if _, dup := e[name]; dup {
			continue
		}
		if t.chance(5) {
			e[name] = nil
			continue
		}
		o, ok2 := t.optJSON(d)
		e[name], ok = o, ok && ok2
	}
	return e, ok
}

func str(x interface{}) string { s, _ := x.(string); return s }

func shown(x interface{}) string { b, _ := json.Marshal(x); return string(b) }

// sameOptions: o holds the members of m.
func sameOptions(t *T, at string, o *pipeline.ProcessorOptionConfig, m map[string]interface{}) {
	if o.ID != str(m["id"]) {
		t.fail(fmt.Sprintf("%s: id %q", at, str(m["id"])), "%q", o.ID)
	}
	if string(o.If) != str(m["if"]) {
		t.fail(fmt.Sprintf("%s: if %q", at, str(m["if"])), "%q", string(o.If))
	}
	rest := map[string]interface{}{}
	for k, v := range m {
		if k != "id" && k != "if" && k != "on_failure" {
			rest[k] = v
		}
	}
	if len(o.Config) != len(rest) || len(rest) > 0 && !reflect.DeepEqual(o.Config, rest) {
		t.fail(fmt.Sprintf("%s: settings %s", at, shown(rest)), "%s", shown(o.Config))
	}
	l, _ := m["on_failure"].([]interface{})
	sameEntries(t, at+".on_failure", o.OnFailure, l)
}

func sameEntries(t *T, at string, ps []pipeline.ProcessorConfig, l []interface{}) {
	if len(ps) != len(l) {
		t.fail(fmt.Sprintf("%s: %d entries", at, len(l)), "%d", len(ps))
	}
	for i, e := range l {
		em, _ := e.(map[string]interface{})
		if len(ps[i]) != len(em) {
			t.fail(fmt.Sprintf("%s[%d]: %s", at, i, shown(e)), "%d processors", len(ps[i]))
		}
		for k, v := range em {
			o, found := ps[i][k]
			if !found {
				t.fail(fmt.Sprintf("%s[%d] has %q", at, i, k), "it has not")
			}
			vm, isObj := v.(map[string]interface{})
			if !isObj {
				if o != nil {
					t.fail(fmt.Sprintf("%s[%d].%s: no options", at, i, k), "%v", *o)
				}
				continue
			}
			if o == nil {
				t.fail(fmt.Sprintf("%s[%d].%s: options %s", at, i, k, shown(v)), "none")
			}
			sameOptions(t, fmt.Sprintf("%s[%d].%s", at, i, k), o, vm)
		}
	}
}

// written: what encoding the options of m gives. Unset special members are not
// written.
func written(m map[string]interface{}) map[string]interface{} {
	w := map[string]interface{}{}
	for k, v := range m {
		switch k {
		case "id", "if":
			if str(v) != "" {
				w[k] = v
			}
		case "on_failure":
			if l, _ := v.([]interface{}); len(l) > 0 {
				w[k] = writtenList(l)
			}
		default:
			w[k] = v
		}
	}
	return w
}

func writtenList(l []interface{}) []interface{} {
	var w []interface{}
	for _, e := range l {
		em, isObj := e.(map[string]interface{})
		if !isObj {
			w = append(w, nil)
			continue
		}
		we := map[string]interface{}{}
		for k, v := range em {
			if vm, isObj := v.(map[string]interface{}); isObj {
				we[k] = written(vm)
			} else {
				we[k] = nil
			}
		}
		w = append(w, we)
	}
	return w
}

func optionsJSON(t *T) {
	if t.chance(4) {
		entries(t)
		return
	}
	m, ok := t.optJSON(2)
	text := shown(m)
	if t.chance(8) {
		text = strings.Replace(text, ":", " :\n ", -1)
	}
	t.logf("options %s", text)
	var o pipeline.ProcessorOptionConfig
	err := json.Unmarshal([]byte(text), &o)
	if !ok {
		if err == nil {
			t.fail("an error", "%+v", o)
		}
		t.eval("ill-typed")
		return
	}
	if err != nil {
		t.fail("no error", "%v", err)
	}
	sameOptions(t, "options", &o, m)
	out, err := json.Marshal(o)
	if err != nil {
		t.fail("no error encoding", "%v", err)
	}
	var got interface{}
	if err := json.Unmarshal(out, &got); err != nil {
		t.fail("JSON", "%s", out)
	}
	if want := written(m); !reflect.DeepEqual(got, interface{}(want)) {
		t.fail("encoded as "+shown(want), "%s", out)
	}
	if out2, err := json.Marshal(&o); err != nil || string(out2) != string(out) {
		t.fail("the same encoding by pointer: "+string(out), "%s, %v", out2, err)
	}
	t.eval(text)
	if len(o.Config) > 0 {
		// Options that are read over settings of before: what is read counts.
		m2, ok2 := t.optJSON(1)
		settings := len(m2)
		for _, k := range []string{"id", "if", "on_failure"} {
			if _, found := m2[k]; found {
				settings--
			}
		}
		if ok2 && settings > 0 {
			t.logf("options %s over settings %s", shown(m2), shown(o.Config))
			o.ID, o.If, o.OnFailure = "", "", nil
			if err := json.Unmarshal([]byte(shown(m2)), &o); err != nil {
				t.fail("no error", "%v", err)
			}
			sameOptions(t, "options", &o, m2)
		}
	}
	for _, bad := range []string{`[]`, `"x"`, `3`, `true`, `{`, ``, `{"id":}`} {
		var o pipeline.ProcessorOptionConfig
		if json.Unmarshal([]byte(bad), &o) == nil || (&o).UnmarshalJSON([]byte(bad)) == nil {
			t.fail("an error for "+bad, "%+v", o)
		}
	}
}

// entries: an entry with no processor or several is rejected when the pipeline
// is built; null options are default options.
func entries(t *T) {
	n := 1 + t.r.Intn(3)
	bad := t.r.Intn(n + 2)
	var l []string
	for i := 0; i < n; i++ {
		switch {
		case i == bad && t.chance(2):
			l = append(l, t.pick(`{}`, `null`))
		case i == bad:
			l = append(l, t.pick(`{"zz_plain":{},"zz_script":{}}`, `{"zz_plain":null,"zz_other":null}`))
		default:
			l = append(l, t.pick(`{"zz_plain":null}`, `{"zz_script":{}}`, `{"zz_script":null}`, `{"zz_plain":{"name":"n"}}`))
		}
	}
	list := "[" + strings.Join(l, ",") + "]"
	text := fmt.Sprintf(`{"id":"p","processors":%s}`, list)
	switch t.r.Intn(3) {
	case 0:
		text = fmt.Sprintf(`{"id":"p","on_failure":%s}`, list)
	case 1:
		text = fmt.Sprintf(`{"id":"p","processors":[{"zz_plain":{"on_failure":%s}}]}`, list)
	}
	t.logf("pipeline %s", text)
	var c *pipeline.Config
	if err := json.Unmarshal([]byte(text), &c); err != nil {
		t.fail("no error decoding", "%v", err)
	}
	p, err := pipeline.New(c)
	if (err == nil) != (bad >= n) || (p == nil) != (err != nil) {
		t.fail(fmt.Sprintf("built: %v", bad >= n), "%v, %v", p, err)
	}
	t.eval(text)
}
