package main

import (
	"errors"
	"fmt"
	"reflect"
	"sort"

	"github.com/andrewkroh/go-sawmill/pkg/processor"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"
)

func init() {
	searches["C22"] = registrations
	rules["C22"] = "random histories of registrations (constructors, duplicates, values of other shapes) and constructions with random options; results, configurations and calls compared with a reference registry"
}

type subConfig struct {
	A string `config:"a"`
	B bool   `config:"b"`
}

type regConfig struct {
	Name string                 `config:"name"`
	N    int                    `config:"n"`
	Must string                 `config:"must" validate:"required"`
	List []string               `config:"list"`
	Sub  subConfig              `config:"sub"`
	Free map[string]interface{} `config:"free"`
	Fail bool                   `config:"fail"`
	Nil  bool                   `config:"nil"`
}

func (c *regConfig) InitDefaults() {
	c.N = 7
	c.Sub.A = "sub"
}

type otherConfig struct {
	Name string `config:"name"`
	Fail bool   `config:"fail"`
}

type regProc struct {
	id   int
	conf interface{}
}

func (*regProc) Process(processor.Event) error { return nil }

type valProc struct{}

func (valProc) Process(processor.Event) error { return nil }

type valErr struct{}

func (valErr) Error() string { return "value error" }

type ptrErr struct{ id int }

func (*ptrErr) Error() string { return "pointer error" }

type madeCall struct {
	id   int
	conf string
	out  *regProc
	err  error
}

var made []madeCall

func constructor(id, kind int) interface{} {
	record := func(c interface{}, fail, null bool) (*regProc, error) {
		m := madeCall{id: id, conf: fmt.Sprintf("%#v", c)}
		if fail {
			m.err = fmt.Errorf("constructor %d fails", id)
			if id%2 == 0 { // a processor that comes with an error does not count
				made = append(made, m)
				return &regProc{id, c}, m.err
			}
		} else if !null {
			m.out = &regProc{id, c}
		}
		made = append(made, m)
		return m.out, m.err
	}
	switch kind {
	case 0, 1:
		return func(c regConfig) (*regProc, error) {
			p, err := record(c, c.Fail, c.Nil)
			// A constructor may keep and change what it was given.
			for i := range c.List {
				c.List[i] += "!"
			}
			if c.Free != nil {
				c.Free["seen"] = id
			}
			return p, err
		}
	case 2:
		return func(c otherConfig) (*regProc, error) { return record(c, c.Fail, false) }
	default:
		return func(c otherConfig) (*regProc, *ptrErr) {
			p, err := record(c, c.Fail, false)
			if err != nil {
				e := &ptrErr{id}
				made[len(made)-1].err = e
				return nil, e
			}
			return p, nil
		}
	}
}

var notConstructors = []struct {
	name string
	f    interface{}
}{
	{"nil", nil},
	{"a string", "x"},
	{"a nil function", (func(regConfig) (*regProc, error))(nil)},
	{"no argument", func() (*regProc, error) { return nil, nil }},
	{"two arguments", func(a, b regConfig) (*regProc, error) { return nil, nil }},
	{"a pointer argument", func(*regConfig) (*regProc, error) { return nil, nil }},
	{"a map argument", func(map[string]string) (*regProc, error) { return nil, nil }},
	{"variadic", func(...regConfig) (*regProc, error) { return nil, nil }},
	{"no result", func(regConfig) {}},
	{"one result", func(regConfig) *regProc { return nil }},
	{"three results", func(regConfig) (*regProc, error, int) { return nil, nil, 0 }},
	{"a struct processor", func(regConfig) (valProc, error) { return valProc{}, nil }},
	{"an interface processor", func(regConfig) (processor.Processor, error) { return nil, nil }},
	{"not a processor", func(regConfig) (*regConfig, error) { return nil, nil }},
	{"no error", func(regConfig) (*regProc, string) { return nil, "" }},
	{"swapped results", func(regConfig) (error, *regProc) { return nil, nil }},
	{"a value error", func(regConfig) (*regProc, valErr) { return nil, valErr{} }},
	{"a pointer to a constructor", new(func(regConfig) (*regProc, error))},
}

func (t *T) option(kind int) (map[string]interface{}, interface{}, bool) {
	m := map[string]interface{}{}
	if kind >= 2 {
		c := otherConfig{}
		if t.chance(2) {
			c.Name = t.pick("a", "b", "")
			m["name"] = c.Name
		}
		if t.chance(3) {
			c.Fail = true
			m["fail"] = true
		}
		if t.chance(8) {
			m["fail"] = "no bool"
			return m, nil, false
		}
		return m, c, true
	}
	c := regConfig{N: 7, Sub: subConfig{A: "sub"}}
	ok := true
	if t.chance(8) {
		ok = false // must is required
	} else {
		c.Must = t.pick("x", "y")
		m["must"] = c.Must
	}
	if t.chance(2) {
		c.Name = t.pick("a", "b", "c")
		m["name"] = c.Name
	}
	if t.chance(2) {
		c.N = t.r.Intn(3)
		m["n"] = c.N
	}
	if t.chance(8) {
		m["n"] = "no number"
		ok = false
	}
	if t.chance(3) {
		l := []interface{}{}
		for i := t.r.Intn(3) + 1; i > 0; i-- {
			s := t.pick("p", "q")
			c.List = append(c.List, s)
			l = append(l, s)
		}
		m["list"] = l
	}
	if t.chance(3) {
		c.Sub.B = true
		s := map[string]interface{}{"b": true}
		if t.chance(2) {
			c.Sub.A = "other"
			s["a"] = "other"
		}
		m["sub"] = s
	}
	if t.chance(3) {
		c.Free = map[string]interface{}{"k": "v"}
		m["free"] = map[string]interface{}{"k": "v"}
	}
	if t.chance(5) {
		c.Fail = true
		m["fail"] = true
	} else if t.chance(6) {
		c.Nil = true
		m["nil"] = true
	}
	if t.chance(6) {
		m["unknown"] = 1
	}
	return m, c, ok
}

func sortedKeys(m map[string]interface{}) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func registrations(t *T) {
	r := registry.NewRegistry()
	other := registry.NewRegistry()
	type reg struct{ id, kind int }
	known := map[string]reg{}
	names := []string{"a", "b", "c", "A", ""}
	register, newProcessor := r.Register, r.NewProcessor
	if t.chance(20) {
		t.logf("the package's own registry")
		for i := range names {
			names[i] = fmt.Sprintf("zz%d_%s", t.round, names[i])
		}
		newProcessor = registry.NewProcessor
		register = func(name string, f interface{}) (err error) {
			defer func() {
				if x := recover(); x != nil {
					err = fmt.Errorf("%v", x)
				}
			}()
			registry.MustRegister(name, f)
			return nil
		}
	}
	next := 0
	for n := 3 + t.r.Intn(12); n > 0; n-- {
		made = nil
		name := t.pick(names...)
		switch {
		case t.chance(3): // a constructor
			next++
			kind := t.r.Intn(4)
			t.logf("Register(%q, constructor %d of kind %d)", name, next, kind)
			err := register(name, constructor(next, kind))
			if _, dup := known[name]; dup {
				if err == nil {
					t.fail("an error: the name is registered", "no error")
				}
				t.eval("duplicate")
				break
			}
			if err != nil {
				t.fail("no error", "%v", err)
			}
			known[name] = reg{next, kind}
			t.eval("register")
		case t.chance(4): // no constructor
			b := notConstructors[t.r.Intn(len(notConstructors))]
			t.logf("Register(%q, %s)", name, b.name)
			if register(name, b.f) == nil {
				t.fail("an error: not a constructor", "no error")
			}
			t.eval("reject " + b.name)
		case t.chance(8):
			t.logf("another registry is not concerned: NewProcessor(%q)", name)
			if _, err := other.NewProcessor(name, nil); err == nil {
				t.fail("an error: nothing is registered there", "no error")
			}
		default:
			k, found := known[name]
			opts, conf, ok := t.option(k.kind)
			if len(opts) == 0 && t.chance(2) {
				opts = nil
			}
			var times = 1 + t.r.Intn(2)
			var first *regProc
			for i := 0; i < times; i++ {
				made = nil
				t.logf("NewProcessor(%q, %v)", name, opts)
				before := fmt.Sprintf("%#v", opts)
				p, err := newProcessor(name, opts)
				if after := fmt.Sprintf("%#v", opts); after != before {
					t.fail("options unchanged: "+before, "%s", after)
				}
				if !found || !ok {
					if err == nil {
						t.fail("an error", "processor %v", p)
					}
					if len(made) != 0 {
						t.fail("no constructor called", "constructor %d called", made[0].id)
					}
					t.eval("error " + name)
					continue
				}
				if len(made) != 1 || made[0].id != k.id {
					t.fail(fmt.Sprintf("one call of constructor %d", k.id), "calls %v, error %v", made, err)
				}
				if want := fmt.Sprintf("%#v", conf); made[0].conf != want {
					t.fail("configuration "+want, "%s", made[0].conf)
				}
				if made[0].err != nil {
					if !errors.Is(err, made[0].err) || p != nil {
						t.fail(fmt.Sprintf("error %v", made[0].err), "%v, %v", p, err)
					}
					t.eval("constructor error")
					continue
				}
				if err != nil {
					t.fail("no error", "%v", err)
				}
				got, isP := p.(*regProc)
				if !isP || got != made[0].out {
					t.fail("the constructor's processor", "%v", p)
				}
				if got != nil && i > 0 && first != nil {
					if got == first || got.conf == nil || !reflect.DeepEqual(got.conf, first.conf) {
						t.fail("a new processor with an equal configuration", "%#v and %#v", first.conf, got.conf)
					}
				}
				first = got
				t.eval("made " + fmt.Sprint(sortedKeys(opts)))
			}
		}
	}
}
