package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"unicode"
)

// repo is the tree under test (set when the search is linked).
var repo = "/repo"

func init() {
	searches["C23"] = commandLine
	rules["C23"] = "random texts of blank, padded, marked and unprintable lines given to the real command (its main package, built with one more processor that fails, drops, cancels or adds a field as the line says); standard output compared with what the lines call for"
}

// A processor that does what the line says.
const stepSource = `package main

import (
	"errors"
	"fmt"
	"math"
	"strings"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"
)

type zzStepConfig struct{}

type zzStep struct{}

func (zzStep) Config() zzStepConfig { return zzStepConfig{} }

func (zzStep) String() string { return "zz_step" }

func (zzStep) Process(e processor.Event) error {
	v := e.Get("event.original")
	n := e.Get("@metadata.line_number")
	if v == nil || n == nil {
		return nil
	}
	s := v.String
	if strings.Contains(s, "MARK") {
		e.Put(fmt.Sprintf("mark.b%x", s[:1]), event.UnsignedInteger(n.UnsignedInteger))
	}
	if strings.Contains(s, "NAN") {
		e.Put("x", event.Float(math.NaN()))
	}
	if strings.Contains(s, "DROP") {
		e.Drop()
	}
	if strings.Contains(s, "CANCEL") {
		e.Cancel()
	}
	if strings.Contains(s, "FAIL") {
		return errors.New("failed as asked")
	}
	return nil
}

func init() {
	registry.MustRegister("zz_step", func(c zzStepConfig) (*zzStep, error) { return &zzStep{}, nil })
}
`

var (
	cliOnce sync.Once
	cliBin  string
	cliErr  error
)

func buildCommand(tmp string) {
	dir, err := os.MkdirTemp(tmp, "cli")
	if err != nil {
		cliErr = err
		return
	}
	src := filepath.Join(dir, "step.txt")
	os.WriteFile(src, []byte(stepSource), 0o644)
	ov, _ := json.Marshal(map[string]interface{}{"Replace": map[string]string{filepath.Join(repo, "cmd", "sawmill", "zz_step.go"): src}})
	os.WriteFile(filepath.Join(dir, "ov.json"), ov, 0o644)
	os.WriteFile(filepath.Join(dir, "p.yml"), []byte("id: p\nprocessors:\n  - zz_step: {}\n"), 0o644)
	cmd := exec.Command("go", "build", "-overlay", filepath.Join(dir, "ov.json"), "-o", filepath.Join(dir, "sawmill"), "./cmd/sawmill")
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off")
	if out, err := cmd.CombinedOutput(); err != nil {
		cliErr = fmt.Errorf("%v: %s", err, out)
		return
	}
	cliBin = filepath.Join(dir, "sawmill")
}

func (t *T) inputLine() string {
	pad := func() string { return t.pick("", "", " ", "\t", "  \t", "\u00a0", "\r") }
	switch t.r.Intn(12) {
	case 0, 1:
		return pad()
	case 2:
		return pad() + pad()
	}
	body := t.pick("a", "ab", "<b>&", "{\"x\":1}", "\\", "\"", "x.y", "é", "\xff", "a b", "\u2028", "long"+strings.Repeat("z", t.r.Intn(3000)), fmt.Sprint(t.r.Intn(1000)))
	if t.chance(400) {
		body += strings.Repeat("0123456789abcdef", 1+t.r.Intn(3900))
	}
	for t.chance(3) {
		body += t.pick(" MARK", " DROP", " FAIL", " CANCEL", " NAN")
	}
	return pad() + body + pad()
}

// What encoding a string in JSON and reading it back gives.
func jsonString(s string) string {
	b, _ := json.Marshal(s)
	var r string
	json.Unmarshal(b, &r)
	return r
}

func commandLine(t *T) {
	cliOnce.Do(func() { buildCommand(t.tmp) })
	if cliErr != nil {
		t.fail("the command builds", "%v", cliErr)
	}
	var in strings.Builder
	var want []map[string]interface{}
	n := t.r.Intn(30)
	var lines []string
	same := 0 // a long run of one line
	if t.chance(8) {
		same = 1 + t.r.Intn(20)
		n += 1500
	}
	for i := 1; i <= n; i++ {
		l := t.inputLine()
		if same > 0 && i > same && i <= same+1500 {
			if i > same+1 {
				l = lines[i-2]
			} else if t.chance(2) {
				l += " FAIL"
			}
		}
		lines = append(lines, l)
		in.WriteString(l)
		if i < n || t.chance(2) {
			in.WriteString(t.pick("\n", "\n", "\r\n"))
		}
		s := strings.TrimFunc(l, unicode.IsSpace)
		if s == "" || strings.Contains(s, "DROP") || strings.Contains(s, "FAIL") || strings.Contains(s, "NAN") {
			continue
		}
		w := map[string]interface{}{"@metadata": map[string]interface{}{"line_number": float64(i)}, "event": map[string]interface{}{"original": jsonString(s)}}
		if strings.Contains(s, "MARK") {
			w["mark"] = map[string]interface{}{fmt.Sprintf("b%x", s[:1]): float64(i)}
		}
		want = append(want, w)
	}
	for i, l := range lines {
		if i > 0 && lines[i-1] == l && i+1 < len(lines) && lines[i+1] == l {
			continue // the lines in between are the same
		}
		t.logf("line %d: %q", i+1, l)
	}
	t.eval(in.String())
	cmd := exec.Command(cliBin, "-p", filepath.Join(filepath.Dir(cliBin), "p.yml"), "-metrics-addr", "127.0.0.1:0")
	cmd.Dir = filepath.Dir(cliBin)
	cmd.Stdin = strings.NewReader(in.String())
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Run(); err != nil {
		t.fail("the command ends without an error", "%v: %s", err, se.String())
	}
	var got []map[string]interface{}
	sc := bufio.NewScanner(&so)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		var m map[string]interface{}
		if err := json.Unmarshal(sc.Bytes(), &m); err != nil {
			t.fail("one JSON document per line of output", "%q: %v", sc.Text(), err)
		}
		got = append(got, m)
	}
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			t.fail(fmt.Sprintf("line %d of output is %v", i+1, want[i]), "%d lines", len(got))
		case i >= len(want):
			t.fail(fmt.Sprintf("%d lines of output", len(want)), "another one: %v", got[i])
		case !reflect.DeepEqual(got[i], want[i]):
			t.fail(fmt.Sprintf("line %d of output is %v", i+1, want[i]), "%v", got[i])
		}
	}
}
