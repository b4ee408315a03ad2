package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func load(repo string) (*ssa.Program, *packages.Package, []*packages.Package, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: repo, Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off")}
	ps, err := packages.Load(cfg, "./pkg/...", "./cmd/...")
	if err != nil {
		return nil, nil, nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, nil, nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, _ := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	return prog, nil, ps, nil
}

func newExec(repo, specDir, prop string) (*Exec, error) {
	prog, _, ps, err := load(repo)
	if err != nil {
		return nil, err
	}
	sf, err := loadSpecs(specDir)
	if err != nil {
		return nil, err
	}
	if prop != "" {
		var cs []*Contract
		for _, c := range sf.Contracts {
			if len(c.Only) == 0 || has(c.Only, prop) {
				cs = append(cs, c)
			}
		}
		sf.Contracts = cs
	}
	x := &Exec{env: newEnv(), prog: prog, sf: sf, specs: map[string]*Contract{}, views: map[string]*Contract{}, fnByKey: map[string]*ssa.Function{}, infos: map[*ssa.Function]*fnInfo{},
		need: map[string]bool{}, usedExt: map[string]bool{}, usedFiles: map[string]bool{}, inlined: map[string]bool{}, visitors: map[string]*ssa.Function{}, fnID: map[string]int{}, glFresh: map[*ssa.Global]bool{}, clauseN: map[string]bool{}, strParts: map[string][]string{}, fset: prog.Fset}
	x.env.ghosts = sf.Ghosts
	aliasFields(filepath.Join(specDir, "fields.txt"), ps)
	for fn := range ssautil.AllFunctions(prog) {
		k := relKey(fn)
		if old, ok := x.fnByKey[k]; ok && len(old.Blocks) > 0 {
			continue
		}
		x.fnByKey[k] = fn
	}
	// types: event before config so that shared struct types get the name of
	// the package that declares the fields
	sort.Slice(ps, func(i, j int) bool {
		return pkgRank(ps[i].PkgPath) < pkgRank(ps[j].PkgPath) || pkgRank(ps[i].PkgPath) == pkgRank(ps[j].PkgPath) && ps[i].PkgPath < ps[j].PkgPath
	})
	for _, p := range ps {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nt, ok := tn.Type().(*types.Named); ok {
					x.env.addNamed(nt)
				}
			}
		}
	}
	seen := map[string]bool{}
	var add func(t types.Type, d int)
	add = func(t types.Type, d int) {
		if t == nil || d > 4 {
			return
		}
		k := typeStr(t)
		if seen[k] {
			return
		}
		seen[k] = true
		universe = append(universe, t)
		switch u := under(t).(type) {
		case *types.Pointer:
			add(u.Elem(), d+1)
		case *types.Slice:
			add(u.Elem(), d+1)
		case *types.Array:
			add(u.Elem(), d+1)
		case *types.Map:
			add(u.Key(), d+1)
			add(u.Elem(), d+1)
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				add(u.Field(i).Type(), d+1)
			}
		}
	}
	for _, p := range ps {
		for _, tv := range p.TypesInfo.Types {
			if tv.IsValue() || tv.IsType() {
				if _, ok := tv.Type.(*types.Tuple); ok {
					continue
				}
				if hasTypeParam(tv.Type) {
					continue
				}
				add(tv.Type, 0)
			}
		}
	}
	for _, b := range types.Typ {
		if b != nil && b.Kind() != types.Invalid && b.Info()&types.IsUntyped == 0 {
			add(b, 3)
			add(types.NewSlice(b), 3)
		}
	}
	for _, c := range sf.Contracts {
		if c.Inline {
			x.specs["inline "+c.Key] = c
			continue
		}
		if o := x.specs[c.Key]; o != nil && o.Extern != c.Extern && !o.Iface && !c.Iface {
			// Callers go by the extern contract, the function itself is verified
			// against its own.
			v := c
			if o.Extern {
				v = o
			}
			v.ident += "_view"
			x.views[c.Key] = v
			if c.Extern {
				continue
			}
		}
		x.specs[c.Key] = c
	}
	return x, nil
}

func has(l []string, s string) bool {
	for _, e := range l {
		if e == s {
			return true
		}
	}
	return false
}

func hasTypeParam(t types.Type) bool {
	return strings.Contains(fmt.Sprintf("%T", t), "TypeParam")
}

func pkgRank(p string) int {
	for i, s := range []string{"pkg/event", "pkg/processor", "pkg/eventutil", "pkg/pipeline"} {
		if strings.HasSuffix(p, s) {
			return i
		}
	}
	return 10
}

func (x *Exec) resolveGlobal(m string) {
	for _, p := range x.prog.AllPackages() {
		if !isRepo(p.Pkg) {
			continue
		}
		for _, mem := range p.Members {
			if g, ok := mem.(*ssa.Global); ok && x.globalName(g) == m {
				if !x.glMutable(g) && x.isSentinel(g) {
					x.env.globals[m] = fmt.Sprintf("=Iface::Err(-%dint)", 1+x.constID("sentinel:"+g.String()))
					return
				}
				x.env.globals[m] = x.env.sortOf(g.Type().(*types.Pointer).Elem())
			}
		}
	}
}

// bindContracts resolves the contracts against the functions of the tree.
func (x *Exec) bindContracts() (missing []*Contract) {
	for _, c := range x.sf.Contracts {
		if c.Iface {
			continue
		}
		if c.Inline {
			if fn := x.fnByKey[c.Key]; fn != nil && len(fn.Params) == len(c.Params) {
				setContractTypes(c, fn.Signature, recvType(fn))
			}
			continue
		}
		k := c.Key
		fn := x.fnByKey[k]
		if fn == nil && !c.Extern {
			if fn = x.rebind(c); fn != nil {
				delete(x.specs, c.Key)
				c.Key = relKey(fn)
				x.specs[c.Key] = c
			}
		}
		if fn == nil {
			if !c.Extern {
				missing = append(missing, c)
				delete(x.specs, c.Key)
			}
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unsupported); !ok {
						panic(r)
					}
					missing = append(missing, c)
					delete(x.specs, c.Key)
				}
			}()
			if c.Sig != "" && !c.Extern && sigString(fn) != c.Sig {
				fail("signature changed")
			}
			setContractTypes(c, fn.Signature, recvType(fn))
		}()
	}
	return missing
}

type Report struct {
	Prop        string
	Obligations int
	Proved      int
	Failed      []*Result
	Functions   []string
	Externs     []string
	Inlined     []string
	Lemmas      int
	Wall        float64
	SMT         float64
	Cmd         string
	GenSeconds  float64
	Missing     []string
	Covers      int
	All         []*Result
	Fatal       string
	LibFuncs    int
	Assumes     []string
	Retries     int
}

type solved struct {
	failed    map[*VC]string
	fatal     string
	cmd       string
	wall, smt float64
	verified  int
}

// solve hands the obligations to the verifier.
func (x *Exec) solve(vcs []*VC, out, libDir string, verusArgs []string, timeout time.Duration) *solved {
	so := &solved{failed: map[*VC]string{}}
	file, lines, err := x.emit(out, libDir, vcs)
	if err != nil {
		so.fatal = err.Error()
		return so
	}
	o := runVerus(file, verusArgs, timeout)
	so.cmd = "verus " + filepath.Base(file) + " " + strings.Join(verusArgs, " ")
	so.wall = o.wall.Seconds()
	var other []string
	for _, d := range o.errs {
		hit := false
		for _, s := range d.Spans {
			for v, r := range lines {
				if s.LineStart >= r[0] && s.LineStart < r[1] {
					if so.failed[v] == "" {
						so.failed[v] = d.Message + "\n" + d.Rendered
					}
					hit = true
				}
			}
		}
		if !hit && !strings.HasPrefix(d.Message, "aborting due to") {
			other = append(other, d.Rendered)
		}
	}
	ok := false
	if vr, is := o.summary["verification-results"].(map[string]interface{}); is {
		if n, is := vr["verified"].(float64); is {
			so.verified = int(n)
			ok = true
		}
		if e, is := vr["encountered-vir-error"].(bool); is && e {
			ok = false
		}
	}
	if tm, is := o.summary["times-ms"].(map[string]interface{}); is {
		if s, is := tm["smt"].(map[string]interface{}); is {
			if n, is := s["total"].(float64); is {
				so.smt = n / 1000
			}
		}
	}
	if !ok || o.timedOut {
		tail := o.raw
		if len(other) > 0 {
			tail = strings.Join(other, "\n")
		}
		for _, m := range so.failed {
			tail += "\n" + m
		}
		if len(tail) > 6000 {
			tail = tail[:6000]
		}
		so.fatal = "the verifier gave no result: " + tail
		if o.timedOut {
			so.fatal = "the verifier ran out of time"
		}
	} else if len(other) > 0 {
		so.fatal = "library lemma failed: " + strings.Join(other, "\n")
	}
	return so
}

func (x *Exec) run(prop string, only string, out, libDir string, verusArgs []string, timeout time.Duration, retry bool) *Report {
	rep := &Report{Prop: prop}
	t0 := time.Now()
	x.prop = prop
	missing := x.bindContracts()
	for _, m := range missing {
		rep.Missing = append(rep.Missing, m.Key)
	}
	roots := []string{}
	for _, c := range x.sf.Contracts {
		if c.Extern || c.Iface || c.Inline {
			continue
		}
		if only != "" {
			if strings.Contains(c.Key, only) {
				roots = append(roots, c.Key)
			}
			continue
		}
		want := prop == ""
		for _, p := range c.Props {
			want = want || p == prop
		}
		for _, q := range c.Ensures {
			for _, p := range q.Props {
				want = want || p == prop
			}
		}
		if want {
			roots = append(roots, c.Key)
		}
	}
	x.inferred = map[*Contract]map[string]bool{}
	for round := 0; round < 12; round++ {
		x.inferChanged = false
		x.vcs, x.clauses, x.clauseN = nil, nil, map[string]bool{}
		x.seq, x.callSeq = 0, 0
		x.usedFiles = map[string]bool{}
		x.usedExt, x.inlined = map[string]bool{}, map[string]bool{}
		rep.Functions = nil
		x.generate(roots, only != "", rep)
		if !x.inferChanged {
			break
		}
	}
	for k := range x.usedExt {
		rep.Externs = append(rep.Externs, k)
	}
	sort.Strings(rep.Externs)
	for k := range x.inlined {
		rep.Inlined = append(rep.Inlined, k)
	}
	sort.Strings(rep.Inlined)
	for i, v := range x.vcs {
		v.ID = fmt.Sprintf("%d", i+1)
		v.Name = fmt.Sprintf("%s: %s: %s", v.Fn, v.Kind, v.Label)
		if v.Loc != "" {
			v.Name += " (" + v.Loc + ")"
		}
	}
	rep.GenSeconds = time.Since(t0).Seconds()
	so := x.solve(x.vcs, out, libDir, verusArgs, timeout)
	rep.Cmd, rep.Wall, rep.SMT, rep.LibFuncs, rep.Fatal = so.cmd, so.wall, so.smt, so.verified, so.fatal
	failed := so.failed
	if rep.Fatal == "" && retry {
		// solver limits are not violations: failed obligations are tried again
		// with more resources and other seeds
		for i := 1; i <= 3; i++ {
			var again []*VC
			for _, v := range x.vcs {
				if _, bad := failed[v]; bad && v.Kind != "translate" && !v.expectFail {
					again = append(again, v)
				}
			}
			if len(again) == 0 || time.Since(t0) > retryUntil {
				break
			}
			args := append(append([]string{}, verusArgs...), "--smt-option", fmt.Sprintf("smt.random_seed=%d", i*17), "--smt-option", fmt.Sprintf("sat.random_seed=%d", i*17))
			for j := range args {
				if args[j] == "--rlimit" {
					args[j+1] = fmt.Sprint(40 * i)
				}
			}
			d := filepath.Join(out, fmt.Sprintf("retry%d", i))
			os.MkdirAll(d, 0o755)
			left := retryEnd - time.Since(t0)
			if left > timeout {
				left = timeout
			}
			r := x.solve(again, d, libDir, args, left)
			rep.Wall += r.wall
			rep.SMT += r.smt
			rep.Retries += len(again)
			if r.fatal != "" {
				break
			}
			for _, v := range again {
				if _, bad := r.failed[v]; !bad {
					delete(failed, v)
				}
			}
		}
	}
	for _, v := range x.vcs {
		r := &Result{VC: v, Status: "proved"}
		if m, bad := failed[v]; bad {
			r.Status, r.Message = "failed", m
		}
		if v.Kind == "translate" {
			r.Status, r.Message = "failed", v.Label
		}
		if v.expectFail {
			rep.Covers++
			if r.Status == "proved" {
				r.Status, r.Message = "failed", "the hypotheses are contradictory"
				rep.Failed = append(rep.Failed, r)
			}
			continue
		}
		rep.Obligations++
		rep.All = append(rep.All, r)
		if r.Status == "proved" && rep.Fatal == "" {
			rep.Proved++
		} else if r.Status != "proved" {
			rep.Failed = append(rep.Failed, r)
		}
	}
	return rep
}

// generate executes every needed function under contract.
func (x *Exec) generate(roots []string, onlyRoots bool, rep *Report) {
	todo := append([]string(nil), roots...)
	done := map[string]bool{}
	for len(todo) > 0 {
		k := todo[0]
		todo = todo[1:]
		if done[k] {
			continue
		}
		done[k] = true
		key := k
		if j := strings.IndexByte(k, '|'); j >= 0 {
			key = k[:j]
		}
		c := x.specs[key]
		if c != nil && len(c.Caps) > 0 && key == k {
			continue // verified for every function it is called with
		}
		if c == nil && !exportedKey(k) {
			continue // a helper that is gone; what it did is proved in its callers
		}
		if c == nil {
			x.vcs = append(x.vcs, &VC{Fn: k, Kind: "translate", Label: "function not found in the tree", Goal: "false"})
			continue
		}
		fn := x.fnByKey[key]
		if len(fn.Blocks) == 0 {
			x.vcs = append(x.vcs, &VC{Fn: k, Kind: "translate", Label: "function has no body", Goal: "false"})
			continue
		}
		rep.Functions = append(rep.Functions, k)
		x.paths = 0
		x.stackFn = []*ssa.Function{fn}
		x.need = map[string]bool{}
		x.verify(c, fn, x.visitors[k])
		if !onlyRoots {
			var ks []string
			for n := range x.need {
				ks = append(ks, n)
			}
			sort.Strings(ks)
			todo = append(todo, ks...)
		}
	}
}

// Retries start before retryUntil and end by retryEnd, so that a check ends within
// its time.
const (
	retryUntil = 5 * time.Minute
	retryEnd   = 10 * time.Minute
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gocv verify|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2:]))
	case "sigs":
		x, err := newExec("/repo", "/verif/contracts", "")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, c := range x.sf.Contracts {
			if fn := x.fnByKey[c.Key]; fn != nil && !c.Extern && !c.Iface {
				fmt.Println(c.Key, sigString(fn))
			}
		}
	case "fields":
		_, _, ps, err := load("/repo")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		writeFields(os.Stdout, ps)
	case "verify":
		fs := flag.NewFlagSet("verify", flag.ExitOnError)
		repo := fs.String("repo", "/repo", "tree")
		specs := fs.String("specs", "/verif/contracts", "contract directory")
		lib := fs.String("lib", "/verif/lib", "library directory")
		prop := fs.String("prop", "", "property")
		fn := fs.String("func", "", "only functions containing this")
		out := fs.String("out", "/tmp/gocv", "output directory")
		rl := fs.String("rlimit", "20", "rlimit")
		retryF := fs.Bool("retry", false, "retry failures")
		js := fs.Bool("json", false, "json report")
		fs.Parse(os.Args[2:])
		os.MkdirAll(*out, 0o755)
		x, err := newExec(*repo, *specs, *prop)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		rep := x.run(*prop, *fn, *out, *lib, []string{"--rlimit", *rl, "--multiple-errors", "0"}, 15*time.Minute, *retryF)
		if *js {
			json.NewEncoder(os.Stdout).Encode(rep)
			return
		}
		for _, r := range rep.Failed {
			fmt.Printf("FAIL %s %s\n     %s\n", r.VC.ID, r.VC.Name, strings.SplitN(r.Message, "\n", 2)[0])
		}
		if rep.Fatal != "" {
			fmt.Println("FATAL", rep.Fatal)
		}
		fmt.Printf("functions %d obligations %d proved %d covers %d verus-verified %d missing %v\n  gen %.1fs verus %.1fs smt %.1fs\n  externs %v\n  inlined %v\n", len(rep.Functions), rep.Obligations, rep.Proved, rep.Covers, rep.LibFuncs, rep.Missing, rep.GenSeconds, rep.Wall, rep.SMT, rep.Externs, rep.Inlined)
	}
}
