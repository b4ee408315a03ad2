package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// PropInfo is an entry of contracts/checks.json.
type PropInfo struct {
	Level       string   `json:"level"`
	Search      bool     `json:"search"`          // a search against the real code exists
	Bounded     []string `json:"bounded"`         // parts decided by the bounded search only
	Assumptions []string `json:"assumptions"`     // what the proof assumes
	MinProved   int      `json:"min_obligations"` // vacuity guard
}

var baseAssumptions = []string{
	"go/ssa's translation of the Go source (golang.org/x/tools v0.52.0), the condition generator /verif/tool, Verus and Z3 are trusted",
	"partial correctness: termination and stack or memory exhaustion are not proved",
	"one goroutine at a time uses the data (no data races); recovered panics are not modelled",
	"len, cap and slice offsets are mathematical; fixed-width integer arithmetic wraps as in Go",
	"formatted texts (fmt) are opaque: only identity, wrapping and emptiness of errors are specified",
}

type witnessOut struct {
	Case *struct {
		Property string   `json:"property"`
		Input    []string `json:"input"`
		Expected string   `json:"expected"`
		Got      string   `json:"got"`
		Seed     int64    `json:"seed"`
		Round    int      `json:"round"`
	} `json:"case"`
	Evals    int      `json:"evaluations"`
	Distinct int      `json:"distinct"`
	Rounds   int      `json:"rounds"`
	Samples  []string `json:"samples"`
	Rule     string   `json:"rule"`
}

type finding struct{ prop, pattern, text string }

// loadFindings reads known-findings.txt: "finding: property=<id> match=<regexp> <text>".
func loadFindings(file string) (out []finding) {
	b, _ := os.ReadFile(file)
	re := regexp.MustCompile(`^finding: property=(\S+) match="([^"]*)" (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			out = append(out, finding{m[1], m[2], m[3]})
		}
	}
	return
}

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "tree")
	verif := fs.String("verif", "/verif", "directory of the machinery")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	evid := fs.String("evidence", "", "evidence directory")
	prop := args[0]
	fs.Parse(args[1:])
	if *tier == "" {
		*tier = "quick"
	}
	if *evid == "" {
		*evid = filepath.Join(*verif, "evidence")
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	t0 := time.Now()
	infos := map[string]*PropInfo{}
	b, err := os.ReadFile(filepath.Join(*verif, "contracts", "checks.json"))
	if err == nil {
		err = json.Unmarshal(b, &infos)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "checks.json:", err)
		return 3
	}
	info := infos[prop]
	if info == nil {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 3
	}
	tmp, err := os.MkdirTemp("", "gocv-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(tmp)

	// the search program is compiled into the tree while the proof runs
	type built struct {
		bin string
		log string
	}
	wch := make(chan built, 1)
	go func() {
		if !info.Search {
			wch <- built{}
			return
		}
		bin, log := buildWitness(*repo, *verif, tmp)
		wch <- built{bin, log}
	}()

	x, err := newExec(*repo, filepath.Join(*verif, "contracts"), prop)
	if err != nil {
		<-wch
		fmt.Fprintln(os.Stderr, "the tree could not be loaded:", err)
		return 3
	}
	rlimit := "20"
	rep := x.run(prop, "", tmp, filepath.Join(*verif, "lib"), []string{"--rlimit", rlimit, "--multiple-errors", "0"}, 8*time.Minute, true)
	if rep.Fatal == "" && rep.Obligations < info.MinProved {
		rep.Fatal = fmt.Sprintf("only %d obligations were generated, at least %d are expected", rep.Obligations, info.MinProved)
	}
	for _, m := range rep.Missing {
		if c := x.sf.byKey(m); c != nil && x.wants(c, prop) && exportedKey(m) {
			rep.Failed = append(rep.Failed, &Result{VC: &VC{Fn: m, Kind: "translate", Label: "function under contract not found in the tree, or its signature changed"}, Status: "failed"})
		}
	}
	stable := []string{}
	if *tier == "thorough" && rep.Fatal == "" && len(rep.Failed) == 0 {
		// the proof must not hang on one seed of the solver
		for i := 1; i <= 2; i++ {
			s := int(seed)*100 + i
			so := x.solve(x.vcs, tmp, filepath.Join(*verif, "lib"), []string{"--rlimit", "60", "--multiple-errors", "0", "--smt-option", fmt.Sprintf("smt.random_seed=%d", s), "--smt-option", fmt.Sprintf("sat.random_seed=%d", s)}, 10*time.Minute)
			n := 0
			for v := range so.failed {
				if !v.expectFail {
					n++
				}
			}
			stable = append(stable, fmt.Sprintf("solver seed %d: %d obligations not discharged %s", s, n, so.fatal))
			rep.SMT += so.smt
		}
	}
	proofFails := rep.Fatal != "" || len(rep.Failed) > 0

	w := <-wch
	var wo *witnessOut
	wlog := w.log
	if w.bin != "" {
		budget := 4 * time.Second
		if len(info.Bounded) > 0 {
			budget = 20 * time.Second
		}
		if proofFails {
			budget = 75 * time.Second
		}
		if *tier == "thorough" {
			budget = 4 * time.Minute
		}
		wo, wlog = runWitness(w.bin, prop, seed, budget, tmp)
	} else if info.Search && w.log != "" {
		wlog = "the search program does not compile against the tree:\n" + w.log
	}

	findings := loadFindings(filepath.Join(*verif, "known-findings.txt"))
	known := func(text string) bool {
		for _, f := range findings {
			if f.prop == prop {
				if ok, _ := regexp.MatchString(f.pattern, text); ok {
					return true
				}
			}
		}
		return false
	}
	for _, f := range findings {
		if f.prop == prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.text)
		}
	}
	violations := 0
	var obl []map[string]string
	for _, r := range rep.Failed {
		if known(r.VC.Name) {
			continue
		}
		obl = append(obl, map[string]string{"function": r.VC.Fn, "obligation": r.VC.Kind + ": " + r.VC.Label, "at": r.VC.Loc, "verifier": r.Message})
	}
	if rep.Fatal != "" {
		obl = append(obl, map[string]string{"function": "", "obligation": "verification run", "verifier": rep.Fatal})
	}
	hasCase := wo != nil && wo.Case != nil && !known(strings.Join(wo.Case.Input, "; ")+" => "+wo.Case.Got)
	if len(obl) > 0 || hasCase {
		violations = len(obl)
		if hasCase {
			violations++
		}
		os.MkdirAll(filepath.Join(*evid, "replay"), 0o755)
		path := filepath.Join(*evid, "replay", prop+".json")
		rp := map[string]interface{}{"property": prop, "failed_obligations": obl}
		if hasCase {
			rp["failing_input"] = wo.Case
			rp["replay_cmd"] = fmt.Sprintf("/verif/replay.sh %s", path)
		} else {
			rp["failing_input"] = nil
			if wlog != "" {
				rp["search"] = wlog
			}
		}
		jb, _ := json.MarshalIndent(rp, "", " ")
		os.WriteFile(path, append(jb, '\n'), 0o644)
		for i, o := range obl {
			if i < 8 {
				fmt.Printf("obligation not discharged: %s: %s (%s)\n", o["function"], o["obligation"], o["at"])
				if o["function"] == "" {
					t := o["verifier"]
					if len(t) > 600 {
						t = t[:600]
					}
					fmt.Println(t)
				}
			}
		}
		if hasCase {
			fmt.Printf("failing input: %s\nexpected: %s\ngot: %s\n", strings.Join(wo.Case.Input, "; "), wo.Case.Expected, wo.Case.Got)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, path)
		}
	}
	cov := map[string]interface{}{
		"obligations":              rep.Obligations,
		"discharged":               rep.Proved,
		"checker_cmd":              rep.Cmd,
		"trusted_base":             append(append([]string{}, trusted(x, rep)...), "Verus 0.2026.09.13 with its Z3 back end", "golang.org/x/tools/go/ssa v0.52.0", "/verif/tool (condition generator)", "/verif/lib (lemmas, all checked by Verus on this run)"),
		"functions_under_contract": rep.Functions,
		"functions_inlined":        rep.Inlined,
		"vacuity_probes":           rep.Covers,
		"library_and_obligation_functions_verified": rep.LibFuncs,
		"solver":       "Verus/Z3",
		"solver_s":     round2(rep.SMT),
		"verus_wall_s": round2(rep.Wall),
		"retried":      rep.Retries,
	}
	if len(stable) > 0 {
		cov["seed_stability"] = stable
	}
	if len(info.Bounded) > 0 {
		cov["bounded_stand_ins"] = info.Bounded
	}
	if wo != nil {
		cov["evaluations"] = wo.Evals
		cov["distinct_nontrivial"] = wo.Distinct
		cov["rule"] = "randomised search over the public interface of the real code (not counted as proof): " + wo.Rule
		if len(wo.Samples) == 0 {
			wo.Samples = []string{"-"}
		}
		cov["samples"] = wo.Samples
	}
	ev := map[string]interface{}{
		"property": prop, "tier": *tier, "seed": seed, "level": info.Level, "coverage": cov,
		"assumptions": append(append([]string{}, info.Assumptions...), baseAssumptions...),
		"wall_s":      round2(time.Since(t0).Seconds()), "violations": violations,
	}
	os.MkdirAll(*evid, 0o755)
	jb, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*evid, prop+".json"), append(jb, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	fmt.Printf("%s: %d of %d obligations discharged over %d functions, %d vacuity probes", prop, rep.Proved, rep.Obligations, len(rep.Functions), rep.Covers)
	if wo != nil {
		fmt.Printf("; search: %d evaluations", wo.Evals)
	}
	fmt.Printf("; %.1f s\n", time.Since(t0).Seconds())
	if violations > 0 {
		return 1
	}
	return 0
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }

// trusted lists the assumed contracts the proof used.
func trusted(x *Exec, rep *Report) (out []string) {
	for _, k := range rep.Externs {
		c := x.specs[k]
		kind := "assumed contract of the dependency "
		if x.views[k] != nil {
			c, kind = x.views[k], "assumed contract (the function is verified against another one) of "
		}
		if c != nil && c.Iface {
			kind = "assumed contract of every implementation of "
		}
		if c != nil && c.Pure {
			kind = "assumed (pure) contract of the dependency "
		}
		out = append(out, kind+k)
	}
	return
}

func (sf *SpecFile) byKey(k string) *Contract {
	for _, c := range sf.Contracts {
		if c.Key == k {
			return c
		}
	}
	return nil
}

func (x *Exec) wants(c *Contract, prop string) bool {
	if prop == "" {
		return true
	}
	for _, p := range c.Props {
		if p == prop {
			return true
		}
	}
	for _, q := range c.Ensures {
		for _, p := range q.Props {
			if p == prop {
				return true
			}
		}
	}
	return false
}

// exportedKey: the function must exist, it is public or part of a command.
func exportedKey(k string) bool { return exportedName(k) || strings.HasPrefix(k, "cmd/") }

func exportedName(k string) bool {
	n := k[strings.LastIndex(k, ".")+1:]
	return n != "" && n[0] >= 'A' && n[0] <= 'Z'
}

// rebind finds the function a missing unexported contract belongs to after a
// rename: the only function without contract that has the same receiver or
// package and the same parameter and result types as recorded in the contract.
func (x *Exec) rebind(c *Contract) *ssa.Function {
	if len(c.Sig) == 0 || exportedName(c.Key) {
		return nil
	}
	dot := strings.LastIndex(c.Key, ".")
	prefix := c.Key[:dot+1]
	var hits []*ssa.Function
	for k, fn := range x.fnByKey {
		if !strings.HasPrefix(k, prefix) || strings.ContainsAny(k[dot+1:], ".$") || len(fn.Blocks) == 0 || exportedName(k) {
			continue
		}
		if _, has := x.specs[k]; has {
			continue
		}
		if sigString(fn) == c.Sig {
			hits = append(hits, fn)
		}
	}
	if len(hits) == 1 {
		return hits[0]
	}
	return nil
}

func sigString(fn *ssa.Function) string {
	var ps, rs []string
	s := fn.Signature
	for i := 0; i < s.Params().Len(); i++ {
		ps = append(ps, relType(s.Params().At(i).Type()))
	}
	for i := 0; i < s.Results().Len(); i++ {
		rs = append(rs, relType(s.Results().At(i).Type()))
	}
	return strings.ReplaceAll("("+strings.Join(ps, ",")+")("+strings.Join(rs, ",")+")", " ", "")
}

var _ = types.Identical

func buildWitness(repo, verif, tmp string) (string, string) {
	fs, _ := filepath.Glob(filepath.Join(verif, "witness", "*.go"))
	sort.Strings(fs)
	rp := map[string]string{}
	for _, f := range fs {
		rp[filepath.Join(repo, "cmd", "zzverif", filepath.Base(f))] = f
	}
	jb, _ := json.Marshal(map[string]interface{}{"Replace": rp})
	ov := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ov, jb, 0o644)
	bin := filepath.Join(tmp, "zzverif")
	cmd := exec.Command("go", "build", "-ldflags", "-X main.repo="+repo, "-overlay", ov, "-o", bin, "./cmd/zzverif")
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", string(out) + err.Error()
	}
	return bin, ""
}

func runWitness(bin, prop string, seed int64, budget time.Duration, tmp string) (*witnessOut, string) {
	scratch := filepath.Join(tmp, "scratch")
	os.MkdirAll(scratch, 0o755)
	ctx, cancel := context.WithTimeout(context.Background(), budget+60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-prop", prop, "-seed", fmt.Sprint(seed), "-budget", budget.String(), "-tmp", scratch)
	cmd.Dir = scratch
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	var o witnessOut
	if jerr := json.Unmarshal(so.Bytes(), &o); jerr != nil {
		t := se.String()
		if len(t) > 4000 {
			t = t[:4000]
		}
		if rb, rerr := os.ReadFile(filepath.Join(scratch, "round")); rerr == nil && ctx.Err() == nil {
			// the process died while it ran the code (stack overflow, exit)
			n, _ := strconv.Atoi(strings.TrimSpace(string(rb)))
			json.Unmarshal([]byte(fmt.Sprintf(`{"case":{"property":%q,"input":[%q],"expected":"the process survives","got":%q,"seed":%d,"round":%d}}`, prop, fmt.Sprintf("round %d of seed %d", n, seed), "the process died: "+jsonSafe(t), seed, n)), &o)
			if o.Case != nil {
				return &o, ""
			}
		}
		return nil, fmt.Sprintf("the search ended without a result: %v\n%s", err, t)
	}
	return &o, ""
}

func jsonSafe(s string) string {
	if len(s) > 600 {
		s = s[:600]
	}
	return strings.Map(func(r rune) rune {
		if r < 32 || r > 126 {
			return ' '
		}
		return r
	}, s)
}
