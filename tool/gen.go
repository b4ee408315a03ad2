package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

type Result struct {
	VC      *VC
	Status  string // proved, failed, error
	Message string
	Millis  float64
}

var compRefRe = regexp.MustCompile(`\b(?:h|h0|hl|h2|hh|hx|ha|hb)\.([A-Za-z_][A-Za-z0-9_]*)`)
var variantRe = regexp.MustCompile(`\bV_[A-Za-z0-9_]+`)
var structRe = regexp.MustCompile(`\bS_[A-Za-z0-9_]+`)
var fnDeclRe = regexp.MustCompile(`\b(?:cap|fnof)_[A-Za-z0-9_]+`)
var globRe = regexp.MustCompile(`\bglob_[A-Za-z0-9_]+`)

var cheatRe = regexp.MustCompile(`\b(assume|admit|assume_|external_body|assume_specification|axiom)\b`)

// emit writes the crate and returns the line range of every VC.
func (x *Exec) emit(dir, libDir string, vcs []*VC) (string, map[*VC][2]int, error) {
	var imports []string
	seen := map[string]bool{}
	want := []string{"base"}
	var rust, uses []string
	for _, f := range x.sf.active(x.usedFiles) {
		fi := x.sf.Files[f]
		want = append(want, fi.Imports...)
		rust = append(rust, fi.Rust...)
		uses = append(uses, fi.Uses...)
	}
	for _, i := range want {
		if !seen[i] {
			seen[i] = true
			imports = append(imports, i)
		}
	}
	var libs []string
	libTxt := map[string]string{}
	for _, i := range imports {
		b, err := os.ReadFile(filepath.Join(libDir, i+".rs"))
		if err != nil {
			return "", nil, err
		}
		libs = append(libs, i)
		libTxt[i] = string(b)
	}
	text := strings.Join(x.clauses, "\n") + strings.Join(rust, "\n")
	for _, l := range libs {
		text += libTxt[l]
	}
	var body strings.Builder
	for _, v := range vcs {
		for n := v.nodes; n != nil; n = n.parent {
			body.WriteString(n.text)
			body.WriteString("\n")
		}
		body.WriteString(v.Goal)
		for _, h := range v.Hints {
			body.WriteString(h)
		}
	}
	all := text + body.String()
	for _, m := range compRefRe.FindAllStringSubmatch(all, -1) {
		x.env.compByName(m[1])
	}
	for _, m := range variantRe.FindAllString(all, -1) {
		m = strings.TrimSuffix(m, "_0")
		if x.env.variants[m] == nil {
			if t, ok := x.env.variantTable[m]; ok {
				x.env.variant(t)
			} else if t := x.basicVariant(m); t != nil {
				x.env.variant(t)
			}
		}
	}
	for _, m := range structRe.FindAllString(all, -1) {
		n := strings.TrimPrefix(m, "S_")
		if _, ok := x.env.structs[n]; ok {
			x.env.useStruct(n)
		} else if i := strings.Index(n, "_"); i > 0 { // of a dependency
			for _, pk := range x.prog.AllPackages() {
				if shortPkg(pk.Pkg) == n[:i] && !isRepo(pk.Pkg) {
					if o, ok := pk.Pkg.Scope().Lookup(n[i+1:]).(*types.TypeName); ok && o.Exported() {
						if _, ok := o.Type().Underlying().(*types.Struct); ok {
							x.env.sortOf(o.Type())
						}
					}
				}
			}
		}
	}
	for _, m := range globRe.FindAllString(all, -1) {
		if _, ok := x.env.globals[m]; !ok && m != "glob_limit" {
			x.resolveGlobal(m)
		}
	}
	var fnDecls []string
	x.indexFuncs()
	seenFn := map[string]bool{}
	for _, m := range fnDeclRe.FindAllString(all, -1) {
		if seenFn[m] {
			continue
		}
		seenFn[m] = true
		if t, ok := x.env.caps[m]; ok {
			fnDecls = append(fnDecls, fmt.Sprintf("pub uninterp spec fn %s(n: int) -> %s;\n", m, x.env.sortOf(t)))
		} else if l, ok := x.env.fnofs[m]; ok || strings.HasPrefix(m, "fnof_") {
			c := "false"
			for _, k := range l {
				c += fmt.Sprintf(" || fn_code(n) == %d", k)
			}
			fnDecls = append(fnDecls, fmt.Sprintf("pub open spec fn %s(n: int) -> bool { %s }\n", m, c))
		}
	}
	sort.Strings(fnDecls)
	for i := 0; i < 3; i++ { // sorts may add structs
		for _, n := range x.env.compNames() {
			c := x.env.comps[n]
			if c.Elem != nil {
				x.env.sortOf(c.Elem)
			}
		}
		for _, t := range x.env.variants {
			x.env.sortOf(t)
		}
	}

	var sb strings.Builder
	sb.WriteString("#![allow(unused_imports, unused_variables, non_snake_case, non_camel_case_types, dead_code, unused_parens, unused_braces, deprecated, non_upper_case_globals, unused_mut)]\n")
	sb.WriteString("use vstd::prelude::*;\nuse vstd::seq_lib::*;\nuse vstd::set_lib::*;\nuse vstd::map_lib::*;\nverus! {\n")
	sb.WriteString("// ---- base theory ----\n" + libTxt["base"] + "\n")
	sb.WriteString("// ---- Go types of this tree ----\n")
	var sn []string
	for s := range x.env.usedStructs {
		sn = append(sn, s)
	}
	sort.Strings(sn)
	for _, s := range sn {
		st := x.env.structs[s]
		fmt.Fprintf(&sb, "pub struct S_%s {\n", s)
		for i := 0; i < st.NumFields(); i++ {
			fmt.Fprintf(&sb, "    pub %s: %s,\n", fieldName(st, i), x.env.sortOf(st.Field(i).Type()))
		}
		sb.WriteString("}\n")
	}
	sb.WriteString("pub enum Iface {\n    Nil,\n    Err(int),\n    WrapErr(int, Box<Iface>),\n    Other(int, int),\n")
	var vn []string
	for v := range x.env.variants {
		vn = append(vn, v)
	}
	sort.Strings(vn)
	for _, v := range vn {
		s := x.env.sortOf(x.env.variants[v])
		if strings.HasPrefix(s, "S_") {
			s = "Box<" + s + ">"
		}
		fmt.Fprintf(&sb, "    %s(%s),\n", v, s)
	}
	sb.WriteString("}\n")
	sb.WriteString(strings.Join(fnDecls, ""))
	sb.WriteString("pub struct H {\n    pub alloc: int,\n")
	for _, n := range x.env.compNames() {
		fmt.Fprintf(&sb, "    pub %s: %s,\n", n, x.env.comps[n].Sort)
	}
	sb.WriteString("}\n")
	sb.WriteString("// Every stored reference is an allocated one (Go is memory safe).\npub open spec fn wf(h: H) -> bool {\n    &&& h.alloc > 0\n")
	for _, n := range x.env.compNames() {
		for _, f := range x.env.wfBody(x.env.comps[n]) {
			sb.WriteString("    &&& " + f + "\n")
		}
	}
	sb.WriteString("}\n")
	var gn []string
	for g := range x.env.globals {
		gn = append(gn, g)
	}
	sort.Strings(gn)
	for _, g := range gn {
		if strings.HasPrefix(x.env.globals[g], "=") {
			fmt.Fprintf(&sb, "pub open spec fn %s() -> Iface { %s }\n", g, x.env.globals[g][1:])
		} else if x.env.globals[g] == "fn" {
			fmt.Fprintf(&sb, "pub uninterp spec fn %s(x: Iface) -> bool;\n", g)
		} else {
			fmt.Fprintf(&sb, "pub uninterp spec fn %s() -> %s;\n", g, x.env.globals[g])
		}
	}
	for _, l := range libs {
		if l != "base" {
			sb.WriteString("// ---- library " + l + " ----\n" + libTxt[l] + "\n")
		}
	}
	sb.WriteString("// ---- contracts ----\n")
	for _, r := range rust {
		sb.WriteString(expandStrings(r) + "\n")
	}
	for _, c := range x.clauses {
		sb.WriteString(c + "\n")
	}
	sb.WriteString("// ---- verification conditions ----\n")
	lines := map[*VC][2]int{}
	// one module per function keeps the solver contexts small and parallel
	groups := map[string][]*VC{}
	var order []string
	cnt := map[string]int{}
	for _, v := range vcs {
		g := v.Fn
		k := cnt[g] / 12
		cnt[g]++
		gk := fmt.Sprintf("%s#%d", g, k)
		if _, ok := groups[gk]; !ok {
			order = append(order, gk)
		}
		groups[gk] = append(groups[gk], v)
	}
	ln := strings.Count(sb.String(), "\n") + 1
	w := func(s string) {
		sb.WriteString(s)
		ln += strings.Count(s, "\n")
	}
	for i, g := range order {
		w(fmt.Sprintf("pub mod vcm_%d {\nuse super::*;\n", i))
		for _, v := range groups[g] {
			start := ln
			w("// " + v.ID + " " + strings.ReplaceAll(v.Name, "\n", " ") + "\n")
			var vars, hyps []string
			var ns []*node
			for n := v.nodes; n != nil; n = n.parent {
				ns = append(ns, n)
			}
			for j := len(ns) - 1; j >= 0; j-- {
				if ns[j].isVar {
					vars = append(vars, ns[j].name+": "+ns[j].text)
				} else {
					hyps = append(hyps, ns[j].text)
				}
			}
			if v.Rlimit > 0 {
				w(fmt.Sprintf("#[verifier::rlimit(%d)]\n", v.Rlimit))
			}
			w(fmt.Sprintf("pub proof fn vc_%s(%s)\n", v.ID, strings.Join(vars, ", ")))
			if len(hyps) > 0 {
				w("    requires\n")
				for _, h := range hyps {
					w("        " + h + ",\n")
				}
			}
			w("    ensures\n        " + v.Goal + ",\n{\n")
			for _, u := range append(append([]string{}, uses...), v.Uses...) {
				w("    broadcast use " + u + ";\n")
			}
			if strings.Contains(v.Goal, "_ens_") {
				w("    reveal_with_fuel(err_is, 4);\n")
			}
			for _, h := range v.Hints {
				w("    " + h + "\n")
			}
			w("}\n")
			lines[v] = [2]int{start, ln}
		}
		w("}\n")
	}
	w("}\nfn main() {}\n")
	// no unproved claim may slip into the crate
	if m := cheatRe.FindString(sb.String()); m != "" {
		return "", nil, fmt.Errorf("the contracts or lemmas contain %q", m)
	}
	file := filepath.Join(dir, "vcs.rs")
	return file, lines, os.WriteFile(file, []byte(sb.String()), 0o644)
}

func (x *Exec) basicVariant(m string) types.Type {
	for _, k := range types.Typ {
		if k != nil && "V_"+x.env.mangle(k) == m {
			return k
		}
	}
	for _, t := range universe {
		if "V_"+x.env.mangle(t) == m {
			return t
		}
	}
	return nil
}

type diag struct {
	Message string `json:"message"`
	Level   string `json:"level"`
	Spans   []struct {
		LineStart int    `json:"line_start"`
		LineEnd   int    `json:"line_end"`
		Label     string `json:"label"`
		IsPrimary bool   `json:"is_primary"`
	} `json:"spans"`
	Rendered string `json:"rendered"`
}

type verusOut struct {
	errs     []diag
	summary  map[string]interface{}
	raw      string
	wall     time.Duration
	timedOut bool
}

func runVerus(file string, args []string, timeout time.Duration) *verusOut {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	a := append([]string{file, "--output-json", "--time-expanded", "--error-format=json", "--triggers-mode", "silent", "--no-report-long-running"}, args...)
	cmd := exec.CommandContext(ctx, "/opt/veriftools/verus/verus", a...)
	cmd.Dir = filepath.Dir(file)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	t0 := time.Now()
	err := cmd.Run()
	o := &verusOut{wall: time.Since(t0)}
	o.raw = se.String()
	if ctx.Err() != nil {
		o.timedOut = true
	}
	_ = err
	for _, l := range strings.Split(se.String(), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "{") {
			continue
		}
		var d diag
		if json.Unmarshal([]byte(l), &d) == nil && d.Level == "error" {
			o.errs = append(o.errs, d)
		}
	}
	json.Unmarshal(so.Bytes(), &o.summary)
	if o.summary == nil {
		o.raw += "\n" + so.String()
	}
	return o
}
