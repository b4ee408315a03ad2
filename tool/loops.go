package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// enterLoop cuts the loop at its header: the invariant is established, the
// variables the loop may change are made arbitrary, and the body is executed
// once from an arbitrary state satisfying the invariant.
func (x *Exec) enterLoop(st *State, fr *Frame, b *ssa.BasicBlock, init map[*ssa.Phi]Val) {
	body := fr.info.headers[b]
	if n := literalLen(b, body); n >= 0 && n <= maxUnroll {
		for p, v := range init {
			fr.regs[p] = v
		}
		fr.loops[b] = &loopCtx{unroll: n + 1}
		x.instrs(st, fr, b, 0)
		return
	}
	lc := &loopCtx{roles: map[string]roleBind{}}
	spec := x.pickLoopSpec(st, fr, b, lc)
	lc.spec = spec
	// concrete init values must be expressions for invariants
	for p, v := range init {
		fr.regs[p] = v
	}
	lc.hl = x.H(st)

	// dry run to find out what the loop writes
	dr := &dryRun{writes: map[string]bool{}, fresh: map[string]bool{}, refs: map[string]bool{}, outer: x.dry}
	{
		dst, dfr := st.clone(), fr.clone()
		dfr.stop = map[*ssa.BasicBlock]bool{}
		for k := range body {
			if fr.stop == nil || fr.stop[k] {
				dfr.stop[k] = true
			}
		}
		dfr.k = func(*State, []Val) {}
		for p := range init {
			dfr.regs[p] = x.freshVal(dst, p.Comment, p.Type())
		}
		dfr.loops[b] = &loopCtx{} // marks the header as entered
		for r, is := range dst.iters {
			if x.iterInLoop(r, body) {
				is.vis = x.addVar(dst, "vis", "Set<"+is.comp.Key+">")
				dst.iters[r] = is
			}
		}
		x.muted++
		sx := x.dry
		x.dry = dr
		nodes := dst.nodes
		_ = nodes
		x.instrs(dst, dfr, b, 0)
		x.dry = sx
		x.muted--
	}

	var invs []*Clause
	if spec != nil {
		for _, q := range spec.Inv {
			if q.forProp(x.prop) {
				invs = append(invs, q)
			}
		}
	}
	pos := b.Instrs[0].Pos()
	if !pos.IsValid() {
		pos = fr.fn.Pos()
	}
	// establish
	if spec != nil {
		vals, ok := x.roleVals(st, fr, lc, lc.hl)
		if !ok {
			lc.spec, spec, invs = nil, nil, nil
		} else {
			lc.head, lc.entry = vals, vals
			if lc.spec != nil {
				st.in[lc.spec.Name] = "true"
			}
			for _, q := range invs {
				x.vcl(st, "invariant established", q, x.invCall(lc, q, vals), lc.hintText(x, st, fr, vals, true), pos)
			}
		}
	}
	// what the contract does not let the function modify, the loop leaves alone
	ms := x.modset(x.cur)
	for c := range dr.writes {
		if c != "alloc" && ms[c] != "mod" && x.env.compByName(c).Kind != "ghost" {
			lc.old = append(lc.old, c)
		}
	}
	sort.Strings(lc.old)
	if len(lc.old) > 0 && lc.hl != x.h0 {
		x.vc(st, "loop frame", "old memory unchanged", x.agreeAll(x.h0, lc.hl, lc.old), nil, pos)
	}
	// havoc
	st = st.clone()
	fr = fr.clone()
	var mods []string
	for c := range dr.writes {
		mods = append(mods, c)
	}
	for c := range dr.fresh {
		if !dr.writes[c] {
			mods = append(mods, c)
			if c != "alloc" {
				lc.fresh = append(lc.fresh, c)
			}
		}
	}
	sort.Strings(mods)
	sort.Strings(lc.fresh)
	for p := range init {
		v := x.freshVal(st, p.Comment, p.Type())
		fr.regs[p] = v
	}
	if len(mods) > 0 {
		var parts []string
		for _, m := range mods {
			c := x.env.compByName(m)
			v := x.addVar(st, m, c.Sort)
			parts = append(parts, m+": "+v)
			st.dirty[m] = true
		}
		h := x.addVar(st, "hloop", "H")
		x.hyp(st, h+" == (H { "+strings.Join(parts, ", ")+", .."+lc.hl+" })")
		st.base = h
		st.over = map[string]string{}
		x.hyp(st, "wf("+h+")")
		x.hyp(st, h+".alloc >= "+lc.hl+".alloc")
		for _, f := range lc.fresh {
			x.hyp(st, agree(lc.hl, h, f))
		}
		for _, f := range lc.old {
			x.hyp(st, agree(x.h0, h, f))
		}
		// re-state type facts of loop variables against the new heap
		for p := range init {
			if e, ok := fr.regs[p].(EX); ok {
				x.facts(st, p.Type(), e.s)
			}
		}
	}
	for r, is := range st.iters {
		if x.iterInLoop(r, body) {
			is.vis = x.addVar(st, "vis", "Set<"+is.comp.Key+">")
			st.iters[r] = is
		}
	}
	for d := x.dry; d != nil; d = d.outer {
		for c := range dr.writes {
			d.writes[c] = true
		}
		for c := range dr.fresh {
			d.fresh[c] = true
		}
	}
	if spec != nil {
		vals, _ := x.roleVals(st, fr, lc, x.H(st))
		lc.head = vals
		if lc.spec != nil {
			st.met[lc.spec.Name] = lc
			st.in[lc.spec.Name] = "true"
		}
		for _, q := range invs {
			x.hyp(st, x.invCall(lc, q, vals))
		}
	}
	x.autoPhiFacts(st, fr, b, init)
	fr.loops[b] = lc
	x.instrs(st, fr, b, 0)
}

// maxUnroll is the largest number of elements of a literal whose loop is
// executed element by element.
const maxUnroll = 4

// literalLen is the number of iterations of a loop that ranges over all
// elements of a slice or array literal, or -1 for other loops. The counter of
// such a loop starts at -1 and only the header increments it, so the test of
// the header succeeds exactly that many times.
func literalLen(b *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) int {
	ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || !body[b.Succs[0]] || body[b.Succs[1]] {
		return -1
	}
	lt, ok := ifi.Cond.(*ssa.BinOp)
	if !ok || lt.Op != token.LSS || lt.Block() != b {
		return -1
	}
	add, ok := lt.X.(*ssa.BinOp)
	if !ok || add.Op != token.ADD || add.Block() != b || !isConst(add.Y, 1) {
		return -1
	}
	p, ok := add.X.(*ssa.Phi)
	if !ok || p.Block() != b || p.Comment != "rangeindex" {
		return -1
	}
	for i, pr := range b.Preds {
		if body[pr] && p.Edges[i] != ssa.Value(add) || !body[pr] && !isConst(p.Edges[i], -1) {
			return -1
		}
	}
	switch n := lt.Y.(type) {
	case *ssa.Const:
		return int(n.Int64())
	case *ssa.Call:
		bi, ok := n.Call.Value.(*ssa.Builtin)
		if !ok || bi.Name() != "len" || body[n.Block()] {
			return -1
		}
		sl, ok := n.Call.Args[0].(*ssa.Slice)
		if !ok || sl.Low != nil || sl.High != nil || sl.Max != nil {
			return -1
		}
		pt, ok := under(sl.X.Type()).(*types.Pointer)
		if !ok {
			return -1
		}
		if a, ok := under(pt.Elem()).(*types.Array); ok {
			return int(a.Len())
		}
	}
	return -1
}

// downPhi tells a counter that every iteration decreases by one.
func downPhi(p *ssa.Phi, body map[*ssa.BasicBlock]bool) bool {
	if !isIntType(p.Type()) {
		return false
	}
	for i, pr := range p.Block().Preds {
		if !body[pr] {
			continue
		}
		d, ok := p.Edges[i].(*ssa.BinOp)
		if !ok || d.X != ssa.Value(p) || !(d.Op == token.SUB && isConst(d.Y, 1) || d.Op == token.ADD && isConst(d.Y, -1)) {
			return false
		}
	}
	return true
}

func isConst(v ssa.Value, n int64) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && isIntType(c.Type()) && c.Int64() == n
}

// autoPhiFacts adds the standard invariant of a range-over-slice counter:
// it starts at -1 and only grows by one after a successful bound test. It is
// checked on the back edge.
func (x *Exec) autoPhiFacts(st *State, fr *Frame, b *ssa.BasicBlock, init map[*ssa.Phi]Val) {
	for p := range init {
		if lo, ok := x.counterPhi(p, b, fr); ok {
			x.hyp(st, lo+" <= "+fr.regs[p].(EX).s)
			if bound := x.counterBound(st, fr, p, b); bound != "" {
				x.hyp(st, "("+lo+" <= "+bound+" ==> "+fr.regs[p].(EX).s+" <= "+bound+")")
			}
		}
	}
}

// counterPhi recognises integer loop counters: a constant initial value and
// every back edge adding a positive constant. Then lo <= phi is an invariant
// (checked trivially: each back edge adds a positive constant).
func (x *Exec) counterPhi(p *ssa.Phi, b *ssa.BasicBlock, fr *Frame) (string, bool) {
	if bt, ok := under(p.Type()).(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 {
		return "", false
	}
	body := fr.info.headers[b]
	lo := ""
	for i, pr := range b.Preds {
		if body[pr] {
			bo, ok := p.Edges[i].(*ssa.BinOp)
			if !ok || bo.Op != token.ADD || bo.X != ssa.Value(p) {
				return "", false
			}
			c, ok := bo.Y.(*ssa.Const)
			if !ok || c.Int64() <= 0 {
				return "", false
			}
		} else {
			c, ok := p.Edges[i].(*ssa.Const)
			if !ok {
				return "", false
			}
			s := x.constVal(c).(EX).s
			if lo != "" && lo != s {
				return "", false
			}
			lo = s
		}
	}
	return lo, lo != ""
}

// counterBound: for a counter incremented by one whose every path to a back
// edge passed the header test (phi+1 < n, rangeindex) or (phi < n), with n
// loop-invariant, phi <= n-1 resp. phi <= n holds at the header.
func (x *Exec) counterBound(st *State, fr *Frame, p *ssa.Phi, b *ssa.BasicBlock) string {
	body := fr.info.headers[b]
	for i, pr := range b.Preds {
		if body[pr] {
			if p.Edges[i].(*ssa.BinOp).Y.(*ssa.Const).Int64() != 1 {
				return ""
			}
		}
	}
	// the header block must end in a test that leaves the loop
	ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || !body[b.Succs[0]] || body[b.Succs[1]] {
		return ""
	}
	bo, ok := ifi.Cond.(*ssa.BinOp)
	if !ok || bo.Op != token.LSS {
		return ""
	}
	off := 0
	if bo.X != ssa.Value(p) {
		add, ok := bo.X.(*ssa.BinOp)
		if !ok || add.Op != token.ADD || add.X != ssa.Value(p) {
			return ""
		}
		c, ok := add.Y.(*ssa.Const)
		if !ok || c.Int64() != 1 {
			return ""
		}
		off = 1
	}
	// bound: defined outside of the loop, or len of such a value
	var e string
	switch v := bo.Y.(type) {
	case *ssa.Const:
		e = x.constVal(v).(EX).s
	default:
		if in, ok := v.(ssa.Instruction); ok && body[in.Block()] {
			call, ok := v.(*ssa.Call)
			if !ok {
				return ""
			}
			bi, ok := call.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "len" {
				return ""
			}
			a := call.Call.Args[0]
			if in2, ok := a.(ssa.Instruction); ok && body[in2.Block()] {
				return ""
			}
			ae := x.ex(st, fr, a)
			switch ae.t {
			case "Slice":
				e = ae.s + ".l"
			case "Str":
				e = "(" + ae.s + ".len() as int)"
			default:
				return ""
			}
		} else {
			e = x.ex(st, fr, v).s
		}
	}
	if off == 1 {
		return "(" + e + " - 1)"
	}
	return e
}

func (x *Exec) iterInLoop(r *ssa.Range, body map[*ssa.BasicBlock]bool) bool {
	if body[r.Block()] {
		return false // started inside: restarted on every iteration
	}
	for _, u := range *r.Referrers() {
		if n, ok := u.(*ssa.Next); ok && body[n.Block()] {
			return true
		}
	}
	return false
}

func (x *Exec) backEdge(st *State, fr *Frame, b, prev *ssa.BasicBlock) {
	lc := fr.loops[b]
	if lc == nil || fr.dryStop() {
		return
	}
	vals := x.phiVals(st, fr, b, prev)
	fr = fr.clone()
	if lc.unroll > 0 {
		for p, v := range vals {
			fr.regs[p] = v
		}
		fr.loops[b] = &loopCtx{unroll: lc.unroll, at: lc.at + 1}
		x.instrs(st, fr, b, 0)
		return
	}
	for p, v := range vals {
		fr.regs[p] = v
	}
	h := x.H(st)
	pos := prev.Instrs[len(prev.Instrs)-1].Pos()
	if !pos.IsValid() {
		pos = b.Instrs[0].Pos()
	}
	for _, f := range lc.fresh {
		x.vc(st, "loop frame", f+" unchanged on existing objects", agree(lc.hl, h, f), nil, pos)
	}
	if len(lc.old) > 0 {
		x.vc(st, "loop frame", "old memory unchanged", x.agreeAll(x.h0, h, lc.old), nil, pos)
	}
	if lc.spec != nil {
		vs, ok := x.roleVals(st, fr, lc, h)
		if ok {
			for _, q := range lc.spec.Inv {
				if q.forProp(x.prop) {
					x.vcl(st, "invariant preserved", q, x.invCall(lc, q, vs), lc.hintText(x, st, fr, vs, false), pos)
				}
			}
		}
	}
}

func (x *Exec) agreeAll(h, h2 string, comps []string) string {
	var l []string
	for _, c := range comps {
		l = append(l, agree(h, h2, c))
	}
	return strings.Join(l, " && ")
}

func (f *Frame) dryStop() bool { return f.stop != nil && f.loops != nil && false }

func (lc *loopCtx) hintText(x *Exec, st *State, fr *Frame, vals []string, established bool) []string {
	if lc.spec == nil || len(lc.spec.Hints) == 0 {
		return nil
	}
	names := x.invNames(lc)
	var sb strings.Builder
	for i, n := range names {
		fmt.Fprintf(&sb, "let %s = %s; ", n, vals[i])
		if i < len(lc.head) && i >= 2 {
			// the value at the head of this iteration
			fmt.Fprintf(&sb, "let %s_p = %s; ", n, lc.head[i])
		}
	}
	fmt.Fprintf(&sb, "let established = %v; ", established)
	var out []string
	for _, h := range lc.spec.Hints {
		out = append(out, "{ "+x.loopLets(st, fr, lc.spec.Owner)+sb.String()+x.callLets(st, h)+expandStrings(h)+" }")
	}
	return out
}

// pickLoopSpec finds the loop schema whose roles can be bound to this loop.
func (x *Exec) pickLoopSpec(st *State, fr *Frame, b *ssa.BasicBlock, lc *loopCtx) *LoopSpec {
	var cands []*LoopSpec
	if fr.helper {
		cands = append(cands, fr.owner.Loops...)
		if x.cur != fr.owner {
			cands = append(cands, x.cur.Loops...)
		}
		// a helper executed as part of its caller, perhaps more than once: the
		// loops of the caller's contract that have not been met come first
		for _, met := range []bool{false, true} {
			for pass := 0; pass < 2; pass++ {
				for _, ls := range cands {
					if (st.in[ls.Name] != "") != met {
						continue
					}
					if r, ok := x.bindRoles(fr, b, ls, pass == 0); ok {
						lc.roles = r
						return ls
					}
				}
			}
		}
		return nil
	}
	if fr.owner != nil {
		ord := -1
		for i, h := range fr.info.order {
			if h == b {
				ord = i
			}
		}
		if len(fr.owner.Loops) == len(fr.info.order) && ord >= 0 {
			cands = append(cands, fr.owner.Loops[ord])
		}
		cands = append(cands, fr.owner.Loops...)
	}
	if x.cur != fr.owner {
		cands = append(cands, x.cur.Loops...)
	}
	for pass := 0; pass < 2; pass++ {
		for _, ls := range cands {
			if r, ok := x.bindRoles(fr, b, ls, pass == 0); ok {
				lc.roles = r
				return ls
			}
		}
	}
	return nil
}

func (x *Exec) bindRoles(fr *Frame, b *ssa.BasicBlock, ls *LoopSpec, strict bool) (map[string]roleBind, bool) {
	body := fr.info.headers[b]
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	var rng *ssa.Range
	for bb := range body {
		for _, in := range bb.Instrs {
			if n, ok := in.(*ssa.Next); ok {
				if r, ok := n.Iter.(*ssa.Range); ok && !body[r.Block()] && b == n.Block() {
					rng = r
				}
			}
		}
	}
	out := map[string]roleBind{}
	used := map[*ssa.Phi]bool{}
	// names first
	for _, r := range ls.Roles {
		switch r.Kind {
		case "set", "dom", "map":
			if rng == nil {
				return nil, false
			}
			c := x.env.mapComp(rng.X.Type())
			sort := "Set<" + c.Key + ">"
			if r.Kind == "map" {
				sort = "int"
			}
			out[r.Name] = roleBind{kind: r.Kind, rng: rng, sort: sort}
		case "down":
			for _, p := range phis {
				if downPhi(p, body) && out[r.Name].phi == nil && !used[p] {
					used[p] = true
					out[r.Name] = roleBind{kind: "phi", phi: p, sort: "int"}
				}
			}
			if out[r.Name].phi == nil {
				return nil, false
			}
		case "idx":
			var pick *ssa.Phi
			off := 0
			for _, p := range phis {
				if p.Comment == "rangeindex" {
					pick, off = p, 1
				}
			}
			if pick == nil {
				for _, p := range phis {
					if p.Comment == r.Name && isIntType(p.Type()) && !downPhi(p, body) {
						pick = p
					}
				}
			}
			if pick == nil {
				var cs []*ssa.Phi
				for _, p := range phis {
					if _, ok := x.counterPhi(p, b, fr); ok {
						cs = append(cs, p)
					}
				}
				if len(cs) == 1 {
					pick = cs[0]
				}
			}
			if pick == nil || used[pick] {
				return nil, false
			}
			used[pick] = true
			out[r.Name] = roleBind{kind: "phi", phi: pick, off: off, sort: "int"}
		}
	}
	match := func(p *ssa.Phi, r Role) bool { return !used[p] && typeMatches(p.Type(), r.Type) }
	for _, r := range ls.Roles {
		if !isVarRole(r.Kind) {
			continue
		}
		for _, p := range phis {
			if p.Comment == r.Name && match(p, r) {
				used[p] = true
				out[r.Name] = roleBind{kind: "phi", phi: p, sort: x.env.sortOf(p.Type())}
				break
			}
		}
		if _, ok := out[r.Name]; !ok {
			// a variable that lives in memory, because a function literal uses it
			if a := x.cellNamed(fr, b, body, r); a != nil {
				out[r.Name] = roleBind{kind: "cell", val: a, sort: x.env.sortOf(deref(a.Type()))}
			}
		}
	}
	for _, r := range ls.Roles {
		if !isVarRole(r.Kind) {
			continue
		}
		if _, ok := out[r.Name]; ok {
			continue
		}
		if strict && r.Kind == "var" {
			return nil, false
		}
		var c []*ssa.Phi
		for _, p := range phis {
			if match(p, r) {
				c = append(c, p)
			}
		}
		if len(c) != 1 {
			// a variable the loop does not change: a local of that name or the
			// only local of that type
			if v, ok := x.localNamed(fr, r); ok && r.Kind != "pvar" && r.Kind != "new" {
				out[r.Name] = roleBind{kind: "fixed", expr: v, sort: x.sortOfTypeName(fr, r)}
				continue
			}
			if v := outerValue(fr, b, body, r); v != nil && r.Kind != "ovar" && r.Kind != "pvar" {
				out[r.Name] = roleBind{kind: "val", val: v, sort: x.env.sortOf(v.Type())}
				continue
			}
			if r.Default != "" {
				out[r.Name] = roleBind{kind: "default", expr: r.Default, sort: x.roleSort(r)}
				continue
			}
			return nil, false
		}
		used[c[0]] = true
		out[r.Name] = roleBind{kind: "phi", phi: c[0], sort: x.env.sortOf(c[0].Type())}
	}
	for _, r := range ls.Roles {
		if r.Kind == "entry" {
			out[r.Name] = roleBind{kind: "entry", expr: r.Default, sort: out[r.Default].sort}
		}
		if r.Kind == "tested" {
			out[r.Name] = roleBind{kind: "fixed", expr: fmt.Sprint(tested(out[r.Default].phi, body)), sort: "bool"}
		}
		if r.Kind == "fixed" {
			k := out[r.Default].kind
			out[r.Name] = roleBind{kind: "fixed", expr: fmt.Sprint(k != "phi" && k != "cell"), sort: "bool"}
		}
	}
	return out, true
}

// The roles that stand for a variable: var; ovar and mvar have a default value
// where there is none; pvar is one the loop changes; new is one the loop
// changes or fills, made before the loop.
func isVarRole(k string) bool {
	switch k {
	case "var", "ovar", "mvar", "pvar", "new":
		return true
	}
	return false
}

// tested says whether the loop compares the value the variable has when an
// iteration starts.
func tested(p *ssa.Phi, body map[*ssa.BasicBlock]bool) bool {
	if p == nil {
		return false
	}
	for _, u := range *p.Referrers() {
		if b, ok := u.(*ssa.BinOp); ok && body[b.Block()] {
			return true
		}
	}
	return false
}

func (x *Exec) cellNamed(fr *Frame, b *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, r Role) *ssa.Alloc {
	for _, bb := range fr.fn.Blocks {
		if body[bb] || !bb.Dominates(b) {
			continue
		}
		for _, in := range bb.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && a.Comment == r.Name && !x.env.isStruct(deref(a.Type())) && typeMatches(deref(a.Type()), r.Type) {
				return a
			}
		}
	}
	return nil
}

func (x *Exec) localNamed(fr *Frame, r Role) (string, bool) {
	if e, ok := fr.args[r.Name]; ok {
		return e, true
	}
	return "", false
}

// outerValue finds the local computed before the loop that a role stands for:
// the variable of that name, or else the only one of that type used in the loop.
func outerValue(fr *Frame, b *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, r Role) ssa.Value {
	if r.Type == "" {
		return nil
	}
	var used []ssa.Value
	for _, bb := range fr.fn.Blocks {
		if body[bb] || !bb.Dominates(b) {
			continue
		}
		for _, in := range bb.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Type() == nil || !typeMatches(v.Type(), r.Type) {
				continue
			}
			if r.Kind == "new" {
				switch v.(type) {
				case *ssa.MakeMap, *ssa.MakeSlice:
				default:
					continue
				}
			}
			if p, ok := v.(*ssa.Phi); ok && p.Comment == r.Name {
				return v
			}
			for _, u := range *v.Referrers() {
				if body[u.Block()] {
					used = append(used, v)
					break
				}
			}
		}
	}
	if len(used) == 1 {
		return used[0]
	}
	return nil
}

func (x *Exec) sortOfTypeName(fr *Frame, r Role) string { return fr.argT[r.Name] }

func isIntType(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func typeMatches(t types.Type, want string) bool {
	return want == "" || relType(t) == want || relType(under(t)) == want
}

func (x *Exec) invNames(lc *loopCtx) []string {
	c := lc.spec.Owner
	names := []string{"h0", "hl", "h"}
	names = append(names, c.Params...)
	for _, r := range lc.spec.Roles {
		names = append(names, r.Name)
	}
	return names
}

// roleVals evaluates the parameters of the invariant in the current state.
func (x *Exec) roleVals(st *State, fr *Frame, lc *loopCtx, h string) ([]string, bool) {
	c := lc.spec.Owner
	vals := []string{x.h0, lc.hl, h}
	for _, p := range c.Params {
		v, ok := fr.args[p]
		if !ok {
			return nil, false
		}
		vals = append(vals, v)
	}
	for i, r := range lc.spec.Roles {
		rb := lc.roles[r.Name]
		switch rb.kind {
		case "entry":
			if k := 3 + len(c.Params) + i; lc.entry != nil {
				vals = append(vals, lc.entry[k])
				continue
			}
			for j, o := range lc.spec.Roles {
				if o.Name == rb.expr {
					vals = append(vals, vals[3+len(c.Params)+j])
				}
			}
		case "phi":
			e := x.bind(st, r.Name, x.toE(st, fr.regs[rb.phi], rb.phi.Type()))
			s := e.s
			if rb.off != 0 {
				s = fmt.Sprintf("(%s + %d)", s, rb.off)
			}
			vals = append(vals, s)
		case "set":
			vals = append(vals, st.iters[rb.rng].vis)
		case "dom":
			vals = append(vals, st.iters[rb.rng].dom)
		case "map":
			vals = append(vals, st.iters[rb.rng].mref)
		case "val":
			vals = append(vals, x.bind(st, r.Name, x.toE(st, x.val(st, fr, rb.val), rb.val.Type())).s)
		case "cell":
			a := rb.val.(*ssa.Alloc)
			t := deref(a.Type())
			vals = append(vals, x.toE(st, x.loadRef(st, x.ex(st, fr, a).s, t), t).s)
		case "fixed":
			vals = append(vals, rb.expr)
		case "default":
			var sb strings.Builder
			ns := append([]string{"h0", "hl", "h"}, c.Params...)
			for _, r := range lc.spec.Roles[:i] {
				ns = append(ns, r.Name) // the roles before this one
			}
			for i, n := range ns {
				fmt.Fprintf(&sb, "let %s = %s; ", n, vals[i])
			}
			vals = append(vals, "({ "+sb.String()+rb.expr+" })")
		}
	}
	return vals, true
}

func (x *Exec) invCall(lc *loopCtx, q *Clause, vals []string) string {
	c := lc.spec.Owner
	x.usedFiles[c.File] = true
	qi := -1
	for i, z := range lc.spec.Inv {
		if z == q {
			qi = i
		}
	}
	name := fmt.Sprintf("c_%s_loop%d_inv_%d", c.ident, lc.spec.N, qi)
	if !x.clauseN[name] {
		x.clauseN[name] = true
		pt, _ := x.contractTypes(c)
		ps := []string{"h0: H", "hl: H", "h: H"}
		for i, p := range c.Params {
			ps = append(ps, p+": "+x.env.sortOf(pt[i]))
		}
		for _, r := range lc.spec.Roles {
			ps = append(ps, r.Name+": "+lc.roles[r.Name].sort)
		}
		x.clauses = append(x.clauses, fmt.Sprintf("// %s:%d\npub open spec fn %s(%s) -> bool {\n    %s\n}\n", q.File, q.Line, name, strings.Join(ps, ", "), expandStrings(q.Expr)))
	}
	return name + "(" + strings.Join(vals, ", ") + ")"
}

// deref is the type a variable in memory holds.
func deref(t types.Type) types.Type { return under(t).(*types.Pointer).Elem() }
