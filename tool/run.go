package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) info(fn *ssa.Function) *fnInfo {
	if i, ok := x.infos[fn]; ok {
		return i
	}
	fi := &fnInfo{headers: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := fi.headers[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					fi.headers[s] = body
				}
				var add func(n *ssa.BasicBlock)
				add = func(n *ssa.BasicBlock) {
					if body[n] {
						return
					}
					body[n] = true
					for _, p := range n.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	for h := range fi.headers {
		fi.order = append(fi.order, h)
	}
	// source order of the loop headers
	sort.Slice(fi.order, func(i, j int) bool { return fi.order[i].Index < fi.order[j].Index })
	x.infos[fn] = fi
	return fi
}

// verify generates the obligations of one function under contract.
func (x *Exec) verify(c *Contract, fn *ssa.Function, visitor *ssa.Function) {
	x.cur, x.curFn = c, fn
	x.usedFiles[c.File] = true
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupported)
			if !ok {
				panic(r)
			}
			x.muted = 0
			x.dry = nil
			x.vcs = append(x.vcs, &VC{Fn: c.Key, Kind: "translate", Label: u.msg, Goal: "false", Loc: x.fset.Position(fn.Pos()).String()})
		}
	}()
	x.muted, x.dry = 0, nil
	st := &State{over: map[string]string{}, nonnull: map[string]bool{}, known: map[string]bool{}, iters: map[*ssa.Range]iterState{}, dirty: map[string]bool{}, in: map[string]string{}, met: map[string]*loopCtx{}}
	h := x.addVar(st, "h0", "H")
	st.base = h
	x.h0 = h
	x.hyp(st, "wf("+h+")")
	x.hyp(st, h+".alloc > 0")
	fr := &Frame{fn: fn, regs: map[ssa.Value]Val{}, loops: map[*ssa.BasicBlock]*loopCtx{}, info: x.info(fn), owner: c, args: map[string]string{}, argT: map[string]string{}}
	if len(fn.Params) != len(c.Params)-len(c.Caps) {
		fail("%s has %d parameters, its contract %d", c.Key, len(fn.Params), len(c.Params))
	}
	var args []string
	for i, p := range fn.Params {
		v := x.freshVal(st, c.Params[i], p.Type())
		fr.regs[p] = v
		e := x.bind(st, c.Params[i], x.toE(st, v, p.Type()))
		if _, ok := v.(SV); !ok {
			fr.regs[p] = e
		}
		fr.args[c.Params[i]] = e.s
		fr.argT[c.Params[i]] = e.t
		args = append(args, e.s)
	}
	if len(c.Caps) > 0 {
		// verified for one function passed as the parameter; its captured
		// variables are arbitrary
		fv := FV{fn: visitor}
		for k := range visitor.FreeVars {
			v := x.freshVal(st, fmt.Sprintf("cap%d", k), visitor.FreeVars[k].Type())
			fv.binds = append(fv.binds, v)
			if _, isPtr := under(visitor.FreeVars[k].Type()).(*types.Pointer); isPtr {
				x.hyp(st, x.toE(st, v, visitor.FreeVars[k].Type()).s+" != 0")
			}
		}
		n := len(fn.Params)
		for k, cp := range c.Caps {
			if cp.Bind >= len(fv.binds) {
				fail("%s: %s captures %d variables", c.Key, relKey(visitor), len(fv.binds))
			}
			e := x.toE(st, fv.binds[cp.Bind], visitor.FreeVars[cp.Bind].Type())
			if e.t != "int" {
				fail("%s: captured variable is not a reference", c.Key)
			}
			fr.regs[fn.Params[cp.Param]] = fv
			fr.args[c.Params[n+k]], fr.argT[c.Params[n+k]] = e.s, e.t
			args = append(args, e.s)
		}
	}
	for i, q := range c.Requires {
		if q.forProp(x.prop) {
			x.hyp(st, x.clauseCall(c, q, i, "req", append([]string{h}, args...)))
		}
	}
	x.vc0(st, c)
	nret := 0
	fr.k = func(st *State, res []Val) {
		nret++
		x.atReturn(st, c, fn, h, args, res)
	}
	x.block(st, fr, fn.Blocks[0], nil)
}

// vc0 registers the vacuity probe: the precondition must not be contradictory.
func (x *Exec) vc0(st *State, c *Contract) {
	v := &VC{Fn: c.Key, Kind: "cover", Label: "precondition satisfiable", Goal: "false", nodes: st.nodes, expectFail: true}
	x.vcs = append(x.vcs, v)
}

func (x *Exec) atReturn(st *State, c *Contract, fn *ssa.Function, h string, args []string, res []Val) {
	var rs []string
	rt := fn.Signature.Results()
	for i, r := range res {
		e := x.bind(st, "res", x.toE(st, r, rt.At(i).Type()))
		rs = append(rs, e.s)
	}
	h2 := x.H(st)
	mods := x.modset(c)
	var dirty []string
	for d := range st.dirty {
		dirty = append(dirty, d)
	}
	sort.Strings(dirty)
	for _, d := range dirty {
		if x.inferred[c] == nil {
			x.inferred[c] = map[string]bool{}
		}
		if !x.inferred[c][d] {
			x.inferred[c][d] = true
			x.inferChanged = true
		}
	}
	var hints []string
	sub := append(append([]string{h, h2}, args...), rs...)
	lets := x.loopLets(st, x.retFr, c)
	for i, hc := range c.Hints {
		if hc.forProp(x.prop) {
			hints = append(hints, "{ "+lets+x.callLets(st, hc.Expr)+x.hintCall(c, hc, i, sub)+" }")
		}
	}
	var fr []string
	for _, d := range dirty {
		if d == "alloc" || mods[d] == "mod" {
			continue
		}
		if x.env.compByName(d).Kind == "ghost" {
			fr = append(fr, h2+"."+d+" == "+h+"."+d)
		} else {
			fr = append(fr, agree(h, h2, d))
		}
	}
	if len(fr) > 0 {
		x.vc(st, "frame", "nothing else changes on existing objects", strings.Join(fr, " && "), hints, fn.Pos())
	}
	for i, q := range c.Ensures {
		if q.forProp(x.prop) {
			x.vcl(st, "ensures", q, x.clauseCall(c, q, i, "ens", sub), hints, fn.Pos())
		}
	}
}

// loopLets binds, for the hints of a postcondition, the heap and variables at
// the head of every specified loop the path went through: in_L, h_L, L_x.
func (x *Exec) loopLets(st *State, fr *Frame, c *Contract) string {
	var sb strings.Builder
	for _, ls := range c.Loops {
		var lc *loopCtx
		for _, l := range fr.loops {
			if l != nil && l.spec == ls && l.head != nil {
				lc = l
			}
		}
		if lc == nil {
			// a loop of a helper
			if l := st.met[ls.Name]; l != nil && l.spec == ls {
				lc = l
			}
		}
		if lc == nil {
			fmt.Fprintf(&sb, "let in_%s = false; let h_%s: H = arbitrary(); let hl_%s: H = arbitrary(); ", ls.Name, ls.Name, ls.Name)
			for _, r := range ls.Roles {
				fmt.Fprintf(&sb, "let %s_%s: %s = arbitrary(); ", ls.Name, r.Name, x.roleSort(r))
			}
			continue
		}
		in := st.in[ls.Name]
		if in == "" {
			in = "true"
		}
		fmt.Fprintf(&sb, "let in_%s = %s; let h_%s = %s; let hl_%s = %s; ", ls.Name, in, ls.Name, lc.head[2], ls.Name, lc.hl)
		for i, r := range ls.Roles {
			fmt.Fprintf(&sb, "let %s_%s = %s; ", ls.Name, r.Name, lc.head[3+len(c.Params)+i])
		}
	}
	return sb.String()
}

func (x *Exec) roleSort(r Role) string {
	switch {
	case r.Kind == "set" || r.Kind == "dom":
		return "Set<Str>"
	case strings.HasPrefix(r.Type, "[]"):
		return "Slice"
	case r.Type == "string":
		return "Str"
	case r.Type == "bool":
		return "bool"
	case r.Type == "error":
		return "Iface"
	}
	return "int"
}

func agree(h, h2, d string) string {
	return fmt.Sprintf("(forall|r:int| 0 <= r < %s.alloc ==> (#[trigger] %s.%s[r]) == %s.%s[r])", h, h2, d, h, d)
}

func (x *Exec) vcl(st *State, kind string, q *Clause, goal string, hints []string, pos token.Pos) {
	l := q.Label
	if l == "" {
		l = strings.Join(strings.Fields(q.Expr), " ")
		if len(l) > 60 {
			l = l[:60]
		}
	}
	x.vc(st, kind, l, goal, hints, pos)
}

func (x *Exec) modset(c *Contract) map[string]string {
	m := map[string]string{}
	for _, a := range c.Allocs {
		m[a] = "alloc"
	}
	for a := range x.inferred[c] {
		if a != "alloc" && x.sf.Ghosts[a] == "" {
			m[a] = "alloc"
		}
	}
	for _, a := range c.Modifies {
		if q := c.ModFor[a]; q != nil && !q.forProp(x.prop) {
			continue
		}
		c := x.env.compByName(a)
		if c == nil {
			continue // nothing in this tree has such a field
		}
		m[c.Name] = "mod"
	}
	return m
}

// ---- clauses as spec functions ----

func (x *Exec) clauseCall(c *Contract, q *Clause, i int, kind string, args []string) string {
	x.usedFiles[c.File] = true
	name := fmt.Sprintf("c_%s_%s_%d", c.ident, kind, i)
	if !x.clauseN[name] {
		x.clauseN[name] = true
		sig := x.contractSig(c, kind != "req")
		x.clauses = append(x.clauses, fmt.Sprintf("// %s:%d\npub open spec fn %s(%s) -> bool {\n    %s\n}\n", q.File, q.Line, name, sig, expandStrings(q.Expr)))
	}
	return name + "(" + strings.Join(args, ", ") + ")"
}

func (x *Exec) hintCall(c *Contract, q *Clause, i int, args []string) string {
	name := fmt.Sprintf("c_%s_hint_%d", c.ident, i)
	if !x.clauseN[name] {
		x.clauseN[name] = true
		sig := x.contractSig(c, true)
		// "requires"/"ensures" may precede the proof text: hint <ensures expr> by <proof>
		ens, body := "true", q.Expr
		if k := strings.Index(q.Expr, " by "); k >= 0 {
			ens, body = q.Expr[:k], q.Expr[k+4:]
		}
		_ = ens
		x.clauses = append(x.clauses, fmt.Sprintf("// %s:%d\n#[allow(unused)] macro_rules! __%s { () => {} }\n", q.File, q.Line, name))
		_ = sig
		_ = body
	}
	// Hints are inlined as proof text with the contract's names bound.
	var sb strings.Builder
	names := []string{"h", "h2"}
	names = append(names, c.Params...)
	names = append(names, c.Results...)
	for j, n := range names {
		if j < len(args) {
			fmt.Fprintf(&sb, "let %s = %s; ", n, args[j])
		}
	}
	return "{ " + sb.String() + expandStrings(q.Expr) + " }"
}

func (x *Exec) contractSig(c *Contract, post bool) string {
	var ps []string
	ps = append(ps, "h: H")
	if post {
		ps = append(ps, "h2: H")
	}
	pt, rt := x.contractTypes(c)
	for i, p := range c.Params {
		ps = append(ps, p+": "+x.env.sortOf(pt[i]))
	}
	if post {
		for i, p := range c.Results {
			ps = append(ps, p+": "+x.env.sortOf(rt[i]))
		}
	}
	return strings.Join(ps, ", ")
}

var ctypeCache = map[*Contract][2][]types.Type{}

func (x *Exec) contractTypes(c *Contract) (ps, rs []types.Type) {
	if t, ok := ctypeCache[c]; ok {
		return t[0], t[1]
	}
	fail("contract %s has no matching function", c.Key)
	return
}

func setContractTypes(c *Contract, sig *types.Signature, recv types.Type) {
	var ps, rs []types.Type
	if recv != nil {
		ps = append(ps, recv)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, sig.Params().At(i).Type())
	}
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, sig.Results().At(i).Type())
	}
	for range c.Caps {
		ps = append(ps, types.Typ[types.Int])
	}
	if len(ps) != len(c.Params) {
		fail("contract %s names %d parameters, the function has %d", c.Key, len(c.Params), len(ps))
	}
	for len(c.Results) < len(rs) {
		c.Results = append(c.Results, fmt.Sprintf("r%d", len(c.Results)))
	}
	ctypeCache[c] = [2][]types.Type{ps, rs}
}

// ---- blocks ----

func (x *Exec) block(st *State, fr *Frame, b, prev *ssa.BasicBlock) {
	if fr.stop != nil && !fr.stop[b] {
		return // dry run left the loop
	}
	if body, ok := fr.info.headers[b]; ok && prev != nil && body[prev] {
		x.backEdge(st, fr, b, prev)
		return
	}
	init := x.phiVals(st, fr, b, prev)
	if c := fr.joins[b]; c != nil {
		a := arrival{st: st, fr: fr}
		for _, p := range phisOf(b) {
			a.vals = append(a.vals, init[p])
		}
		c.arr = append(c.arr, a)
		return
	}
	x.enter(st, fr, b, init)
}

// enter starts block b with the given values of its phis.
func (x *Exec) enter(st *State, fr *Frame, b *ssa.BasicBlock, init map[*ssa.Phi]Val) {
	if _, ok := fr.info.headers[b]; ok {
		x.enterLoop(st, fr, b, init)
		return
	}
	for p, v := range init {
		fr.regs[p] = v
	}
	x.instrs(st, fr, b, 0)
}

func (x *Exec) phiVals(st *State, fr *Frame, b, prev *ssa.BasicBlock) map[*ssa.Phi]Val {
	out := map[*ssa.Phi]Val{}
	if prev == nil {
		return out
	}
	pi := -1
	for i, p := range b.Preds {
		if p == prev {
			pi = i
		}
	}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out[p] = x.val(st, fr, p.Edges[pi])
	}
	return out
}

func (x *Exec) instrs(st *State, fr *Frame, b *ssa.BasicBlock, from int) {
	x.paths++
	if x.paths > 40000 {
		fail("too many paths")
	}
	for i := from; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			x.block(st, fr, b.Succs[0], b)
			return
		case *ssa.If:
			if lc := fr.loops[b]; lc != nil && lc.unroll > 0 && fr.info.headers[b] != nil {
				s := 0
				if lc.at+1 >= lc.unroll {
					s = 1
				}
				x.block(st, fr, b.Succs[s], b)
				return
			}
			c := x.ex(st, fr, in.Cond)
			if c.s == "true" {
				x.block(st, fr, b.Succs[0], b)
				return
			}
			if c.s == "false" {
				x.block(st, fr, b.Succs[1], b)
				return
			}
			c = x.bind(st, "c", c)
			if st.known[c.s] {
				x.block(st, fr, b.Succs[0], b)
				return
			}
			neg := "!(" + c.s + ")"
			if st.known[neg] {
				x.block(st, fr, b.Succs[1], b)
				return
			}
			x.fork(st, fr, b, func(fr *Frame) {
				st2, fr2 := st.clone(), fr.clone()
				x.hyp(st, c.s)
				x.block(st, fr, b.Succs[0], b)
				x.hyp(st2, neg)
				x.block(st2, fr2, b.Succs[1], b)
			})
			return
		case *ssa.Return:
			var res []Val
			for _, r := range in.Results {
				res = append(res, x.val(st, fr, r))
			}
			if fr.stop != nil {
				return
			}
			x.retFr = fr
			fr.k(st, res)
			return
		case *ssa.Panic:
			x.vc(st, "nopanic", "explicit panic", "false", nil, in.Pos())
			return
		case *ssa.Call:
			if done := x.call(st, fr, in, b, i); done {
				return
			}
		case *ssa.TypeAssert:
			x.typeAssert(st, fr, in)
		case *ssa.Next:
			// forks on whether the iteration continues
			x.next(st, fr, in, b, i)
			return
		default:
			x.instr(st, fr, in)
		}
	}
}

func (x *Exec) name(v ssa.Value) string {
	if n := v.Name(); n != "" {
		return n
	}
	return "v"
}

func (x *Exec) instr(st *State, fr *Frame, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		r := x.newRef(st, "new_"+in.Comment, x.env.size(t))
		x.initZero(st, r, t)
		fr.regs[in] = EX{r, "int"}
	case *ssa.BinOp:
		fr.regs[in] = x.binop(st, fr, in)
	case *ssa.UnOp:
		fr.regs[in] = x.unop(st, fr, in)
	case *ssa.FieldAddr:
		fr.regs[in] = x.fieldAddr(st, fr, in)
	case *ssa.IndexAddr:
		fr.regs[in] = x.indexAddr(st, fr, in)
	case *ssa.Field:
		fr.regs[in] = x.fields(st, x.val(st, fr, in.X), in.X.Type())[in.Field]
	case *ssa.Index:
		v := x.ex(st, fr, in.X)
		ix := x.ex(st, fr, in.Index)
		if v.t == "Str" {
			b := x.bind(st, "s", v)
			x.vc(st, "nopanic", "string index in range", fmt.Sprintf("0 <= %s < %s.len()", ix.s, b.s), nil, in.Pos())
			e := x.bind(st, x.name(in), EX{fmt.Sprintf("%s[%s]", b.s, ix.s), "int"})
			x.facts(st, in.Type(), e.s)
			fr.regs[in] = e
			return
		}
		fr.regs[in] = x.bind(st, x.name(in), EX{v.s + "[" + ix.s + "]", x.env.sortOf(in.Type())})
	case *ssa.Lookup:
		x.lookup(st, fr, in)
	case *ssa.Extract:
		t := x.val(st, fr, in.Tuple)
		tv, ok := t.(TV)
		if !ok {
			fail("extract from %T", t)
		}
		fr.regs[in] = tv[in.Index]
	case *ssa.MakeInterface:
		v := x.val(st, fr, in.X)
		fr.regs[in] = IV{typ: in.X.Type(), v: v}
	case *ssa.ChangeInterface:
		fr.regs[in] = x.val(st, fr, in.X)
	case *ssa.ChangeType:
		v := x.val(st, fr, in.X)
		if sv, ok := v.(SV); ok {
			sv.typ = in.Type()
			v = sv
		}
		if av, ok := v.(AV); ok {
			if p, ok := under(in.Type()).(*types.Pointer); ok {
				av.et = p.Elem()
			}
			v = av
		}
		fr.regs[in] = v
	case *ssa.Convert:
		fr.regs[in] = x.convert(st, fr, in)
	case *ssa.MakeClosure:
		fv := FV{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			fv.binds = append(fv.binds, x.val(st, fr, b))
		}
		fr.regs[in] = fv
	case *ssa.MakeMap:
		c := x.env.mapComp(in.Type())
		r := x.newRef(st, "newmap", 1)
		x.noteWrite(c, r)
		x.setComp(st, c, fmt.Sprintf("%s.insert(%s, Map::<%s,%s>::empty())", x.comp(st, c), r, c.Key, c.Val))
		fr.regs[in] = EX{r, "int"}
	case *ssa.MakeSlice:
		el := under(in.Type()).(*types.Slice).Elem()
		c := x.env.elemComp(el)
		n, cp := x.ex(st, fr, in.Len), x.ex(st, fr, in.Cap)
		x.vc(st, "nopanic", "make: length in range", fmt.Sprintf("0 <= %s <= %s", n.s, cp.s), nil, in.Pos())
		r := x.newRef(st, "newslice", 1)
		arr := x.addVar(st, "arr", "Map<int,"+c.Val+">")
		x.hyp(st, "(forall|j:int| (#[trigger] "+arr+"[j]) == "+x.env.zero(el)+")")
		x.noteWrite(c, r)
		x.setComp(st, c, x.comp(st, c)+".insert("+r+", "+arr+")")
		fr.regs[in] = x.mkSlice(st, r, "0int", n.s, cp.s)
	case *ssa.Slice:
		fr.regs[in] = x.slice(st, fr, in)
	case *ssa.Store:
		v := x.val(st, fr, in.Val)
		x.store(st, fr, in.Addr, v, in.Pos())
	case *ssa.MapUpdate:
		m := x.ex(st, fr, in.Map)
		c := x.env.mapComp(in.Map.Type())
		x.vc(st, "nopanic", "assignment to entry in nil map", x.nonNilGoal(st, m.s), nil, in.Pos())
		k := x.bind(st, "key", x.ex(st, fr, in.Key))
		v := x.bind(st, "val", x.ex(st, fr, in.Value))
		x.mapSet(st, c, m.s, fmt.Sprintf("%s[%s].insert(%s, %s)", x.comp(st, c), m.s, k.s, v.s))
	case *ssa.Range:
		x.rangeStart(st, fr, in)
	case *ssa.RunDefers:
	default:
		fail("unsupported instruction %T: %s", in, in)
	}
}

func (x *Exec) mapSet(st *State, c *Comp, m, nv string) {
	x.noteWrite(c, m)
	h1 := x.H(st)
	old := x.comp(st, c)
	n := x.addVar(st, c.Name, c.Sort)
	x.hyp(st, n+" == "+old+".insert("+m+", "+nv+")")
	st.over[c.Name] = n
	st.dirty[c.Name] = true
	_ = h1
}

func (x *Exec) nonNilGoal(st *State, r string) string {
	if st.nonnull[r] {
		return "true"
	}
	return r + " != 0"
}

func (x *Exec) mkSlice(st *State, r, o, l, c string) EX {
	n := x.addVar(st, "sl", "Slice")
	x.hyp(st, fmt.Sprintf("%s == (Slice { r: %s, o: %s, l: %s, c: %s })", n, r, o, l, c))
	return EX{n, "Slice"}
}

func (x *Exec) store(st *State, fr *Frame, addr ssa.Value, v Val, pos token.Pos) {
	a := x.val(st, fr, addr)
	et := under(addr.Type()).(*types.Pointer).Elem()
	switch a := a.(type) {
	case AV:
		x.storeAV(st, a, v)
	case EX:
		x.checkNonNil(st, a.s, "store", pos)
		x.storeRef(st, a.s, et, v)
	case GV:
		x.storeRef(st, x.globAddr(a.g), et, v)
	default:
		fail("store to %T", a)
	}
}

func (x *Exec) fieldAddr(st *State, fr *Frame, in *ssa.FieldAddr) Val {
	a := x.val(st, fr, in.X)
	stt := under(in.X.Type()).(*types.Pointer).Elem()
	u := under(stt).(*types.Struct)
	ft := u.Field(in.Field).Type()
	switch a := a.(type) {
	case EX:
		x.checkNonNil(st, a.s, "field "+u.Field(in.Field).Name(), in.Pos())
		if x.env.isStruct(ft) {
			return EX{refOff(a.s, x.env.offset(stt, in.Field)), "int"}
		}
		return AV{comp: x.env.fieldComp(stt, in.Field), ref: a.s, typ: ft, et: ft}
	case AV:
		b := a
		b.path = append(append([]int(nil), a.path...), in.Field)
		b.et = ft
		return b
	case GV:
		g := x.globAddr(a.g)
		if x.env.isStruct(ft) {
			return EX{refOff(g, x.env.offset(stt, in.Field)), "int"}
		}
		return AV{comp: x.env.fieldComp(stt, in.Field), ref: g, typ: ft, et: ft}
	}
	fail("field address of %T", a)
	return nil
}

func (x *Exec) indexAddr(st *State, fr *Frame, in *ssa.IndexAddr) Val {
	ix := x.ex(st, fr, in.Index)
	switch u := under(in.X.Type()).(type) {
	case *types.Slice:
		s := x.bind(st, "sl", x.ex(st, fr, in.X))
		x.vc(st, "nopanic", "slice index in range", fmt.Sprintf("0 <= %s < %s.l", ix.s, s.s), nil, in.Pos())
		c := x.env.elemComp(u.Elem())
		return AV{comp: c, ref: s.s + ".r", idx: fmt.Sprintf("(%s.o + %s)", s.s, ix.s), typ: u.Elem(), et: u.Elem()}
	case *types.Pointer:
		at := under(u.Elem()).(*types.Array)
		r := x.val(st, fr, in.X)
		e, ok := r.(EX)
		if !ok {
			fail("index address of %T", r)
		}
		x.checkNonNil(st, e.s, "array", in.Pos())
		x.vc(st, "nopanic", "array index in range", boundGoal(ix.s, at.Len()), nil, in.Pos())
		return AV{comp: x.env.elemComp(at.Elem()), ref: e.s, idx: ix.s, typ: at.Elem(), et: at.Elem()}
	}
	fail("index address")
	return nil
}

func boundGoal(ix string, n int64) string {
	if strings.HasSuffix(ix, "int") {
		if k, err := strconv.ParseInt(strings.TrimSuffix(ix, "int"), 10, 64); err == nil && k >= 0 && k < n {
			return "true"
		}
	}
	return fmt.Sprintf("0 <= %s < %d", ix, n)
}

// concat translates a concatenation of strings as one left-nested sum of its
// parts, constants next to each other joined: how the source groups it is
// immaterial.
func (x *Exec) concat(st *State, name string, a, b EX) Val {
	partsOf := func(e EX) []string {
		if p, ok := x.strParts[e.s]; ok {
			return p
		}
		if e.s == "Seq::<int>::empty()" {
			return nil
		}
		return []string{e.s}
	}
	var parts []string
	for _, p := range append(append([]string{}, partsOf(a)...), partsOf(b)...) {
		if n := len(parts); n > 0 && strings.HasPrefix(p, "seq![") && strings.HasPrefix(parts[n-1], "seq![") {
			parts[n-1] = strings.TrimSuffix(parts[n-1], "]") + ", " + strings.TrimPrefix(p, "seq![")
			continue
		}
		parts = append(parts, p)
	}
	if len(parts) == 0 {
		return EX{"Seq::<int>::empty()", "Str"}
	}
	e := parts[0]
	for _, p := range parts[1:] {
		e = "(" + e + " + " + p + ")"
	}
	r := x.bind(st, name, EX{e, "Str"})
	if len(parts) > 1 {
		x.strParts[r.s] = parts
	}
	return r
}

func (x *Exec) binop(st *State, fr *Frame, in *ssa.BinOp) Val {
	t := in.X.Type()
	if in.Op == token.EQL || in.Op == token.NEQ {
		e := x.equal(st, x.val(st, fr, in.X), x.val(st, fr, in.Y), t, in.Y.Type())
		if in.Op == token.NEQ {
			e = not(e)
		}
		return x.bind(st, x.name(in), EX{e, "bool"})
	}
	a, b := x.ex(st, fr, in.X), x.ex(st, fr, in.Y)
	r := func(f string, s string) Val { return x.bind(st, x.name(in), EX{fmt.Sprintf(f, a.s, b.s), s}) }
	switch a.t {
	case "Str":
		switch in.Op {
		case token.ADD:
			return x.concat(st, x.name(in), a, b)
		case token.LSS:
			return r("str_lt(%s, %s)", "bool")
		case token.GTR:
			return x.bind(st, x.name(in), EX{fmt.Sprintf("str_lt(%s, %s)", b.s, a.s), "bool"})
		case token.LEQ:
			return x.bind(st, x.name(in), EX{fmt.Sprintf("!str_lt(%s, %s)", b.s, a.s), "bool"})
		case token.GEQ:
			return r("!str_lt(%s, %s)", "bool")
		}
	case "int":
		switch in.Op {
		case token.ADD:
			return r("(%s + %s)", "int")
		case token.SUB:
			return r("(%s - %s)", "int")
		case token.MUL:
			return r("(%s * %s)", "int")
		case token.LSS:
			return r("(%s < %s)", "bool")
		case token.LEQ:
			return r("(%s <= %s)", "bool")
		case token.GTR:
			return r("(%s > %s)", "bool")
		case token.GEQ:
			return r("(%s >= %s)", "bool")
		case token.QUO:
			return r("go_div(%s, %s)", "int")
		case token.REM:
			return r("go_rem(%s, %s)", "int")
		default:
			return r("bitop_"+bitName(in.Op)+"(%s, %s)", "int")
		}
	case "bool":
		switch in.Op {
		case token.AND:
			return r("(%s && %s)", "bool")
		case token.OR:
			return r("(%s || %s)", "bool")
		}
	case "Flt":
		switch in.Op {
		case token.LSS:
			return r("flt_lt(%s, %s)", "bool")
		case token.GTR:
			return r("flt_gt(%s, %s)", "bool")
		case token.LEQ:
			return r("flt_le(%s, %s)", "bool")
		case token.GEQ:
			return r("flt_ge(%s, %s)", "bool")
		default:
			return r("flt_op("+strconv.Itoa(int(in.Op))+", %s, %s)", "Flt")
		}
	}
	fail("binary operator %s on %s", in.Op, a.t)
	return nil
}

func bitName(t token.Token) string {
	switch t {
	case token.AND:
		return "and"
	case token.OR:
		return "or"
	case token.XOR:
		return "xor"
	case token.SHL:
		return "shl"
	case token.SHR:
		return "shr"
	case token.AND_NOT:
		return "andnot"
	}
	fail("operator %s", t)
	return ""
}

func not(e string) string {
	switch e {
	case "true":
		return "false"
	case "false":
		return "true"
	}
	return "!(" + e + ")"
}

func isNilConst(v Val) bool {
	e, ok := v.(EX)
	return ok && (e.s == "Iface::Nil" || e.s == "0int" || e.s == "nil_slice()")
}

func (x *Exec) equal(st *State, a, b Val, ta, tb types.Type) string {
	if isNilConst(a) {
		a, b, ta, tb = b, a, tb, ta
	}
	switch v := a.(type) {
	case IV:
		if e, ok := b.(EX); ok && e.s == "Iface::Nil" {
			return "false"
		}
		if w, ok := b.(IV); ok {
			if !types.Identical(v.typ, w.typ) {
				return "false"
			}
			return x.equal(st, v.v, w.v, v.typ, w.typ)
		}
	case FV:
		return "false"
	case AV:
		if isNilConst(b) {
			return "false"
		}
	}
	ea, eb := x.toE(st, a, ta), x.toE(st, b, tb)
	if ea.t != eb.t {
		// interface compared with a concrete value
		if ea.t == "Iface" {
			eb = x.toE(st, IV{typ: tb, v: b}, tb)
		} else if eb.t == "Iface" {
			ea = x.toE(st, IV{typ: ta, v: a}, ta)
		}
	}
	switch ea.t {
	case "Str":
		if eb.s == "Seq::<int>::empty()" {
			return "(" + ea.s + ".len() == 0)"
		}
		if ea.s == "Seq::<int>::empty()" {
			return "(" + eb.s + ".len() == 0)"
		}
		return "(" + ea.s + " =~= " + eb.s + ")"
	case "Slice":
		if eb.s == "nil_slice()" {
			return "(" + ea.s + ".r == 0)"
		}
	case "Iface":
		if eb.s == "Iface::Nil" {
			return "(" + ea.s + " is Nil)"
		}
	case "Flt":
		return "flt_eq(" + ea.s + ", " + eb.s + ")"
	case "int":
		if st.nonnull[ea.s] && eb.s == "0int" {
			return "false"
		}
		if ea.s == eb.s {
			return "true"
		}
		if lits(ea.s) && lits(eb.s) {
			return "false"
		}
	case "bool":
		if eb.s == "true" {
			return ea.s
		}
		if eb.s == "false" {
			return not(ea.s)
		}
	}
	return "(" + ea.s + " == " + eb.s + ")"
}

func lits(s string) bool {
	_, err := strconv.Atoi(strings.Trim(strings.TrimSuffix(strings.Trim(s, "()"), "int"), "()"))
	return err == nil && strings.HasSuffix(strings.Trim(s, "()"), "int")
}

func (x *Exec) unop(st *State, fr *Frame, in *ssa.UnOp) Val {
	switch in.Op {
	case token.MUL:
		a := x.val(st, fr, in.X)
		switch a := a.(type) {
		case AV:
			return x.loadAV(st, a)
		case GV:
			return x.loadGlobal(st, a.g)
		case EX:
			x.checkNonNil(st, a.s, "load", in.Pos())
			return x.loadRef(st, a.s, in.Type())
		case FV:
			_ = a
		}
		fail("load through %T", a)
	case token.NOT:
		return EX{not(x.ex(st, fr, in.X).s), "bool"}
	case token.SUB:
		e := x.ex(st, fr, in.X)
		if e.t == "Flt" {
			return EX{"flt_neg(" + e.s + ")", "Flt"}
		}
		return x.bind(st, x.name(in), EX{"(-" + e.s + ")", "int"})
	case token.XOR:
		e := x.ex(st, fr, in.X)
		return EX{"bitop_xor(-1int, " + e.s + ")", "int"}
	}
	fail("unary operator %s", in.Op)
	return nil
}

func (x *Exec) lookup(st *State, fr *Frame, in *ssa.Lookup) {
	if _, ok := under(in.X.Type()).(*types.Map); !ok {
		v := x.bind(st, "s", x.ex(st, fr, in.X))
		ix := x.ex(st, fr, in.Index)
		x.vc(st, "nopanic", "string index in range", fmt.Sprintf("0 <= %s < %s.len()", ix.s, v.s), nil, in.Pos())
		e := x.bind(st, x.name(in), EX{fmt.Sprintf("%s[%s]", v.s, ix.s), "int"})
		x.facts(st, in.Type(), e.s)
		fr.regs[in] = e
		return
	}
	c := x.env.mapComp(in.X.Type())
	m := x.bind(st, "m", x.ex(st, fr, in.X))
	k := x.bind(st, "key", x.ex(st, fr, in.Index))
	mm := x.comp(st, c)
	has := x.bind(st, "has", EX{fmt.Sprintf("%s[%s].dom().contains(%s)", mm, m.s, k.s), "bool"})
	v := x.bind(st, x.name(in), EX{fmt.Sprintf("(if %s { %s[%s][%s] } else { %s })", has.s, mm, m.s, k.s, x.env.zero(c.Elem)), c.Val})
	x.facts(st, c.Elem, v.s)
	if in.CommaOk {
		fr.regs[in] = TV{v, has}
	} else {
		fr.regs[in] = v
	}
}

func (x *Exec) slice(st *State, fr *Frame, in *ssa.Slice) Val {
	lo := "0int"
	if in.Low != nil {
		lo = x.bind(st, "lo", x.ex(st, fr, in.Low)).s
	}
	switch u := under(in.X.Type()).(type) {
	case *types.Basic:
		s := x.bind(st, "s", x.ex(st, fr, in.X))
		hi := "(" + s.s + ".len() as int)"
		if in.High != nil {
			hi = x.bind(st, "hi", x.ex(st, fr, in.High)).s
		}
		x.vc(st, "nopanic", "slice bounds in range", fmt.Sprintf("0 <= %s <= %s <= %s.len()", lo, hi, s.s), nil, in.Pos())
		return x.bind(st, x.name(in), EX{fmt.Sprintf("%s.subrange(%s, %s)", s.s, lo, hi), "Str"})
	case *types.Slice:
		s := x.bind(st, "sl", x.ex(st, fr, in.X))
		hi := s.s + ".l"
		if in.High != nil {
			hi = x.bind(st, "hi", x.ex(st, fr, in.High)).s
		}
		cp := s.s + ".c"
		if in.Max != nil {
			cp = x.ex(st, fr, in.Max).s
		}
		x.vc(st, "nopanic", "slice bounds in range", fmt.Sprintf("0 <= %s <= %s <= %s", lo, hi, cp), nil, in.Pos())
		r := x.mkSlice(st, s.s+".r", fmt.Sprintf("(%s.o + %s)", s.s, lo), fmt.Sprintf("(%s - %s)", hi, lo), fmt.Sprintf("(%s - %s)", cp, lo))
		c := x.env.elemComp(u.Elem())
		a := x.comp(st, c)
		x.hyp(st, fmt.Sprintf("(%s <= %s.l ==> slseq(%s, %s) =~= slseq(%s, %s).subrange(%s, %s))", hi, s.s, a, r.s, a, s.s, lo, hi))
		return r
	case *types.Pointer:
		at := under(u.Elem()).(*types.Array)
		v := x.val(st, fr, in.X)
		e, ok := v.(EX)
		if !ok {
			fail("slice of %T", v)
		}
		hi := fmt.Sprintf("%dint", at.Len())
		if in.High != nil {
			hi = x.ex(st, fr, in.High).s
		}
		x.vc(st, "nopanic", "slice bounds in range", fmt.Sprintf("0 <= %s <= %s <= %d", lo, hi, at.Len()), nil, in.Pos())
		c := x.env.elemComp(at.Elem())
		r := x.mkSlice(st, e.s, lo, fmt.Sprintf("(%s - %s)", hi, lo), fmt.Sprintf("(%d - %s)", at.Len(), lo))
		if lo == "0int" && in.High == nil && at.Len() <= 16 {
			a := x.comp(st, c)
			var es []string
			for i := int64(0); i < at.Len(); i++ {
				es = append(es, fmt.Sprintf("%s[%s][%dint]", a, e.s, i))
			}
			if len(es) > 0 {
				x.hyp(st, fmt.Sprintf("slseq(%s, %s) =~= seq![%s]", a, r.s, strings.Join(es, ", ")))
			}
		}
		return r
	}
	fail("slice expression")
	return nil
}

func (x *Exec) convert(st *State, fr *Frame, in *ssa.Convert) Val {
	v := x.val(st, fr, in.X)
	ft, tt := under(in.X.Type()), under(in.Type())
	switch f := ft.(type) {
	case *types.Basic:
		e := x.toE(st, v, in.X.Type())
		switch t := tt.(type) {
		case *types.Basic:
			switch {
			case f.Info()&types.IsString != 0 && t.Info()&types.IsString != 0:
				return e
			case f.Info()&types.IsInteger != 0 && t.Info()&types.IsInteger != 0:
				return x.bind(st, x.name(in), EX{wrapInt(f, t, e.s), "int"})
			case f.Info()&types.IsFloat != 0 && t.Info()&types.IsFloat != 0:
				if f.Kind() == t.Kind() || t.Kind() == types.Float64 {
					return EX{"flt_widen(" + e.s + ")", "Flt"}
				}
				return EX{"flt_narrow(" + e.s + ")", "Flt"}
			case f.Info()&types.IsInteger != 0 && t.Info()&types.IsFloat != 0:
				return EX{"flt_of_int(" + e.s + ")", "Flt"}
			case f.Info()&types.IsFloat != 0 && t.Info()&types.IsInteger != 0:
				n := EX{"flt_to_int(" + e.s + ")", "int"}
				b := x.bind(st, x.name(in), n)
				x.facts(st, in.Type(), b.s)
				return b
			case f.Info()&types.IsInteger != 0 && t.Info()&types.IsString != 0:
				return EX{"rune_str(" + e.s + ")", "Str"}
			}
		case *types.Slice: // string -> []byte
			c := x.env.elemComp(t.Elem())
			if c.Name != "A_uint8" {
				break
			}
			r := x.newRef(st, "bytes", 1)
			arr := x.addVar(st, "arr", "Map<int,int>")
			x.noteWrite(c, r)
			x.setComp(st, c, x.comp(st, c)+".insert("+r+", "+arr+")")
			b := x.bind(st, "s", e)
			s := x.mkSlice(st, r, "0int", "("+b.s+".len() as int)", "("+b.s+".len() as int)")
			x.hyp(st, fmt.Sprintf("slseq(%s, %s) =~= %s", x.comp(st, c), s.s, b.s))
			return s
		}
	case *types.Slice:
		if b, ok := tt.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			c := x.env.elemComp(f.Elem())
			if c.Name == "A_uint8" {
				e := x.toE(st, v, in.X.Type())
				return x.bind(st, x.name(in), EX{fmt.Sprintf("slseq(%s, %s)", x.comp(st, c), e.s), "Str"})
			}
		}
	case *types.Pointer:
		return v
	}
	fail("conversion %s -> %s", in.X.Type(), in.Type())
	return nil
}

func intBits(b *types.Basic) (bits int, signed bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	return 64, false
}

func wrapInt(f, t *types.Basic, e string) string {
	fb, fs := intBits(f)
	tb, ts := intBits(t)
	if fs == ts && tb >= fb || ts && !fs && tb > fb {
		return e
	}
	s := "u"
	if ts {
		s = "i"
	}
	return fmt.Sprintf("wrap_%s%d(%s)", s, tb, e)
}

func (x *Exec) typeAssert(st *State, fr *Frame, in *ssa.TypeAssert) {
	v := x.val(st, fr, in.X)
	_, toIface := under(in.AssertedType).(*types.Interface)
	set := func(val Val, ok string) {
		if in.CommaOk {
			fr.regs[in] = TV{val, EX{ok, "bool"}}
			return
		}
		x.vc(st, "nopanic", "type assertion to "+relType(in.AssertedType), ok, nil, in.Pos())
		fr.regs[in] = val
	}
	if iv, ok := v.(IV); ok {
		if toIface {
			if types.Implements(iv.typ, under(in.AssertedType).(*types.Interface)) {
				set(iv, "true")
			} else {
				set(EX{"Iface::Nil", "Iface"}, "false")
			}
			return
		}
		if types.Identical(iv.typ, in.AssertedType) {
			set(iv.v, "true")
		} else {
			set(x.zeroVal(st, in.AssertedType), "false")
		}
		return
	}
	e := x.bind(st, "ifc", v.(EX))
	if toIface {
		if e.s == "Iface::Nil" {
			set(e, "false")
			return
		}
		it := under(in.AssertedType).(*types.Interface)
		cond := x.implCond(e.s, it, in.AssertedType)
		ok := x.bind(st, "ok", EX{cond, "bool"})
		val := x.bind(st, "as", EX{fmt.Sprintf("(if %s { %s } else { Iface::Nil })", ok.s, e.s), "Iface"})
		set(val, ok.s)
		return
	}
	n := x.env.variant(in.AssertedType)
	ok := x.bind(st, "ok", EX{"(" + e.s + " is " + n + ")", "bool"})
	pay := payload(e.s, n, x.env.sortOf(in.AssertedType))
	val := x.bind(st, "as", EX{fmt.Sprintf("(if %s { %s } else { %s })", ok.s, pay, x.env.zero(in.AssertedType)), x.env.sortOf(in.AssertedType)})
	x.facts(st, in.AssertedType, val.s)
	set(val, ok.s)
}

func payload(e, n, sort string) string {
	p := e + "->" + n + "_0"
	if strings.HasPrefix(sort, "S_") {
		return "(*" + p + ")"
	}
	return p
}

func (x *Exec) zeroVal(st *State, t types.Type) Val { return EX{x.env.zero(t), x.env.sortOf(t)} }

// implCond: condition under which the dynamic type of e implements it.
func (x *Exec) implCond(e string, it *types.Interface, t types.Type) string {
	n := "impl_" + x.env.mangle(t)
	x.env.globals[n] = "fn"
	return n + "(" + e + ")"
}

// ---- map iteration ----

func (x *Exec) rangeStart(st *State, fr *Frame, in *ssa.Range) {
	if _, ok := under(in.X.Type()).(*types.Map); !ok {
		fail("range over a string")
	}
	c := x.env.mapComp(in.X.Type())
	m := x.bind(st, "rm", x.ex(st, fr, in.X))
	dom := x.bind(st, "dom", EX{fmt.Sprintf("%s[%s].dom()", x.comp(st, c), m.s), "Set<" + c.Key + ">"})
	vis := x.addVar(st, "vis", "Set<"+c.Key+">")
	x.hyp(st, vis+" == Set::<"+c.Key+">::empty()")
	st.iters[in] = iterState{vis: vis, dom: dom.s, mref: m.s, comp: c}
	fr.regs[in] = ITV{in}
}

func (x *Exec) next(st *State, fr *Frame, in *ssa.Next, b *ssa.BasicBlock, i int) {
	it, ok := x.val(st, fr, in.Iter).(ITV)
	if !ok {
		fail("iterator %T", x.val(st, fr, in.Iter))
	}
	is := st.iters[it.r]
	c := is.comp
	mt := under(it.r.X.Type()).(*types.Map)
	// exhausted
	st2, fr2 := st.clone(), fr.clone()
	cur2 := x.comp(st2, c) + "[" + is.mref + "]"
	x.hyp(st2, fmt.Sprintf("(forall|k:%s| %s.dom().contains(k) && %s.contains(k) ==> (#[trigger] %s.contains(k)))", c.Key, cur2, is.dom, is.vis))
	x.hyp(st2, fmt.Sprintf("(forall|k:%s| (#[trigger] %s.contains(k)) && %s.dom().contains(k) ==> %s.contains(k))", c.Key, is.dom, cur2, is.vis))
	fr2.regs[in] = TV{EX{"false", "bool"}, x.zeroVal(st2, mt.Key()), x.zeroVal(st2, mt.Elem())}
	// one more entry
	cur := x.comp(st, c) + "[" + is.mref + "]"
	k := x.freshVal(st, "k", mt.Key())
	ke := x.bind(st, "k", x.toE(st, k, mt.Key()))
	x.hyp(st, cur+".dom().contains("+ke.s+")")
	x.hyp(st, "!"+is.vis+".contains("+ke.s+")")
	v := x.bind(st, "v", EX{cur + "[" + ke.s + "]", c.Val})
	x.facts(st, mt.Elem(), v.s)
	nv := x.bind(st, "vis", EX{is.vis + ".insert(" + ke.s + ")", "Set<" + c.Key + ">"})
	is.vis = nv.s
	st.iters[it.r] = is
	fr.regs[in] = TV{EX{"true", "bool"}, ke, v}
	x.instrs(st, fr, b, i+1)
	x.instrs(st2, fr2, b, i+1)
}
