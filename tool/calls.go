package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// call executes a call instruction. It returns true when the rest of the block
// was executed by a continuation.
func (x *Exec) call(st *State, fr *Frame, in *ssa.Call, b *ssa.BasicBlock, i int) bool {
	cc := in.Call
	resume := func(st *State, fr *Frame, res []Val) {
		fr = fr.clone()
		x.setResult(fr, in, res)
		x.instrs(st, fr, b, i+1)
	}
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		x.builtin(st, fr, in, bi)
		return false
	}
	var args []Val
	var argT []types.Type
	var callee *ssa.Function
	var binds []Val
	if cc.IsInvoke() {
		recv := x.val(st, fr, cc.Value)
		for _, a := range cc.Args {
			args = append(args, x.val(st, fr, a))
			argT = append(argT, a.Type())
		}
		if iv, ok := recv.(IV); ok {
			callee = x.method(iv.typ, cc.Method)
			if callee == nil {
				fail("no method %s on %s", cc.Method.Name(), iv.typ)
			}
			args = append([]Val{iv.v}, args...)
			argT = append([]types.Type{iv.typ}, argT...)
		} else {
			return x.invoke(st, fr, in, b, i, recv.(EX), args, argT)
		}
	} else {
		f := x.val(st, fr, cc.Value)
		for _, a := range cc.Args {
			args = append(args, x.val(st, fr, a))
			argT = append(argT, a.Type())
		}
		fv, ok := f.(FV)
		if !ok {
			return x.callValue(st, fr, in, b, i, f.(EX), args, argT)
		}
		callee, binds = fv.fn, fv.binds
	}
	return x.callFn(st, fr, in, callee, binds, args, argT, resume)
}

func (x *Exec) setResult(fr *Frame, in *ssa.Call, res []Val) {
	switch n := in.Call.Signature().Results().Len(); n {
	case 0:
	case 1:
		fr.regs[in] = res[0]
	default:
		fr.regs[in] = TV(res)
	}
}

func (x *Exec) callFn(st *State, fr *Frame, in *ssa.Call, callee *ssa.Function, binds, args []Val, argT []types.Type, resume func(*State, *Frame, []Val)) bool {
	key := relKey(callee)
	c, ok := x.specs[key]
	if v := x.views[key]; v != nil {
		c = v
	}
	if ok && !c.Iface {
		res := x.useContract(st, c, callee.Signature, recvType(callee), args, argT, in)
		x.setResult(fr, in, res)
		return false
	}
	if res, ok := x.intrinsic(st, fr, in, key, args, argT); ok {
		x.setResult(fr, in, res)
		return false
	}
	if len(callee.Blocks) == 0 || !(callee.Pkg == nil || isRepo(callee.Pkg.Pkg)) {
		fail("call of %s, which has no contract", key)
	}
	for _, f := range x.stackFn {
		if f == callee {
			fail("recursive call of %s, which has no contract", key)
		}
	}
	if len(x.stackFn) > 10 {
		fail("inlining too deep at %s", key)
	}
	if x.muted == 0 {
		x.inlined[key] = true
	}
	x.stackFn = append(x.stackFn, callee)
	nf := &Frame{fn: callee, regs: map[ssa.Value]Val{}, loops: map[*ssa.BasicBlock]*loopCtx{}, info: x.info(callee), owner: x.specs["inline "+key], depth: fr.depth + 1, args: copyMap(fr.args), argT: copyMap(fr.argT)}
	if nf.owner == nil {
		nf.owner, nf.helper = fr.owner, fr.owner != nil
	}
	for i, p := range callee.Params {
		nf.regs[p] = args[i]
		if own := x.specs["inline "+key]; own != nil && i < len(own.Params) {
			e := x.bind(st, own.Params[i], x.toE(st, args[i], p.Type()))
			nf.args[own.Params[i]], nf.argT[own.Params[i]] = e.s, e.t
		}
	}
	for i, p := range callee.FreeVars {
		nf.regs[p] = binds[i]
	}
	saved := append([]*ssa.Function(nil), x.stackFn...)
	var rets []arrival
	anc := st.nodes
	nf.k = func(st *State, res []Val) {
		rets = append(rets, arrival{st: st, vals: res})
	}
	x.block(st, nf, callee.Blocks[0], nil)
	x.stackFn = saved[:len(saved)-1]
	var ts []types.Type
	for i := 0; i < callee.Signature.Results().Len(); i++ {
		ts = append(ts, callee.Signature.Results().At(i).Type())
	}
	for _, a := range x.merge(anc, rets, ts) {
		resume(a.st, fr, a.vals)
	}
	return true
}

func recvType(f *ssa.Function) types.Type {
	if r := f.Signature.Recv(); r != nil {
		return r.Type()
	}
	return nil
}

func (x *Exec) method(t types.Type, m *types.Func) *ssa.Function {
	sel := x.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return x.prog.MethodValue(sel)
}

// invoke: a method call on an interface value of unknown dynamic type.
func (x *Exec) invoke(st *State, fr *Frame, in *ssa.Call, b *ssa.BasicBlock, i int, recv EX, args []Val, argT []types.Type) bool {
	cc := in.Call
	recv = x.bind(st, "recv", recv)
	x.vc(st, "nopanic", "method "+cc.Method.Name()+" on nil interface", "!("+recv.s+" is Nil)", nil, in.Pos())
	key := "(" + relType(cc.Value.Type()) + ")." + cc.Method.Name()
	if c, ok := x.specs[key]; ok {
		res := x.useContract(st, c, cc.Signature(), cc.Value.Type(), append([]Val{recv}, args...), append([]types.Type{cc.Value.Type()}, argT...), in)
		x.setResult(fr, in, res)
		return false
	}
	// closed world: every type of this repository that implements the interface
	it := under(cc.Value.Type()).(*types.Interface)
	type alt struct {
		t types.Type
		n string
	}
	var alts []alt
	for _, n := range x.env.repoNamed {
		if _, isI := n.Underlying().(*types.Interface); isI {
			continue
		}
		for _, t := range []types.Type{n, types.NewPointer(n)} {
			if types.Implements(t, it) {
				alts = append(alts, alt{t, x.env.variant(t)})
			}
		}
	}
	if len(alts) == 0 || len(alts) > 12 {
		fail("method call %s on an unknown dynamic type", key)
	}
	sort.Slice(alts, func(i, j int) bool { return alts[i].n < alts[j].n })
	var conds []string
	for _, a := range alts {
		conds = append(conds, "("+recv.s+" is "+a.n+")")
	}
	x.vc(st, "dispatch", "dynamic type of "+cc.Method.Name()+" is one of this repository's", strings.Join(conds, " || "), nil, in.Pos())
	var rets []arrival
	anc := st.nodes
	var ts []types.Type
	for i := 0; i < cc.Signature().Results().Len(); i++ {
		ts = append(ts, cc.Signature().Results().At(i).Type())
	}
	for _, a := range alts {
		st2, fr2 := st.clone(), fr.clone()
		x.hyp(st2, "("+recv.s+" is "+a.n+")")
		s := x.env.sortOf(a.t)
		r := x.bind(st2, "rcv", EX{payload(recv.s, a.n, s), s})
		x.facts(st2, a.t, r.s)
		resume := func(st *State, fr *Frame, res []Val) {
			rets = append(rets, arrival{st: st, vals: res})
		}
		callee := x.method(a.t, cc.Method)
		if !x.callFn(st2, fr2, in, callee, nil, append([]Val{r}, args...), append([]types.Type{a.t}, argT...), resume) {
			var res []Val
			switch n := len(ts); n {
			case 0:
			case 1:
				res = []Val{fr2.regs[in]}
			default:
				res = fr2.regs[in].(TV)
			}
			rets = append(rets, arrival{st: st2, vals: res})
		}
	}
	for _, a := range x.merge(anc, rets, ts) {
		fr2 := fr.clone()
		x.setResult(fr2, in, a.vals)
		x.instrs(a.st, fr2, b, i+1)
	}
	return true
}

// callValue: a call of a function value that is not known here. It is one of
// the functions of its type that this repository uses as values, and its
// captured variables are described by cap_<package>_<variable>.
func (x *Exec) callValue(st *State, fr *Frame, in *ssa.Call, b *ssa.BasicBlock, i int, f EX, args []Val, argT []types.Type) bool {
	f = x.bind(st, "fn", f)
	x.vc(st, "nopanic", "call of a nil function", f.s+" != 0", nil, in.Pos())
	alts := x.funcValues(in.Call.Value.Type())
	if len(alts) == 0 || len(alts) > 12 {
		fail("call of an unknown function value: %s", in)
	}
	x.vc(st, "dispatch", "the function value is one of this repository's", "fnof_"+x.env.sigName(in.Call.Value.Type())+"("+f.s+")", nil, in.Pos())
	var rets []arrival
	anc := st.nodes
	var ts []types.Type
	for i := 0; i < in.Call.Signature().Results().Len(); i++ {
		ts = append(ts, in.Call.Signature().Results().At(i).Type())
	}
	for _, a := range alts {
		st2, fr2 := st.clone(), fr.clone()
		x.hyp(st2, fmt.Sprintf("fn_code(%s) == %d", f.s, hashID(relKey(a))))
		var binds []Val
		for _, fv := range a.FreeVars {
			e := x.bind(st2, "cap", EX{x.capFn(a, fv) + "(" + f.s + ")", x.env.sortOf(fv.Type())})
			x.facts(st2, fv.Type(), e.s)
			if _, ok := under(fv.Type()).(*types.Pointer); ok {
				x.hyp(st2, e.s+" != 0")
			}
			binds = append(binds, e)
		}
		resume := func(st *State, fr *Frame, res []Val) {
			rets = append(rets, arrival{st: st, vals: res})
		}
		if !x.callFn(st2, fr2, in, a, binds, args, argT, resume) {
			var res []Val
			switch n := len(ts); n {
			case 0:
			case 1:
				res = []Val{fr2.regs[in]}
			default:
				res = fr2.regs[in].(TV)
			}
			rets = append(rets, arrival{st: st2, vals: res})
		}
	}
	for _, a := range x.merge(anc, rets, ts) {
		fr2 := fr.clone()
		x.setResult(fr2, in, a.vals)
		x.instrs(a.st, fr2, b, i+1)
	}
	return true
}

// capFn names the spec function that gives a captured variable of a closure.
func (x *Exec) capFn(f *ssa.Function, fv *ssa.FreeVar) string {
	x.indexFuncs()
	return x.capNames[fv]
}

// indexFuncs names the captured variables and function values of the tree.
func (x *Exec) indexFuncs() {
	if x.capNames != nil {
		return
	}
	x.capNames = map[*ssa.FreeVar]string{}
	x.env.caps = map[string]types.Type{}
	var keys []string
	for k := range x.fnByKey {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		f := x.fnByKey[k]
		if f.Pkg == nil || !isRepo(f.Pkg.Pkg) {
			continue
		}
		for _, fv := range f.FreeVars {
			n := "cap_" + shortPkg(f.Pkg.Pkg) + "_" + sanitize(fv.Name())
			if old, ok := x.env.caps[n]; ok && typeStr(old) != typeStr(fv.Type()) {
				n += "_" + x.env.mangle(fv.Type())
			}
			x.env.caps[n] = fv.Type()
			x.capNames[fv] = n
		}
	}
	x.funcValues(types.NewSignatureType(nil, nil, nil, nil, nil, false))
	for s, l := range x.fnVals {
		for _, f := range l {
			x.env.fnofs["fnof_"+s] = append(x.env.fnofs["fnof_"+s], hashID(relKey(f)))
		}
	}
}

// funcValues lists the functions of type t that this repository uses as values.
func (x *Exec) funcValues(t types.Type) []*ssa.Function {
	if x.fnVals == nil {
		x.fnVals = map[string][]*ssa.Function{}
		seen := map[*ssa.Function]bool{}
		for _, fn := range x.fnByKey {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					var callee ssa.Value
					if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
						callee = c.Common().Value
					}
					for k, op := range in.Operands(nil) {
						f, ok := (*op).(*ssa.Function)
						if _, isClosure := in.(*ssa.MakeClosure); !ok || seen[f] || k == 0 && *op == callee && !isClosure {
							continue
						}
						seen[f] = true
						s := x.env.sigName(f.Signature)
						x.fnVals[s] = append(x.fnVals[s], f)
					}
				}
			}
		}
		for _, l := range x.fnVals {
			sort.Slice(l, func(i, j int) bool { return relKey(l[i]) < relKey(l[j]) })
		}
	}
	return x.fnVals[x.env.sigName(t)]
}

// useContract replaces a call by the callee's contract.
func (x *Exec) useContract(st *State, c *Contract, sig *types.Signature, recv types.Type, args []Val, argT []types.Type, in *ssa.Call) []Val {
	if _, ok := ctypeCache[c]; !ok {
		setContractTypes(c, sig, recv)
	}
	pt, rt := x.contractTypes(c)
	var as []string
	type copied struct {
		to  AV
		ref string
	}
	var copies []copied
	for i, a := range args {
		t := argT[i]
		if c.Extern {
			// The address of a field or element: the function gets the address of
			// a copy, which is copied back when it returns. Functions outside this
			// repository do not keep such addresses (assumed).
			av, isAV := a.(AV)
			iv, isIV := a.(IV)
			if isIV {
				av, isAV = iv.v.(AV)
			}
			if isAV {
				et := av.et
				n := x.newRef(st, "fieldcopy", x.env.size(et))
				x.storeRef(st, n, et, x.loadAV(st, av))
				copies = append(copies, copied{av, n})
				if a = (EX{n, "int"}); isIV {
					a = IV{typ: iv.typ, v: EX{n, "int"}}
				}
			}
		}
		if _, isIface := under(pt[i]).(*types.Interface); isIface {
			// already converted by MakeInterface
			_ = t
		}
		as = append(as, x.bind(st, c.Params[i], x.toE(st, a, pt[i])).s)
	}
	needKey := c.Key
	for k, cp := range c.Caps {
		fv, ok := args[cp.Param].(FV)
		if !ok || cp.Bind >= len(fv.binds) {
			fail("call of %s with an unknown function", c.Key)
		}
		as = append(as, x.bind(st, c.Params[len(args)+k], x.toE(st, fv.binds[cp.Bind], fv.fn.FreeVars[cp.Bind].Type())).s)
		needKey = c.Key + "|" + relKey(fv.fn)
		x.visitors[needKey] = fv.fn
	}
	h := x.H(st)
	if x.muted == 0 {
		if c.Extern || c.Iface {
			x.usedExt[c.Key] = true
		} else {
			x.need[needKey] = true
		}
	}
	var hints []string
	if len(c.Pre) > 0 {
		var sb strings.Builder
		fmt.Fprintf(&sb, "let h0 = %s; let h = %s; ", x.h0, h)
		for i, n := range c.Params {
			fmt.Fprintf(&sb, "let %s = %s; ", n, as[i])
		}
		for _, q := range c.Pre {
			if q.forProp(x.prop) {
				hints = append(hints, "{ "+sb.String()+expandStrings(q.Expr)+" }")
			}
		}
	}
	for k, q := range c.Requires {
		if q.forProp(x.prop) {
			x.vcl(st, "precondition of "+shortKey(c.Key), q, x.clauseCall(c, q, k, "req", append([]string{h}, as...)), hints, in.Pos())
		}
	}
	h2 := h
	mods := x.modset(c)
	allocs := !c.NoAlloc && (c.Extern || c.Iface) || x.inferred[c]["alloc"]
	if len(mods) > 0 || allocs {
		var names []string
		for n := range mods {
			names = append(names, n)
		}
		sort.Strings(names)
		var parts []string
		for _, n := range names {
			cm := x.env.compByName(n)
			if cm == nil {
				fail("contract %s modifies unknown component %s", c.Key, n)
			}
			v := x.addVar(st, n, cm.Sort)
			parts = append(parts, n+": "+v)
			st.dirty[n] = true
			for d := x.dry; d != nil; d = d.outer {
				if mods[n] == "alloc" {
					d.fresh[n] = true
				} else {
					d.writes[n] = true
				}
			}
		}
		if allocs {
			v := x.addVar(st, "alloc", "int")
			parts = append(parts, "alloc: "+v)
			st.dirty["alloc"] = true
			for d := x.dry; d != nil; d = d.outer {
				d.fresh["alloc"] = true
			}
		}
		h2 = x.addVar(st, "hc", "H")
		x.hyp(st, h2+" == (H { "+strings.Join(parts, ", ")+", .."+h+" })")
		st.base = h2
		st.over = map[string]string{}
		x.hyp(st, "wf("+h2+")")
		x.hyp(st, h2+".alloc >= "+h+".alloc")
		for _, n := range names {
			if mods[n] == "alloc" {
				x.hyp(st, agree(h, h2, n))
			}
		}
	}
	var res []Val
	var rs []string
	for i, t := range rt {
		v := x.freshVal(st, c.Results[i], t)
		e := x.bind(st, c.Results[i], x.toE(st, v, t))
		if _, ok := v.(SV); !ok {
			v = e
		}
		res = append(res, v)
		rs = append(rs, e.s)
	}
	for k, q := range c.Ensures {
		if q.forProp(x.prop) {
			x.hyp(st, x.clauseCall(c, q, k, "ens", append(append([]string{h, h2}, as...), rs...)))
		}
	}
	hr := h2
	for _, q := range c.Records {
		if !q.forProp(x.prop) {
			continue
		}
		cm := x.env.compByName(q.Ghost)
		var sb strings.Builder
		fmt.Fprintf(&sb, "let h = %s; let h2 = %s; ", h, hr)
		for i, n := range c.Params {
			fmt.Fprintf(&sb, "let %s = %s; ", n, as[i])
		}
		for i, n := range c.Results {
			fmt.Fprintf(&sb, "let %s = %s; ", n, rs[i])
		}
		v := x.addVar(st, q.Ghost, cm.Sort)
		h3 := x.addVar(st, "hr", "H")
		x.hyp(st, v+" == ({ "+sb.String()+expandStrings(q.Expr)+" })")
		x.hyp(st, h3+" == (H { "+q.Ghost+": "+v+", .."+hr+" })")
		x.hyp(st, "wf("+h3+")")
		st.dirty[q.Ghost] = true
		for d := x.dry; d != nil; d = d.outer {
			d.writes[q.Ghost] = true
		}
		st.base = h3
		st.over = map[string]string{}
		hr = h3
	}
	nth := 1
	for _, r := range st.calls {
		if baseName(r.c.Key) == baseName(c.Key) && r.n >= nth {
			nth = r.n + 1
		}
	}
	st.calls = append(st.calls[:len(st.calls):len(st.calls)], &callRec{c: c, h: h, h2: h2, args: as, res: rs, n: nth})
	for _, cp := range copies {
		x.storeAV(st, cp.to, x.loadRef(st, cp.ref, cp.to.et))
	}
	return res
}

// callLets binds, for hints that mention them, the heaps, arguments and results
// of the calls on the path: f_1_h, f_1_h2, f_1_<parameter>, f_1_<result>, and
// without number for the last call of f. did_f tells whether there was one.
func (x *Exec) callLets(st *State, text string) string {
	// the calls that each name can stand for, the latest first
	recs := map[string][]*callRec{}
	for k := len(st.calls) - 1; k >= 0; k-- {
		r := st.calls[k]
		n := baseName(r.c.Key)
		for _, nm := range []string{n, fmt.Sprintf("%s_%d", n, r.n)} {
			l := recs[nm]
			if len(l) > 0 && (l[len(l)-1].when == "" || l[0].c != r.c) {
				continue
			}
			recs[nm] = append(l, r)
		}
	}
	var sb strings.Builder
	// contracts of the function's own package first: names may recur elsewhere
	cs := append([]*Contract{}, x.sf.Contracts...)
	own := pkgOfKey(x.cur.Key)
	sort.SliceStable(cs, func(i, j int) bool { return pkgOfKey(cs[i].Key) == own && pkgOfKey(cs[j].Key) != own })
	for _, c := range cs {
		n := baseName(c.Key)
		ct, typed := ctypeCache[c]
		if !typed || n == "" || !strings.Contains(text, n+"_") {
			continue
		}
		_ = ct
		for _, nm := range []string{n, n + "_1", n + "_2", n + "_3"} {
			if !strings.Contains(text, nm+"_") && !strings.Contains(text, "did_"+nm+" ") || strings.Contains(sb.String(), "let did_"+nm+" ") {
				continue
			}
			l := recs[nm]
			if len(l) > 0 && l[0].c != c {
				continue
			}
			did := "false"
			for k := len(l) - 1; k >= 0; k-- {
				if l[k].when == "" {
					did = "true"
				} else if did != "true" {
					did = "(" + l[k].when + " || " + did + ")"
				}
			}
			fmt.Fprintf(&sb, "let did_%s = %s; ", nm, did)
			bind := func(v, sort string, of func(r *callRec) string) {
				e := "arbitrary()"
				for k := len(l) - 1; k >= 0; k-- {
					o := of(l[k])
					if o == "" {
						return
					}
					if l[k].when == "" || k == len(l)-1 {
						e = o
					} else {
						e = "if " + l[k].when + " { " + o + " } else { " + e + " }"
					}
				}
				fmt.Fprintf(&sb, "let %s_%s: %s = %s; ", nm, v, sort, e)
			}
			bind("h", "H", func(r *callRec) string { return r.h })
			bind("h2", "H", func(r *callRec) string { return r.h2 })
			pt, rt := x.contractTypes(c)
			at := func(l []string, i int) string {
				if i < len(l) {
					return l[i]
				}
				return ""
			}
			for i, p := range c.Params {
				if i < len(pt) {
					bind(p, x.env.sortOf(pt[i]), func(r *callRec) string { return at(r.args, i) })
				}
			}
			for i, p := range c.Results {
				if i < len(rt) {
					bind(p, x.env.sortOf(rt[i]), func(r *callRec) string { return at(r.res, i) })
				}
			}
		}
	}
	return sb.String()
}

func baseName(k string) string { return sanitize(k[strings.LastIndex(k, ".")+1:]) }

// pkgOfKey is the package part of a contract key: pkg/a.F or (*pkg/a.T).M.
func pkgOfKey(k string) string {
	k = strings.TrimLeft(k, "(*")
	i := strings.LastIndex(k, "/") + 1
	if j := strings.IndexByte(k[i:], '.'); j >= 0 {
		return k[:i+j]
	}
	return k
}

func shortKey(k string) string {
	if i := strings.LastIndex(k, "/"); i >= 0 {
		return strings.TrimRight(k[i+1:], "")
	}
	return k
}

func (x *Exec) builtin(st *State, fr *Frame, in *ssa.Call, bi *ssa.Builtin) {
	args := in.Call.Args
	switch bi.Name() {
	case "len", "cap":
		v := x.val(st, fr, args[0])
		switch u := under(args[0].Type()).(type) {
		case *types.Slice:
			e := x.bind(st, "sl", x.toE(st, v, args[0].Type()))
			f := ".l"
			if bi.Name() == "cap" {
				f = ".c"
			}
			x.hyp(st, e.s+".l >= 0")
			fr.regs[in] = EX{e.s + f, "int"}
		case *types.Basic:
			e := x.bind(st, "s", x.toE(st, v, args[0].Type()))
			fr.regs[in] = EX{"(" + e.s + ".len() as int)", "int"}
		case *types.Map:
			c := x.env.mapComp(args[0].Type())
			m := x.toE(st, v, args[0].Type()).s
			e := x.bind(st, "len", EX{fmt.Sprintf("(%s[%s].len() as int)", x.comp(st, c), m), "int"})
			x.hyp(st, fmt.Sprintf("(%s == 0 <==> %s[%s] =~= Map::<%s,%s>::empty())", e.s, x.comp(st, c), m, c.Key, c.Val))
			fr.regs[in] = e
		case *types.Array:
			fr.regs[in] = EX{fmt.Sprintf("%dint", u.Len()), "int"}
		case *types.Pointer:
			fr.regs[in] = EX{fmt.Sprintf("%dint", under(u.Elem()).(*types.Array).Len()), "int"}
		default:
			fail("len of %s", args[0].Type())
		}
	case "append":
		x.append(st, fr, in)
	case "delete":
		c := x.env.mapComp(args[0].Type())
		m := x.bind(st, "m", x.ex(st, fr, args[0]))
		k := x.bind(st, "key", x.ex(st, fr, args[1]))
		cur := x.comp(st, c)
		x.mapSet(st, c, m.s, fmt.Sprintf("%s[%s].remove(%s)", cur, m.s, k.s))
		// delete on a nil map does nothing
		x.hyp(st, fmt.Sprintf("Map::<%s,%s>::empty().remove(%s) =~= Map::<%s,%s>::empty()", c.Key, c.Val, k.s, c.Key, c.Val))
	case "copy", "print", "println", "close", "panic", "recover", "real", "imag", "complex", "min", "max", "clear":
		fail("builtin %s", bi.Name())
	case "ssa:wrapnilchk":
		v := x.val(st, fr, args[0])
		if e, ok := v.(EX); ok {
			x.checkNonNil(st, e.s, "method receiver", in.Pos())
		}
		fr.regs[in] = v
	default:
		fail("builtin %s", bi.Name())
	}
}

func (x *Exec) append(st *State, fr *Frame, in *ssa.Call) {
	args := in.Call.Args
	el := under(in.Type()).(*types.Slice).Elem()
	c := x.env.elemComp(el)
	s := x.bind(st, "sl", x.ex(st, fr, args[0]))
	a := x.comp(st, c)
	tv := x.val(st, fr, args[1])
	var ts string
	te := x.toE(st, tv, args[1].Type())
	if te.t == "Str" {
		ts = te.s
	} else {
		te = x.bind(st, "ap", te)
		ts = fmt.Sprintf("slseq(%s, %s)", a, te.s)
	}
	al := x.alloc(st)
	for d := x.dry; d != nil; d = d.outer {
		d.writes[c.Name] = true // may write into the old backing array
	}
	nr := x.newRef(st, "newarr", 1)
	_ = nr
	a2 := x.addVar(st, c.Name, c.Sort)
	r := x.addVar(st, "sl", "Slice")
	x.hyp(st, fmt.Sprintf("append_post(%s, %s, %s, %s, %s, %s)", a, a2, s.s, ts, r, al))
	st.over[c.Name] = a2
	st.dirty[c.Name] = true
	x.hyp(st, fmt.Sprintf("slice_wf(%s, %s)", r, x.alloc(st)))
	fr.regs[in] = EX{r, "Slice"}
}

// intrinsic models a few library functions whose effect depends on constants.
func (x *Exec) intrinsic(st *State, fr *Frame, in *ssa.Call, key string, args []Val, argT []types.Type) ([]Val, bool) {
	switch key {
	case "errors.New":
		r := x.newRef(st, "err", 1)
		return []Val{EX{"Iface::Err(" + r + ")", "Iface"}}, true
	case "fmt.Errorf":
		r := x.newRef(st, "err", 1)
		c, ok := in.Call.Args[0].(*ssa.Const)
		if !ok {
			return []Val{EX{"Iface::Err(" + r + ")", "Iface"}}, true
		}
		verbs := formatVerbs(constant.StringVal(c.Value))
		wi := -1
		for i, v := range verbs {
			if v == 'w' {
				if wi >= 0 {
					fail("fmt.Errorf with several %%w")
				}
				wi = i
			}
		}
		if wi < 0 {
			return []Val{EX{"Iface::Err(" + r + ")", "Iface"}}, true
		}
		sl := x.bind(st, "va", x.toE(st, args[1], argT[1]))
		cm := x.env.elemComp(types.NewInterfaceType(nil, nil))
		w := x.bind(st, "wrapped", EX{fmt.Sprintf("slseq(%s, %s)[%d]", x.comp(st, cm), sl.s, wi), "Iface"})
		e := x.bind(st, "werr", EX{fmt.Sprintf("Iface::WrapErr(%s, Box::new(%s))", r, w.s), "Iface"})
		return []Val{e}, true
	}
	return nil, false
}

func formatVerbs(f string) []byte {
	var out []byte
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.[]*", f[i]) >= 0 {
			i++
		}
		if i < len(f) && f[i] != '%' {
			out = append(out, f[i])
		}
	}
	return out
}
