package main

// Merging of execution paths where control flow joins, so that the number of
// obligations stays proportional to the size of the function.

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type arrival struct {
	st   *State
	fr   *Frame
	vals []Val
}

type collector struct {
	arr []arrival
}

func (i *fnInfo) joinsOf(d *ssa.BasicBlock) []*ssa.BasicBlock {
	if i.joins == nil {
		i.joins = map[*ssa.BasicBlock][]*ssa.BasicBlock{}
		pos := map[*ssa.BasicBlock]int{}
		seen := map[*ssa.BasicBlock]bool{}
		var post []*ssa.BasicBlock
		var dfs func(b *ssa.BasicBlock)
		dfs = func(b *ssa.BasicBlock) {
			seen[b] = true
			for _, s := range b.Succs {
				if !seen[s] {
					dfs(s)
				}
			}
			post = append(post, b)
		}
		dfs(d.Parent().Blocks[0])
		for k, b := range post {
			pos[b] = len(post) - k
		}
		for _, b := range post {
			n := 0
			for _, p := range b.Preds {
				if seen[p] && !b.Dominates(p) {
					n++
				}
			}
			if n >= 2 && b.Idom() != nil {
				i.joins[b.Idom()] = append(i.joins[b.Idom()], b)
			}
		}
		for _, js := range i.joins {
			js := js
			sort.Slice(js, func(a, b int) bool { return pos[js[a]] < pos[js[b]] })
		}
	}
	return i.joins[d]
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

// fork runs the branches that leave block d and merges them where they join.
func (x *Exec) fork(st *State, fr *Frame, d *ssa.BasicBlock, run func(fr *Frame)) {
	js := fr.info.joinsOf(d)
	if len(js) == 0 {
		run(fr)
		return
	}
	anc := st.nodes
	outer := fr.joins
	fr = fr.clone()
	regs := copyMap(fr.regs)
	cols := map[*ssa.BasicBlock]*collector{}
	m := map[*ssa.BasicBlock]*collector{}
	for k, v := range outer {
		m[k] = v
	}
	for _, j := range js {
		cols[j] = &collector{}
		m[j] = cols[j]
	}
	fr.joins = m
	run(fr)
	for i, j := range js {
		arr := cols[j].arr
		if len(arr) == 0 {
			continue
		}
		m2 := map[*ssa.BasicBlock]*collector{}
		for k, v := range outer {
			m2[k] = v
		}
		for _, r := range js[i+1:] {
			m2[r] = cols[r]
		}
		phis := phisOf(j)
		var ts []types.Type
		for _, p := range phis {
			ts = append(ts, p.Type())
		}
		for _, a := range x.merge(anc, arr, ts) {
			f := a.fr.clone()
			f.joins = m2
			if len(arr) > 1 {
				f.regs = copyMap(regs)
			}
			init := map[*ssa.Phi]Val{}
			for k, p := range phis {
				init[p] = a.vals[k]
			}
			x.enter(a.st, f, j, init)
		}
	}
}

// merge joins the arrivals; it returns them unmerged when that is impossible.
func (x *Exec) merge(anc *node, arr []arrival, ts []types.Type) (out []arrival) {
	if len(arr) < 2 {
		return arr
	}
	var save []State
	for _, a := range arr {
		save = append(save, *a.st.clone())
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); !ok {
				panic(r)
			}
			for i := range arr {
				s := save[i]
				arr[i].st = &s
			}
			out = arr
		}
	}()
	m := &State{over: map[string]string{}, nonnull: map[string]bool{}, known: map[string]bool{}, iters: map[*ssa.Range]iterState{}, dirty: map[string]bool{}, in: map[string]string{}, met: map[string]*loopCtx{}}
	m.nodes = anc
	eqs := make([][]string, len(arr))
	type nv struct{ name, sort string }
	var newVars []nv
	fresh := func(p, sort string) string {
		n := x.fresh(p)
		newVars = append(newVars, nv{n, sort})
		return n
	}
	mergeEX := func(p string, es []EX) EX {
		same := true
		for _, e := range es {
			same = same && e == es[0]
			if e.t != es[0].t {
				fail("merge of %s and %s", e.t, es[0].t)
			}
		}
		if same {
			return es[0]
		}
		n := fresh(p, es[0].t)
		for i, e := range es {
			eqs[i] = append(eqs[i], n+" == "+e.s)
		}
		return EX{n, es[0].t}
	}
	var mergeVal func(vs []Val, t types.Type) Val
	mergeVal = func(vs []Val, t types.Type) Val {
		same := true
		for _, v := range vs {
			same = same && reflect.DeepEqual(v, vs[0])
		}
		if same {
			return vs[0]
		}
		switch v0 := vs[0].(type) {
		case SV:
			ok := true
			for _, v := range vs {
				s, is := v.(SV)
				ok = ok && is && types.Identical(s.typ, v0.typ)
			}
			if ok {
				st := under(v0.typ).(*types.Struct)
				r := SV{typ: v0.typ}
				for i := range v0.f {
					var fs []Val
					for _, v := range vs {
						fs = append(fs, v.(SV).f[i])
					}
					r.f = append(r.f, mergeVal(fs, st.Field(i).Type()))
				}
				return r
			}
		case IV:
			ok := true
			for _, v := range vs {
				s, is := v.(IV)
				ok = ok && is && types.Identical(s.typ, v0.typ)
			}
			if ok {
				var fs []Val
				for _, v := range vs {
					fs = append(fs, v.(IV).v)
				}
				return IV{v0.typ, mergeVal(fs, v0.typ)}
			}
		case AV:
			var rs, is []EX
			for _, v := range vs {
				a, ok := v.(AV)
				if !ok || a.comp != v0.comp || !reflect.DeepEqual(a.path, v0.path) || (a.idx == "") != (v0.idx == "") {
					fail("merge of addresses")
				}
				rs = append(rs, EX{a.ref, "int"})
				is = append(is, EX{a.idx, "int"})
			}
			r := v0
			r.ref = mergeEX("ref", rs).s
			if v0.idx != "" {
				r.idx = mergeEX("ix", is).s
			}
			return r
		case TV:
			var r TV
			tt, _ := t.(*types.Tuple)
			for i := range v0 {
				var fs []Val
				for _, v := range vs {
					fs = append(fs, v.(TV)[i])
				}
				var et types.Type
				if tt != nil {
					et = tt.At(i).Type()
				}
				r = append(r, mergeVal(fs, et))
			}
			return r
		case FV, ITV, GV:
			fail("merge of function values")
		}
		if t == nil {
			fail("merge of untyped values")
		}
		var es []EX
		for i, v := range vs {
			es = append(es, x.toE(arr[i].st, v, t))
		}
		return mergeEX("mg", es)
	}
	vals := make([]Val, len(ts))
	for k := range ts {
		var vs []Val
		for _, a := range arr {
			vs = append(vs, a.vals[k])
		}
		vals[k] = mergeVal(vs, ts[k])
	}
	// map iterations in progress
	for r, is := range arr[0].st.iters {
		var es []EX
		all := true
		for _, a := range arr {
			o, ok := a.st.iters[r]
			all = all && ok && o.dom == is.dom && o.mref == is.mref
			es = append(es, EX{o.vis, "Set<" + is.comp.Key + ">"})
		}
		if all {
			is.vis = mergeEX("vis", es).s
			m.iters[r] = is
		}
	}
	// heap
	sameH := true
	for _, a := range arr {
		sameH = sameH && a.st.base == arr[0].st.base && reflect.DeepEqual(a.st.over, arr[0].st.over)
	}
	if sameH {
		m.base, m.over = arr[0].st.base, copyMap(arr[0].st.over)
	} else {
		n := fresh("hm", "H")
		for i, a := range arr {
			eqs[i] = append(eqs[i], n+" == "+x.H(a.st))
		}
		m.base = n
	}
	// flags
	for k := range arr[0].st.known {
		all := true
		for _, a := range arr {
			all = all && a.st.known[k]
		}
		if all {
			m.known[k] = true
		}
	}
	for k := range arr[0].st.nonnull {
		all := true
		for _, a := range arr {
			all = all && a.st.nonnull[k]
		}
		if all {
			m.nonnull[k] = true
		}
	}
	for _, a := range arr {
		for k := range a.st.dirty {
			m.dirty[k] = true
		}
	}
	// calls made: those of one arm only hold under a condition
	m.calls = arr[0].st.calls
	for _, a := range arr[1:] {
		k := 0
		for k < len(m.calls) && k < len(a.st.calls) && m.calls[k] == a.st.calls[k] {
			k++
		}
		m.calls = m.calls[:k]
	}
	common := len(m.calls)
	m.calls = m.calls[:common:common]
	for i, a := range arr {
		if len(a.st.calls) == common {
			continue
		}
		flag := fresh("arm", "bool")
		for j := range arr {
			eqs[j] = append(eqs[j], fmt.Sprintf("%s == %v", flag, i == j))
		}
		for _, r := range a.st.calls[common:] {
			c := *r
			c.when = flag
			if r.when != "" {
				c.when = "(" + flag + " && " + r.when + ")"
			}
			m.calls = append(m.calls, &c)
		}
	}
	// loops passed through
	for _, a := range arr {
		for k, lc := range a.st.met {
			if m.met[k] == nil {
				m.met[k] = lc
			}
		}
		for _, k := range sorted(a.st.in) {
			if _, done := m.in[k]; done {
				continue
			}
			var es []EX
			for _, b := range arr {
				e := b.st.in[k]
				if e == "" {
					e = "false"
				}
				es = append(es, EX{e, "bool"})
			}
			m.in[k] = mergeEX("in", es).s
		}
	}
	// hypotheses
	var disj []string
	addv := func(name, sort string) { m.nodes = &node{parent: m.nodes, isVar: true, name: name, text: sort} }
	seenVar := map[string]bool{}
	for i, a := range arr {
		var ns []*node
		for n := a.st.nodes; n != anc; n = n.parent {
			if n == nil {
				fail("merge: no common ancestor")
			}
			ns = append(ns, n)
		}
		var hs []string
		for j := len(ns) - 1; j >= 0; j-- {
			if ns[j].isVar {
				if !seenVar[ns[j].name] {
					seenVar[ns[j].name] = true
					addv(ns[j].name, ns[j].text)
				}
			} else {
				hs = append(hs, "("+ns[j].text+")")
			}
		}
		for _, e := range eqs[i] {
			hs = append(hs, "("+e+")")
		}
		if len(hs) == 0 {
			hs = []string{"true"}
		}
		disj = append(disj, "("+strings.Join(hs, "\n            && ")+")")
	}
	for _, v := range newVars {
		addv(v.name, v.sort)
	}
	m.nodes = &node{parent: m.nodes, text: "(" + strings.Join(disj, "\n         || ") + ")"}
	if !sameH {
		x.hyp(m, "wf("+m.base+")")
	}
	f := arr[0].fr
	if f != nil {
		f = f.clone()
		for _, a := range arr[1:] {
			for k, v := range a.fr.loops {
				if _, ok := f.loops[k]; !ok {
					f.loops[k] = v
				}
			}
		}
	}
	return []arrival{{m, f, vals}}
}

func sorted(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
