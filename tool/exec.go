package main

// Symbolic execution of go/ssa functions into verification conditions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type EX struct{ s, t string } // Verus expression and its type

type SV struct { // struct value
	typ types.Type
	f   []Val
}
type TV []Val    // tuple
type AV struct { // address of a scalar location
	comp *Comp
	ref  string
	idx  string
	path []int
	typ  types.Type // type stored at comp location (before path)
	et   types.Type // pointed-to type
}
type FV struct {
	fn    *ssa.Function
	binds []Val
}
type IV struct { // interface value with known dynamic type
	typ types.Type
	v   Val
}
type ITV struct{ r *ssa.Range }

type node struct {
	parent *node
	isVar  bool
	name   string
	text   string
	n      int
}

type iterState struct {
	vis  string // visited set expression
	dom  string // key set when the iteration started
	mref string
	comp *Comp
	keyT types.Type
}

type State struct {
	nodes    *node
	over     map[string]string // component -> current expression
	base     string            // H variable the overrides are relative to
	nonnull  map[string]bool
	known    map[string]bool
	iters    map[*ssa.Range]iterState
	dirty    map[string]bool // components written since function entry
	visitCnt int
	in       map[string]string   // specified loop -> condition that the path went through it
	met      map[string]*loopCtx // specified loop -> how it was entered
	calls    []*callRec          // calls of functions under contract, for the hints
}

// callRec is a call replaced by its contract.
type callRec struct {
	c         *Contract
	h, h2     string
	args, res []string
	n         int    // the n-th call of that name on its path
	when      string // condition that the path went through it ("": it did)
}

func (s *State) clone() *State {
	c := *s
	c.over = copyMap(s.over)
	c.nonnull = copyMap(s.nonnull)
	c.known = copyMap(s.known)
	c.dirty = copyMap(s.dirty)
	c.in = copyMap(s.in)
	c.met = copyMap(s.met)
	c.iters = make(map[*ssa.Range]iterState, len(s.iters))
	for k, v := range s.iters {
		c.iters[k] = v
	}
	return &c
}

func copyMap[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Val
	loops  map[*ssa.BasicBlock]*loopCtx
	k      func(st *State, res []Val)
	depth  int
	info   *fnInfo
	owner  *Contract // contract whose loop specs apply
	helper bool      // executed as part of a caller whose loop specs apply
	args   map[string]string
	argT   map[string]string
	stop   map[*ssa.BasicBlock]bool // dry run: blocks inside the loop
	dry    *dryRun
	joins  map[*ssa.BasicBlock]*collector // where arriving paths are collected
}

func (f *Frame) clone() *Frame {
	c := *f
	c.regs = copyMap(f.regs)
	c.loops = copyMap(f.loops)
	return &c
}

type loopCtx struct {
	spec  *LoopSpec
	hl    string   // heap at loop entry
	head  []string // values of the invariant parameters at the loop head
	entry []string // and when the loop was entered
	roles map[string]roleBind
	fresh []string // components written only at fresh references
	old   []string // other components; the contract says their old memory stays
	hints []string
	// A loop over a literal is executed element by element: its length, and
	// the number of the current element.
	unroll, at int
}

type roleBind struct {
	kind string
	phi  *ssa.Phi
	val  ssa.Value
	off  int
	rng  *ssa.Range
	expr string // fixed expression
	sort string
}

type dryRun struct {
	writes map[string]bool // written at possibly old references
	fresh  map[string]bool // written at fresh references only
	refs   map[string]bool // references allocated during the dry run
	outer  *dryRun
}

type fnInfo struct {
	headers map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	order   []*ssa.BasicBlock
	joins   map[*ssa.BasicBlock][]*ssa.BasicBlock
}

type VC struct {
	ID         string
	Name       string
	Fn         string
	Kind       string
	Label      string
	Props      []string
	Goal       string
	nodes      *node
	Hints      []string
	Uses       []string
	Loc        string
	Rlimit     int
	expectFail bool
}

type unsupported struct{ msg string }

type Exec struct {
	env       *Env
	prog      *ssa.Program
	specs     map[string]*Contract
	views     map[string]*Contract // contracts callers go by, of functions verified against another
	sf        *SpecFile
	prop      string
	fnByKey   map[string]*ssa.Function
	vcs       []*VC
	cur       *Contract
	curFn     *ssa.Function
	h0        string
	seq       int
	infos     map[*ssa.Function]*fnInfo
	muted     int
	need      map[string]bool // contracts used by calls
	usedExt   map[string]bool
	usedFiles map[string]bool
	inlined   map[string]bool
	visitors  map[string]*ssa.Function
	fnID      map[string]int
	fnVals    map[string][]*ssa.Function
	capNames  map[*ssa.FreeVar]string
	paths     int
	glFresh   map[*ssa.Global]bool
	specTxt   strings.Builder
	wfUsed    bool
	stackFn   []*ssa.Function
	clauseN   map[string]bool
	strParts  map[string][]string // string variable -> the parts it was put together from
	clauses   []string
	dry       *dryRun
	callSeq   int
	errs      []string
	fset      *token.FileSet

	// components a function under contract writes (at fresh references unless
	// listed under modifies), found by executing it
	inferred     map[*Contract]map[string]bool
	inferChanged bool
	retFr        *Frame
}

func fail(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func (x *Exec) fresh(p string) string {
	x.seq++
	return fmt.Sprintf("%s_%d", rustIdent(p), x.seq)
}

func (x *Exec) addVar(st *State, p, sort string) string {
	n := x.fresh(p)
	st.nodes = &node{parent: st.nodes, isVar: true, name: n, text: sort}
	return n
}

func (x *Exec) hyp(st *State, f string) {
	if f == "true" || f == "" {
		return
	}
	if st.known[f] {
		return
	}
	st.known[f] = true
	st.nodes = &node{parent: st.nodes, text: f}
}

func (x *Exec) bind(st *State, p string, e EX) EX {
	if isSimple(e.s) {
		return e
	}
	n := x.addVar(st, p, e.t)
	x.hyp(st, n+" == "+e.s)
	return EX{n, e.t}
}

var simpleRe = regexp.MustCompile(`^-?[A-Za-z0-9_]+(\.[A-Za-z0-9_]+)*$`)

func isSimple(s string) bool {
	return simpleRe.MatchString(s) || s == "Iface::Nil" || s == "nil_slice()" || s == "Seq::<int>::empty()" || strings.HasPrefix(s, "glob_") && strings.HasSuffix(s, "()") || s == "(-1int)"
}

func (x *Exec) vc(st *State, kind, label, goal string, hints []string, loc token.Pos) {
	if goal == "true" || st.known[goal] {
		return
	}
	if x.muted == 0 {
		v := &VC{Fn: x.cur.Key, Kind: kind, Label: label, Goal: goal, nodes: st.nodes, Hints: hints, Uses: x.cur.Uses, Rlimit: x.cur.Rlimit}
		if loc.IsValid() {
			p := x.fset.Position(loc)
			v.Loc = fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, "/repo/"), p.Line)
		}
		x.vcs = append(x.vcs, v)
	}
	x.hyp(st, goal)
}

// ---- heap access ----

func (x *Exec) comp(st *State, c *Comp) string {
	if e, ok := st.over[c.Name]; ok {
		return e
	}
	return st.base + "." + c.Name
}

func (x *Exec) setComp(st *State, c *Comp, e string) {
	n := x.addVar(st, c.Name, c.Sort)
	x.hyp(st, n+" == "+e)
	st.over[c.Name] = n
	st.dirty[c.Name] = true
}

var allocComp = &Comp{Name: "alloc", Kind: "alloc", Sort: "int"}

func (x *Exec) alloc(st *State) string { return x.comp(st, allocComp) }

var offRe = regexp.MustCompile(`^\(([A-Za-z0-9_]+) \+ [0-9]+\)$`)

func (x *Exec) noteWrite(c *Comp, ref string) {
	for {
		m := offRe.FindStringSubmatch(ref)
		if m == nil {
			break
		}
		ref = m[1]
	}
	for d := x.dry; d != nil; d = d.outer {
		if d.refs[ref] {
			d.fresh[c.Name] = true
		} else {
			d.writes[c.Name] = true
		}
	}
}

// H materialises the current heap as one variable.
func (x *Exec) H(st *State) string {
	if len(st.over) == 0 {
		return st.base
	}
	var names []string
	for n := range st.over {
		names = append(names, n)
	}
	sort.Strings(names)
	var parts []string
	for _, n := range names {
		parts = append(parts, n+": "+st.over[n])
	}
	h := x.addVar(st, "h", "H")
	x.hyp(st, h+" == (H { "+strings.Join(parts, ", ")+", .."+st.base+" })")
	st.base = h
	st.over = map[string]string{}
	x.hyp(st, "wf("+h+")")
	return h
}

func (x *Exec) newRef(st *State, name string, size int) string {
	al := x.alloc(st)
	r := x.addVar(st, name, "int")
	x.hyp(st, r+" == "+al)
	x.hyp(st, r+" > 0")
	st.over["alloc"] = x.bind(st, "alloc", EX{fmt.Sprintf("(%s + %d)", al, size), "int"}).s
	st.dirty["alloc"] = true
	st.nonnull[r] = true
	for d := x.dry; d != nil; d = d.outer {
		d.refs[r] = true
		d.fresh["alloc"] = true
	}
	return r
}

func (x *Exec) initZero(st *State, ref string, t types.Type) {
	if x.env.isStruct(t) {
		u := under(t).(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if x.env.isStruct(ft) {
				x.initZero(st, refOff(ref, x.env.offset(t, i)), ft)
				continue
			}
			c := x.env.fieldComp(t, i)
			x.noteWrite(c, ref)
			x.setComp(st, c, x.comp(st, c)+".insert("+ref+", "+x.env.zero(ft)+")")
		}
		return
	}
	if a, ok := under(t).(*types.Array); ok {
		c := x.env.elemComp(a.Elem())
		x.noteWrite(c, ref)
		arr := x.addVar(st, "arr", "Map<int,"+c.Val+">")
		x.hyp(st, "(forall|j:int| (#[trigger] "+arr+"[j]) == "+x.env.zero(a.Elem())+")")
		x.setComp(st, c, x.comp(st, c)+".insert("+ref+", "+arr+")")
		return
	}
	c := x.env.cellComp(t)
	x.noteWrite(c, ref)
	x.setComp(st, c, x.comp(st, c)+".insert("+ref+", "+x.env.zero(t)+")")
}

func refOff(r string, o int) string {
	if o == 0 {
		return r
	}
	return fmt.Sprintf("(%s + %d)", r, o)
}

func (x *Exec) toE(st *State, v Val, t types.Type) EX {
	switch v := v.(type) {
	case EX:
		return v
	case SV:
		u := under(v.typ).(*types.Struct)
		var fs []string
		for i := range v.f {
			fs = append(fs, fieldName(u, i)+": "+x.toE(st, v.f[i], u.Field(i).Type()).s)
		}
		s := x.env.sortOf(v.typ)
		return EX{"(" + s + " { " + strings.Join(fs, ", ") + " })", s}
	case IV:
		n := x.env.variant(v.typ)
		p := x.toE(st, v.v, v.typ)
		if strings.HasPrefix(p.t, "S_") {
			return EX{"Iface::" + n + "(Box::new(" + p.s + "))", "Iface"}
		}
		return EX{"Iface::" + n + "(" + p.s + ")", "Iface"}
	case FV:
		// A function value: identified by the function; captured variables make
		// two closures different, so they get an unknown identity.
		code := fmt.Sprintf("fn_code(%s) == %d", "%s", hashID(relKey(v.fn)))
		if len(v.binds) == 0 {
			k := relKey(v.fn)
			if _, ok := x.fnID[k]; !ok {
				x.fnID[k] = len(x.fnID) + 1
			}
			n := fmt.Sprintf("fn_id(%d)", x.fnID[k])
			x.hyp(st, n+" > 0")
			x.hyp(st, fmt.Sprintf(code, n))
			return EX{n, "int"}
		}
		n := x.addVar(st, "closure", "int")
		x.hyp(st, n+" > 0")
		x.hyp(st, fmt.Sprintf(code, n))
		for i, fv := range v.fn.FreeVars {
			if e := x.toE(st, v.binds[i], fv.Type()); e.t == x.env.sortOf(fv.Type()) {
				x.hyp(st, fmt.Sprintf("%s(%s) == %s", x.capFn(v.fn, fv), n, e.s))
			}
		}
		return EX{n, "int"}
	case AV:
		fail("address of a field or element used as a value")
	}
	fail("cannot convert %T to an expression", v)
	return EX{}
}

func (x *Exec) fields(st *State, v Val, t types.Type) []Val {
	switch v := v.(type) {
	case SV:
		return v.f
	case EX:
		u := under(t).(*types.Struct)
		b := x.bind(st, "sv", v)
		var fs []Val
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, EX{b.s + "." + fieldName(u, i), x.env.sortOf(u.Field(i).Type())})
		}
		return fs
	}
	fail("fields of %T", v)
	return nil
}

func (x *Exec) facts(st *State, t types.Type, e string) {
	for _, f := range x.env.typeFacts(t, e, x.alloc(st)) {
		x.hyp(st, f)
	}
}

func (x *Exec) freshVal(st *State, p string, t types.Type) Val {
	if tt, ok := t.(*types.Tuple); ok {
		var tv TV
		for i := 0; i < tt.Len(); i++ {
			tv = append(tv, x.freshVal(st, p, tt.At(i).Type()))
		}
		return tv
	}
	if x.env.isStruct(t) {
		u := under(t).(*types.Struct)
		sv := SV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.f = append(sv.f, x.freshVal(st, p+"_"+u.Field(i).Name(), u.Field(i).Type()))
		}
		return sv
	}
	s := x.env.sortOf(t)
	n := x.addVar(st, p, s)
	x.facts(st, t, n)
	return EX{n, s}
}

func (x *Exec) checkNonNil(st *State, ref string, what string, pos token.Pos) {
	if st.nonnull[ref] || strings.HasPrefix(ref, "(") { // embedded objects are never nil
		return
	}
	x.vc(st, "nopanic", "nil dereference: "+what, ref+" != 0", nil, pos)
	st.nonnull[ref] = true
}

func (x *Exec) loadRef(st *State, ref string, t types.Type) Val {
	if x.env.isStruct(t) {
		u := under(t).(*types.Struct)
		sv := SV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if x.env.isStruct(ft) {
				sv.f = append(sv.f, x.loadRef(st, refOff(ref, x.env.offset(t, i)), ft))
				continue
			}
			c := x.env.fieldComp(t, i)
			v := x.bind(st, u.Field(i).Name(), EX{x.comp(st, c) + "[" + ref + "]", c.Val})
			x.facts(st, ft, v.s)
			sv.f = append(sv.f, v)
		}
		return sv
	}
	if a, ok := under(t).(*types.Array); ok {
		c := x.env.elemComp(a.Elem())
		return EX{x.comp(st, c) + "[" + ref + "]", "Map<int," + c.Val + ">"}
	}
	c := x.env.cellComp(t)
	v := x.bind(st, "ld", EX{x.comp(st, c) + "[" + ref + "]", c.Val})
	x.facts(st, t, v.s)
	return v
}

func (x *Exec) storeRef(st *State, ref string, t types.Type, v Val) {
	if x.env.isStruct(t) {
		u := under(t).(*types.Struct)
		fs := x.fields(st, v, t)
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if x.env.isStruct(ft) {
				x.storeRef(st, refOff(ref, x.env.offset(t, i)), ft, fs[i])
				continue
			}
			c := x.env.fieldComp(t, i)
			x.noteWrite(c, ref)
			x.setComp(st, c, x.comp(st, c)+".insert("+ref+", "+x.toE(st, fs[i], ft).s+")")
		}
		return
	}
	if a, ok := under(t).(*types.Array); ok {
		c := x.env.elemComp(a.Elem())
		x.noteWrite(c, ref)
		x.setComp(st, c, x.comp(st, c)+".insert("+ref+", "+x.toE(st, v, t).s+")")
		return
	}
	c := x.env.cellComp(t)
	x.noteWrite(c, ref)
	x.setComp(st, c, x.comp(st, c)+".insert("+ref+", "+x.toE(st, v, t).s+")")
}

func (a AV) loc(c string) string {
	if a.comp.Kind == "elem" {
		return c + "[" + a.ref + "][" + a.idx + "]"
	}
	return c + "[" + a.ref + "]"
}

func (x *Exec) loadAV(st *State, a AV) Val {
	e := a.loc(x.comp(st, a.comp))
	t := a.typ
	for _, i := range a.path {
		u := under(t).(*types.Struct)
		e += "." + fieldName(u, i)
		t = u.Field(i).Type()
	}
	if x.env.isStruct(t) {
		b := x.bind(st, "ld", EX{e, x.env.sortOf(t)})
		return SV{typ: t, f: x.fields(st, b, t)}
	}
	v := x.bind(st, "ld", EX{e, x.env.sortOf(t)})
	x.facts(st, t, v.s)
	return v
}

func (x *Exec) storeAV(st *State, a AV, v Val) {
	cur := x.comp(st, a.comp)
	e := x.toE(st, v, a.et).s
	if len(a.path) > 0 {
		e = x.updPath(a.loc(cur), a.typ, a.path, e)
	}
	x.noteWrite(a.comp, a.ref)
	if a.comp.Kind == "elem" {
		x.setComp(st, a.comp, cur+".insert("+a.ref+", "+cur+"["+a.ref+"].insert("+a.idx+", "+e+"))")
	} else {
		x.setComp(st, a.comp, cur+".insert("+a.ref+", "+e+")")
	}
}

func (x *Exec) updPath(base string, t types.Type, path []int, e string) string {
	u := under(t).(*types.Struct)
	fn := fieldName(u, path[0])
	inner := e
	if len(path) > 1 {
		inner = x.updPath(base+"."+fn, u.Field(path[0]).Type(), path[1:], e)
	}
	return "(" + x.env.sortOf(t) + " { " + fn + ": " + inner + ", .." + base + " })"
}

// ---- values ----

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		if x.env.isStruct(t) {
			u := under(t).(*types.Struct)
			sv := SV{typ: t}
			for i := 0; i < u.NumFields(); i++ {
				sv.f = append(sv.f, x.constVal(ssa.NewConst(nil, u.Field(i).Type())))
			}
			return sv
		}
		if b, ok := under(t).(*types.Basic); ok && b.Kind() == types.UntypedNil {
			return EX{"0int", "int"}
		}
		return EX{x.env.zero(t), x.env.sortOf(t)}
	}
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		fail("type parameter constant")
	}
	u := under(t).(*types.Basic)
	switch {
	case u.Info()&types.IsBoolean != 0:
		return EX{strconv.FormatBool(constant.BoolVal(c.Value)), "bool"}
	case u.Info()&types.IsString != 0:
		return EX{strSeq(constant.StringVal(c.Value)), "Str"}
	case u.Info()&types.IsInteger != 0:
		s := constant.ToInt(c.Value).ExactString()
		if strings.HasPrefix(s, "-") {
			return EX{"(" + s + "int)", "int"}
		}
		return EX{s + "int", "int"}
	case u.Info()&types.IsFloat != 0:
		if constant.Sign(c.Value) == 0 {
			return EX{"flt_zero()", "Flt"}
		}
		return EX{fmt.Sprintf("flt_const(%d)", x.constID(c.Value.ExactString())), "Flt"}
	}
	fail("constant %s", c)
	return nil
}

func (x *Exec) constID(s string) int {
	k := "const:" + s
	if _, ok := x.fnID[k]; !ok {
		x.fnID[k] = len(x.fnID) + 1
	}
	return x.fnID[k]
}

func (x *Exec) val(st *State, fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return FV{fn: v}
	case *ssa.Global:
		return GV{v}
	case *ssa.Builtin:
		return v
	}
	r, ok := fr.regs[v]
	if !ok {
		fail("undefined value %s in %s", v.Name(), fr.fn)
	}
	return r
}

// GV is the address of a package-level variable.
type GV struct{ g *ssa.Global }

func (x *Exec) ex(st *State, fr *Frame, v ssa.Value) EX {
	return x.toE(st, x.val(st, fr, v), v.Type())
}

func (x *Exec) globalName(g *ssa.Global) string {
	return "glob_" + shortPkg(g.Pkg.Pkg) + "_" + sanitize(varName(g))
}

func (x *Exec) loadGlobal(st *State, g *ssa.Global) Val {
	t := g.Type().(*types.Pointer).Elem()
	if x.glMutable(g) {
		return x.loadRef(st, x.globAddr(g), t)
	}
	if x.isSentinel(g) {
		n := x.globalName(g)
		x.env.globals[n] = fmt.Sprintf("=Iface::Err(-%dint)", 1+x.constID("sentinel:"+g.String()))
		return EX{n + "()", "Iface"}
	}
	s := x.env.sortOf(t)
	n := x.globalName(g)
	x.env.globals[n] = s
	e := n + "()"
	switch under(t).(type) {
	case *types.Pointer, *types.Map:
		x.hyp(st, "0 < "+e+" < glob_limit()")
		x.hyp(st, "glob_limit() <= "+x.alloc(st))
		st.nonnull[e] = true
	default:
		x.facts(st, t, e)
	}
	return EX{e, s}
}

func (x *Exec) globAddr(g *ssa.Global) string {
	n := "gaddr_" + shortPkg(g.Pkg.Pkg) + "_" + sanitize(varName(g))
	x.env.globals[n] = "int"
	return n + "()"
}

// glMutable: a global stored to outside package initialisation.
func (x *Exec) glMutable(g *ssa.Global) bool {
	if v, ok := x.glFresh[g]; ok {
		return v
	}
	mut := false
	if !isRepo(g.Pkg.Pkg) {
		x.glFresh[g] = false
		return false
	}
	for _, fn := range x.fnByKey {
		if fn.Signature.Recv() == nil && (fn.Name() == "init" && fn.Synthetic != "" || strings.HasPrefix(fn.Name(), "init#")) {
			continue // runs before anything else, and only then
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					mut = true
				} else if !ok {
					for _, op := range in.Operands(nil) {
						if *op == ssa.Value(g) {
							if u, isU := in.(*ssa.UnOp); !isU || u.Op != token.MUL {
								if _, isF := in.(*ssa.FieldAddr); !isF {
									mut = true
								}
							}
						}
					}
				}
			}
		}
	}
	x.glFresh[g] = mut
	return mut
}

// isSentinel: an error variable initialised once by errors.New.
func (x *Exec) isSentinel(g *ssa.Global) bool {
	t := g.Type().(*types.Pointer).Elem()
	if typeStr(t) != "error" {
		return false
	}
	if g.Pkg.Func("init") == nil {
		return true
	}
	if !isRepo(g.Pkg.Pkg) {
		return true
	}
	for _, b := range g.Pkg.Func("init").Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				if c, ok := s.Val.(*ssa.Call); ok {
					if f := c.Call.StaticCallee(); f != nil && f.String() == "errors.New" {
						return true
					}
				}
			}
		}
	}
	return false
}

func relKey(fn *ssa.Function) string {
	return strings.ReplaceAll(unalias(fn.RelString(nil)), modPrefix, "")
}

func relType(t types.Type) string {
	return strings.ReplaceAll(typeStr(t), modPrefix, "")
}
