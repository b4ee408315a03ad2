package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

const modPrefix = "github.com/andrewkroh/go-sawmill/"

// Env collects every type-level fact the generated Verus crate needs.
type Env struct {
	canonByUnder map[string]string        // underlying struct string -> canonical name
	structs      map[string]*types.Struct // canonical name -> struct
	structNamed  map[string]types.Type
	opaque       map[string]bool
	comps        map[string]*Comp
	usedStructs  map[string]bool
	variants     map[string]types.Type // variant name -> dynamic type
	variantTable map[string]types.Type // every repo type that can be a dynamic type
	named        map[string]types.Type // "pkg/event.Value" -> type
	repoNamed    []*types.Named
	globals      map[string]string // uninterpreted global constants: name -> sort
	ghosts       map[string]string
	consts       map[string]string
	caps         map[string]types.Type // cap_<package>_<variable> -> type
	fnofs        map[string][]int      // fnof_<type>: codes of the functions used as values
}

// Comp is one component of the heap record H.
type Comp struct {
	Name string
	Kind string // field, map, elem, cell, ghost, alloc
	Sort string // Verus type of the component
	Val  string // value sort
	Key  string // key sort (maps)
	Elem types.Type
	KeyT types.Type
}

func newEnv() *Env {
	return &Env{canonByUnder: map[string]string{}, structs: map[string]*types.Struct{}, structNamed: map[string]types.Type{},
		opaque: map[string]bool{}, comps: map[string]*Comp{}, usedStructs: map[string]bool{}, variants: map[string]types.Type{},
		variantTable: map[string]types.Type{}, named: map[string]types.Type{}, globals: map[string]string{}, ghosts: map[string]string{}, consts: map[string]string{}, fnofs: map[string][]int{}}
}

func under(t types.Type) types.Type { return t.Underlying() }

func typeStr(t types.Type) string { return unalias(types.TypeString(t, nil)) }

func shortPkg(p *types.Package) string {
	if p == nil {
		return ""
	}
	s := p.Path()
	i := strings.LastIndex(s, "/")
	s = s[i+1:]
	return sanitize(s)
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	if sb.Len() == 0 {
		return "x"
	}
	return sb.String()
}

func isRepo(p *types.Package) bool { return p != nil && strings.HasPrefix(p.Path()+"/", modPrefix) }

// structAlias maps a struct type to the identical struct type, declared
// elsewhere, whose components it shares.
var structAlias = map[string]string{}

// fieldOffsets gives the offset of each field that is itself a struct.
var fieldOffsets = map[string]func() int{}

func (e *Env) addNamed(n *types.Named) {
	if n.TypeParams().Len() > 0 {
		return
	}
	e.repoNamed = append(e.repoNamed, n)
	nm := shortPkg(n.Obj().Pkg()) + "_" + typeObjName(n.Obj())
	e.named[strings.TrimPrefix(n.Obj().Pkg().Path(), modPrefix)+"."+typeObjName(n.Obj())] = n
	if st, ok := n.Underlying().(*types.Struct); ok {
		k := typeStr(st)
		if _, dup := e.canonByUnder[k]; !dup {
			if _, clash := e.structs[nm]; clash {
				nm = sanitize(strings.TrimPrefix(n.Obj().Pkg().Path(), modPrefix)) + "_" + typeObjName(n.Obj())
			}
			e.canonByUnder[k] = nm
			e.structs[nm] = st
			e.structNamed[nm] = n
		} else {
			structAlias[nm] = e.canonByUnder[k]
		}
		for i := 0; i < st.NumFields(); i++ {
			fieldOffsets[nm+"."+fieldName(st, i)] = func() int { return e.offset(n, i) }
		}
	}
	if _, ok := n.Underlying().(*types.Interface); !ok {
		e.variantTable["V_"+e.mangle(n)] = n
		e.variantTable["V_p_"+e.mangle(n)] = types.NewPointer(n)
	}
}

// opaqueStruct reports whether the struct is modelled as one opaque value.
func (e *Env) opaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	if isRepo(n.Obj().Pkg()) {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if !st.Field(i).Exported() {
			return true
		}
	}
	return false
}

func (e *Env) structName(t types.Type) string {
	t = types.Unalias(t)
	st := t.Underlying().(*types.Struct)
	k := typeStr(st)
	if nm, ok := e.canonByUnder[k]; ok {
		return nm
	}
	nm := ""
	if n, ok := t.(*types.Named); ok {
		nm = shortPkg(n.Obj().Pkg()) + "_" + typeObjName(n.Obj())
	} else {
		nm = fmt.Sprintf("anon_%d", len(e.canonByUnder))
	}
	e.canonByUnder[k] = nm
	e.structs[nm] = st
	e.structNamed[nm] = t
	return nm
}

func (e *Env) mangle(t types.Type) string {
	switch t := types.Unalias(t).(type) {
	case *types.Basic:
		switch t.Kind() {
		case types.Uint8:
			return "uint8"
		case types.Int32:
			return "int32"
		}
		return sanitize(t.Name())
	case *types.Pointer:
		return "p_" + e.mangle(t.Elem())
	case *types.Slice:
		return "s_" + e.mangle(t.Elem())
	case *types.Array:
		return fmt.Sprintf("a%d_%s", t.Len(), e.mangle(t.Elem()))
	case *types.Map:
		return "m_" + e.mangle(t.Key()) + "_" + e.mangle(t.Elem())
	case *types.Named:
		if t.Obj().Pkg() == nil {
			return sanitize(typeObjName(t.Obj()))
		}
		return shortPkg(t.Obj().Pkg()) + "_" + typeObjName(t.Obj())
	case *types.Struct:
		return e.structName(t)
	case *types.Interface:
		if t.NumMethods() == 0 {
			return "any"
		}
		return "iface" + sanitize(typeStr(t))
	case *types.Signature:
		return "fn" + sanitize(typeStr(t))
	case *types.Chan:
		return "ch_" + e.mangle(t.Elem())
	}
	return sanitize(typeStr(t))
}

// sigName names a function type.
func (e *Env) sigName(t types.Type) string {
	s := under(t).(*types.Signature)
	var p []string
	for i := 0; i < s.Params().Len(); i++ {
		p = append(p, e.mangle(s.Params().At(i).Type()))
	}
	p = append(p, "to")
	for i := 0; i < s.Results().Len(); i++ {
		p = append(p, e.mangle(s.Results().At(i).Type()))
	}
	return strings.Join(p, "_")
}

// sortOf gives the Verus type that represents values of Go type t.
func (e *Env) sortOf(t types.Type) string {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "bool"
		case u.Info()&types.IsInteger != 0:
			return "int"
		case u.Info()&types.IsFloat != 0:
			return "Flt"
		case u.Info()&types.IsComplex != 0:
			return "Opq"
		case u.Info()&types.IsString != 0:
			return "Str"
		}
		return "int"
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "int"
	case *types.Slice:
		return "Slice"
	case *types.Interface:
		return "Iface"
	case *types.Array:
		return "Map<int," + e.sortOf(u.Elem()) + ">"
	case *types.Struct:
		if e.opaqueStruct(t) {
			return "Opq"
		}
		nm := e.structName(t)
		e.useStruct(nm)
		return "S_" + nm
	}
	panic("no sort for " + typeStr(t))
}

func (e *Env) useStruct(nm string) {
	if e.usedStructs[nm] {
		return
	}
	e.usedStructs[nm] = true
	st := e.structs[nm]
	for i := 0; i < st.NumFields(); i++ {
		e.sortOf(st.Field(i).Type())
	}
}

func (e *Env) isStruct(t types.Type) bool {
	_, ok := under(t).(*types.Struct)
	return ok && !e.opaqueStruct(t)
}

func fieldName(st *types.Struct, i int) string {
	n := st.Field(i).Name()
	if a, ok := fieldAlias[st.Field(i)]; ok {
		n = a
	}
	if n == "_" {
		return fmt.Sprintf("blank%d", i)
	}
	return rustIdent(n)
}

func rustIdent(n string) string {
	n = sanitize(n)
	switch n {
	case "type", "fn", "match", "mod", "ref", "self", "use", "let", "in", "impl", "loop", "move", "mut", "pub", "static", "struct", "super", "trait", "where", "while", "as", "box", "crate", "enum", "extern", "final", "proof", "spec", "exec", "invariant", "assert", "assume", "requires", "ensures", "tracked", "ghost", "open", "closed", "old", "is", "has", "via", "by", "any", "global", "decreases", "try", "gen":
		return n + "_"
	}
	return n
}

// layout: size of an object and offsets of embedded struct fields.
func (e *Env) size(t types.Type) int {
	if !e.isStruct(t) {
		return 1
	}
	st := under(t).(*types.Struct)
	n := 1
	for i := 0; i < st.NumFields(); i++ {
		if e.isStruct(st.Field(i).Type()) {
			n += e.size(st.Field(i).Type())
		}
	}
	return n
}

func (e *Env) offset(t types.Type, f int) int {
	st := under(t).(*types.Struct)
	n := 1
	for i := 0; i < f; i++ {
		if e.isStruct(st.Field(i).Type()) {
			n += e.size(st.Field(i).Type())
		}
	}
	return n
}

func (e *Env) fieldComp(t types.Type, f int) *Comp {
	nm := e.structName(t)
	st := under(t).(*types.Struct)
	ft := st.Field(f).Type()
	n := nm + "_" + fieldName(st, f)
	if c, ok := e.comps[n]; ok {
		return c
	}
	v := e.sortOf(ft)
	c := &Comp{Name: n, Kind: "field", Sort: "Map<int," + v + ">", Val: v, Elem: ft}
	e.comps[n] = c
	return c
}

func (e *Env) mapComp(t types.Type) *Comp {
	m := under(t).(*types.Map)
	n := "M_" + e.mangle(m.Key()) + "_" + e.mangle(m.Elem())
	if c, ok := e.comps[n]; ok {
		return c
	}
	k, v := e.sortOf(m.Key()), e.sortOf(m.Elem())
	c := &Comp{Name: n, Kind: "map", Sort: "Map<int,Map<" + k + "," + v + ">>", Val: v, Key: k, Elem: m.Elem(), KeyT: m.Key()}
	e.comps[n] = c
	return c
}

func (e *Env) elemComp(elem types.Type) *Comp {
	n := "A_" + e.mangle(elem)
	if c, ok := e.comps[n]; ok {
		return c
	}
	v := e.sortOf(elem)
	c := &Comp{Name: n, Kind: "elem", Sort: "Map<int,Map<int," + v + ">>", Val: v, Elem: elem}
	e.comps[n] = c
	return c
}

func (e *Env) cellComp(t types.Type) *Comp {
	n := "C_" + e.mangle(t)
	if c, ok := e.comps[n]; ok {
		return c
	}
	v := e.sortOf(t)
	c := &Comp{Name: n, Kind: "cell", Sort: "Map<int," + v + ">", Val: v, Elem: t}
	e.comps[n] = c
	return c
}

func (e *Env) ghostComp(name string) *Comp {
	if c, ok := e.comps[name]; ok {
		return c
	}
	s, ok := e.ghosts[name]
	if !ok {
		return nil
	}
	c := &Comp{Name: name, Kind: "ghost", Sort: s, Val: s}
	e.comps[name] = c
	return c
}

// compByName resolves a component mentioned in a contract.
func (e *Env) compByName(n string) *Comp {
	if n == "alloc" {
		return &Comp{Name: "alloc", Kind: "alloc", Sort: "int"}
	}
	for a, c := range structAlias {
		if strings.HasPrefix(n, a+"_") {
			n = c + n[len(a):]
			break
		}
	}
	if c, ok := e.comps[n]; ok {
		return c
	}
	if c := e.ghostComp(n); c != nil {
		return c
	}
	for nm, st := range e.structs {
		if strings.HasPrefix(n, nm+"_") {
			for i := 0; i < st.NumFields(); i++ {
				if nm+"_"+fieldName(st, i) == n {
					return e.fieldComp(e.structNamed[nm], i)
				}
			}
		}
	}
	for _, t := range e.typeUniverse() {
		switch u := under(t).(type) {
		case *types.Map:
			if "M_"+e.mangle(u.Key())+"_"+e.mangle(u.Elem()) == n {
				return e.mapComp(u)
			}
		case *types.Slice:
			if "A_"+e.mangle(u.Elem()) == n {
				return e.elemComp(u.Elem())
			}
		case *types.Array:
			if "A_"+e.mangle(u.Elem()) == n {
				return e.elemComp(u.Elem())
			}
		case *types.Pointer:
			if "C_"+e.mangle(u.Elem()) == n {
				return e.cellComp(u.Elem())
			}
		}
	}
	return nil
}

var universe []types.Type

func (e *Env) typeUniverse() []types.Type { return universe }

// variant returns the Iface constructor for dynamic type t.
func (e *Env) variant(t types.Type) string {
	t = types.Unalias(t)
	n := "V_" + e.mangle(t)
	if e.variants[n] == nil {
		e.variants[n] = t
		e.sortOf(t)
	}
	return n
}

func (e *Env) zero(t types.Type) string {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "false"
		case u.Info()&types.IsFloat != 0:
			return "flt_zero()"
		case u.Info()&types.IsString != 0:
			return "Seq::<int>::empty()"
		case u.Info()&types.IsComplex != 0:
			return "opq_zero(0)"
		}
		return "0int"
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "0int"
	case *types.Slice:
		return "nil_slice()"
	case *types.Interface:
		return "Iface::Nil"
	case *types.Array:
		return "Map::<int," + e.sortOf(u.Elem()) + ">::empty()"
	case *types.Struct:
		if e.opaqueStruct(t) {
			return fmt.Sprintf("opq_zero(%d)", e.typeID(t))
		}
		var fs []string
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, fieldName(u, i)+": "+e.zero(u.Field(i).Type()))
		}
		return "(" + e.sortOf(t) + " { " + strings.Join(fs, ", ") + " })"
	}
	panic("zero " + typeStr(t))
}

var typeIDs = map[string]int{}

func (e *Env) typeID(t types.Type) int {
	k := typeStr(t)
	if n, ok := typeIDs[k]; ok {
		return n
	}
	h := hashID(k)
	typeIDs[k] = h
	return h
}

func hashID(k string) int {
	h := 0
	for _, c := range k {
		h = (h*31 + int(c)) % 1000003
	}
	return h
}

// typeFacts lists what every value of Go type t satisfies (type safety facts).
func (e *Env) typeFacts(t types.Type, x, alloc string) []string {
	switch u := under(t).(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Uint8:
			return []string{"0 <= " + x + " < 256"}
		case types.Int, types.Int64:
			return []string{"-0x8000000000000000 <= " + x + " <= 0x7fffffffffffffff"}
		case types.Uint64, types.Uint, types.Uintptr:
			return []string{"0 <= " + x + " <= 0xffffffffffffffff"}
		case types.Int8:
			return []string{"-128 <= " + x + " < 128"}
		case types.Int16:
			return []string{"-32768 <= " + x + " < 32768"}
		case types.Uint16:
			return []string{"0 <= " + x + " < 65536"}
		case types.Int32:
			return []string{"-0x80000000 <= " + x + " <= 0x7fffffff"}
		case types.Uint32:
			return []string{"0 <= " + x + " <= 0xffffffff"}
		}
	case *types.Pointer, *types.Map:
		return []string{"0 <= " + x + " < " + alloc}
	case *types.Slice:
		return []string{"slice_wf(" + x + ", " + alloc + ")"}
	}
	return nil
}

// wfBody gives the closedness facts of one component: every stored reference
// is below the allocation counter.
func (e *Env) wfBody(c *Comp) []string {
	h := "h." + c.Name
	switch c.Kind {
	case "field", "cell":
		switch under(c.Elem).(type) {
		case *types.Pointer, *types.Map:
			return []string{"(forall|r:int| 0 <= (#[trigger] " + h + "[r]) < h.alloc)"}
		case *types.Slice:
			return []string{"(forall|r:int| slice_wf(#[trigger] " + h + "[r], h.alloc))"}
		}
	case "map":
		out := []string{"(" + h + "[0] == Map::<" + c.Key + "," + c.Val + ">::empty())"}
		switch under(c.Elem).(type) {
		case *types.Pointer, *types.Map:
			out = append(out, "(forall|r:int, k:"+c.Key+"| "+h+"[r].dom().contains(k) ==> 0 <= (#[trigger] "+h+"[r][k]) < h.alloc)")
		case *types.Slice:
			out = append(out, "(forall|r:int, k:"+c.Key+"| "+h+"[r].dom().contains(k) ==> slice_wf(#[trigger] "+h+"[r][k], h.alloc))")
		}
		return out
	case "elem":
		switch under(c.Elem).(type) {
		case *types.Pointer, *types.Map:
			return []string{"(forall|r:int, k:int| 0 <= (#[trigger] " + h + "[r][k]) < h.alloc)"}
		case *types.Slice:
			return []string{"(forall|r:int, k:int| slice_wf(#[trigger] " + h + "[r][k], h.alloc))"}
		}
	}
	return nil
}

func (e *Env) compNames() []string {
	var ns []string
	for n := range e.comps {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}
