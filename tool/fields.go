package main

import (
	"bufio"
	"fmt"
	"go/types"
	"io"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// Contracts name the fields of structs. A field that was renamed keeps, in the
// contracts, the name it had when fields.txt was written: fields that are new are
// paired, in order, with those of the same type that are gone. This is a matter of
// names only; what is proved is about the fields the code uses.
var fieldAlias = map[*types.Var]string{}

// The same for types and package-level variables.
var (
	typeAlias  = map[*types.TypeName]string{}
	varAlias   = map[types.Object]string{}
	aliasWords []aliasWord
)

type aliasWord struct {
	re  *regexp.Regexp
	new string
}

// unalias gives the types in a text the names the contracts know.
func unalias(s string) string {
	for _, a := range aliasWords {
		s = a.re.ReplaceAllString(s, a.new)
	}
	return s
}

func typeObjName(o *types.TypeName) string {
	if a, ok := typeAlias[o]; ok {
		return a
	}
	return o.Name()
}

func varName(g *ssa.Global) string {
	if o := g.Object(); o != nil {
		if a, ok := varAlias[o]; ok {
			return a
		}
	}
	return g.Name()
}

// typeShape describes a type without its name and without the names of fields.
func typeShape(tn *types.TypeName) string {
	var sb strings.Builder
	switch u := tn.Type().Underlying().(type) {
	case *types.Struct:
		sb.WriteString("struct")
		for i := 0; i < u.NumFields(); i++ {
			sb.WriteString(" " + types.TypeString(u.Field(i).Type(), nil))
		}
	default:
		sb.WriteString(types.TypeString(u, nil))
	}
	if n, ok := tn.Type().(*types.Named); ok {
		var ms []string
		for i := 0; i < n.NumMethods(); i++ {
			ms = append(ms, n.Method(i).Name())
		}
		sort.Strings(ms)
		sb.WriteString(" methods " + strings.Join(ms, " "))
	}
	w := regexp.MustCompile(regexp.QuoteMeta(tn.Pkg().Path()+"."+tn.Name()) + `\b`)
	return strings.ReplaceAll(w.ReplaceAllString(sb.String(), "@"), modPrefix, "")
}

// declsOf lists the package-level types and variables of the repository.
func declsOf(ps []*packages.Package, do func(pkg string, o types.Object, kind, shape string)) {
	for _, p := range ps {
		if !isRepo(p.Types) {
			continue
		}
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			switch o := sc.Lookup(n).(type) {
			case *types.TypeName:
				if !o.IsAlias() {
					do(strings.TrimPrefix(p.PkgPath, modPrefix), o, "type", typeShape(o))
				}
			case *types.Var:
				do(strings.TrimPrefix(p.PkgPath, modPrefix), o, "var", strings.ReplaceAll(types.TypeString(o.Type(), nil), modPrefix, ""))
			}
		}
	}
}

func aliasDecls(file string, ps []*packages.Package) {
	typeAlias, varAlias, aliasWords = map[*types.TypeName]string{}, map[types.Object]string{}, nil
	b, err := os.ReadFile(file)
	if err != nil {
		return
	}
	type decl struct{ kind, pkg, name, shape string }
	var base []decl
	had := map[string]bool{}
	for _, l := range strings.Split(string(b), "\n") {
		if q := strings.Split(l, "\t"); len(q) == 5 && q[0] == "decl" {
			base = append(base, decl{q[1], q[2], q[3], q[4]})
			had[q[1]+" "+q[2]+" "+q[3]] = true
		}
	}
	fresh := map[string][]types.Object{}
	present := map[string]bool{}
	declsOf(ps, func(pkg string, o types.Object, kind, shape string) {
		k := kind + " " + pkg + " "
		present[k+o.Name()] = true
		if !had[k+o.Name()] {
			fresh[k+shape] = append(fresh[k+shape], o)
		}
	})
	gone := map[string][]string{}
	for _, d := range base {
		if k := d.kind + " " + d.pkg + " "; !present[k+d.name] {
			gone[k+d.shape] = append(gone[k+d.shape], d.name)
		}
	}
	for k, os := range fresh {
		if len(os) != 1 || len(gone[k]) != 1 {
			continue
		}
		if tn, ok := os[0].(*types.TypeName); ok {
			typeAlias[tn] = gone[k][0]
			aliasWords = append(aliasWords, aliasWord{regexp.MustCompile(regexp.QuoteMeta(tn.Pkg().Path()+"."+tn.Name()) + `\b`), tn.Pkg().Path() + "." + gone[k][0]})
		} else {
			varAlias[os[0]] = gone[k][0]
		}
	}
}

type fieldDecl struct{ name, typ string }

// structsOf lists the struct types of the repository.
func structsOf(ps []*packages.Package, do func(key string, st *types.Struct)) {
	for _, p := range ps {
		if !isRepo(p.Types) {
			continue
		}
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if st, ok := tn.Type().Underlying().(*types.Struct); ok {
				do(strings.TrimPrefix(p.PkgPath, modPrefix)+"."+typeObjName(tn), st)
			}
		}
	}
}

func writeFields(w io.Writer, ps []*packages.Package) {
	var lines []string
	structsOf(ps, func(key string, st *types.Struct) {
		l := key
		for i := 0; i < st.NumFields(); i++ {
			l += "\t" + st.Field(i).Name() + " " + relType(st.Field(i).Type())
		}
		lines = append(lines, l)
	})
	sort.Strings(lines)
	for _, l := range lines {
		fmt.Fprintln(w, l)
	}
	declsOf(ps, func(pkg string, o types.Object, kind, shape string) {
		fmt.Fprintf(w, "decl\t%s\t%s\t%s\t%s\n", kind, pkg, o.Name(), shape)
	})
}

// aliasFields pairs the fields of the tree with those in the file.
func aliasFields(file string, ps []*packages.Package) {
	aliasDecls(file, ps)
	fieldAlias = map[*types.Var]string{}
	f, err := os.Open(file)
	if err != nil {
		return
	}
	defer f.Close()
	base := map[string][]fieldDecl{}
	s := bufio.NewScanner(f)
	s.Buffer(nil, 1<<20)
	for s.Scan() {
		parts := strings.Split(s.Text(), "\t")
		if parts[0] == "decl" {
			continue
		}
		var fs []fieldDecl
		for _, q := range parts[1:] {
			n, t, _ := strings.Cut(q, " ")
			fs = append(fs, fieldDecl{n, t})
		}
		base[parts[0]] = fs
	}
	structsOf(ps, func(key string, st *types.Struct) {
		var names []string
		gone := map[string][]string{}
		had := map[string]bool{}
		for _, d := range base[key] {
			had[d.name] = true
		}
		for i := 0; i < st.NumFields(); i++ {
			names = append(names, st.Field(i).Name())
		}
		for _, d := range base[key] {
			if !has(names, d.name) {
				gone[d.typ] = append(gone[d.typ], d.name)
			}
		}
		fresh := map[string][]*types.Var{}
		for i := 0; i < st.NumFields(); i++ {
			if v := st.Field(i); !had[v.Name()] {
				t := relType(v.Type())
				fresh[t] = append(fresh[t], v)
			}
		}
		for t, vs := range fresh {
			if len(vs) == len(gone[t]) {
				for i, v := range vs {
					fieldAlias[v] = gone[t][i]
				}
			}
		}
	})
}
