package main

// Contract files: a line-based format whose expressions are Verus expressions.

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

type Clause struct {
	Kind  string // requires, ensures, invariant, hint
	Props []string
	Label string
	Expr  string
	File  string
	Line  int
}

func (c *Clause) forProp(p string) bool {
	if len(c.Props) == 0 || p == "" {
		return true
	}
	for _, x := range c.Props {
		if x == p {
			return true
		}
		for _, y := range buildsOn[p] {
			if x == y {
				return true
			}
		}
	}
	return false
}

// buildsOn lists the properties whose clauses a property's proof uses (and
// therefore proves again).
var buildsOn = map[string][]string{}

type Role struct {
	Kind    string // idx, var, ovar (optional, with a default value), set, map
	Default string
	Name    string
	Type    string
}

type LoopSpec struct {
	Name  string
	Roles []Role
	Inv   []*Clause
	Hints []string
	Owner *Contract
	N     int
}

// Cap names a variable captured by the function passed as a parameter.
type Cap struct{ Param, Bind int }

type Contract struct {
	Key      string
	Extern   bool
	Iface    bool
	Inline   bool // loop invariants for a function that is inlined
	Params   []string
	Caps     []Cap // captured variables of function-valued parameters; they are the last parameters
	Results  []string
	Requires []*Clause
	Ensures  []*Clause
	Modifies []string
	ModFor   map[string]*Clause // components modified for some properties only
	Allocs   []string
	NoAlloc  bool
	Loops    []*LoopSpec
	Uses     []string // broadcast lemmas
	Hints    []*Clause
	Pre      []*Clause // hints for the precondition at each call
	Records  []*Record // ghost code at each call
	Props    []string
	Only     []string // the properties for which there is this contract; the function is inlined for the others
	File     string
	Line     int
	Pure     bool
	Rlimit   int
	Sig      string // signature, to find the function again after a rename
	ident    string
}

// Record is ghost code that runs when a call has returned: the ghost variable
// gets the value of the expression.
type Record struct {
	Clause
	Ghost string
}

type Lemma struct {
	Props []string
	Name  string
	Title string
}

// FileInfo holds what a contract file adds to the crate when it is used.
type FileInfo struct {
	Imports []string // lemma libraries
	Needs   []string // other contract files
	Rust    []string
	Uses    []string
	Assumes []string
}

type SpecFile struct {
	Contracts []*Contract
	Files     map[string]*FileInfo
	Macros    map[string]string
	Ghosts    map[string]string
	Lemmas    []Lemma
	Globals   []string
}

var kwRe = regexp.MustCompile(`^(builds_on|macro|import|needs|inline|func|extern|iface|rust|ghost|use|lemma|requires|ensures|modifies|allocs|noalloc|loop|invariant|hint|props|only|assumption|pure|rlimit|prehint|record)\b`)

var macroRe = regexp.MustCompile(`\$[A-Z]+`)

func loadSpecs(dir string) (*SpecFile, error) {
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	sf := &SpecFile{Ghosts: map[string]string{}, Files: map[string]*FileInfo{}, Macros: map[string]string{}}
	sigs := map[string]string{}
	if b, err := os.ReadFile(filepath.Join(dir, "signatures.txt")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if i := strings.LastIndex(l, " "); i > 0 {
				sigs[l[:i]] = l[i+1:]
			}
		}
	}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		for _, l := range strings.Split(string(b), "\n") {
			if f := strings.SplitN(l, " ", 3); len(f) == 3 && f[0] == "macro" {
				sf.Macros[f[1]] = strings.TrimSpace(f[2])
			}
		}
	}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := sf.parse(f, string(b)); err != nil {
			return nil, err
		}
	}
	for _, c := range sf.Contracts {
		c.Sig = sigs[c.Key]
	}
	return sf, nil
}

func (sf *SpecFile) parse(file, src string) error {
	lines := strings.Split(src, "\n")
	type stmt struct {
		line int
		text string
	}
	var stmts []stmt
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		if t == "rust" {
			var body []string
			start := i
			for i++; i < len(lines) && strings.TrimSpace(lines[i]) != "end rust"; i++ {
				body = append(body, lines[i])
			}
			stmts = append(stmts, stmt{start + 1, "rust " + strings.Join(body, "\n")})
			continue
		}
		if kwRe.MatchString(t) {
			stmts = append(stmts, stmt{i + 1, t})
		} else {
			if len(stmts) == 0 {
				return fmt.Errorf("%s:%d: unexpected %q", file, i+1, t)
			}
			stmts[len(stmts)-1].text += "\n    " + t
		}
	}
	var cur *Contract
	var loop *LoopSpec
	fi := &FileInfo{}
	sf.Files[filepath.Base(file)] = fi
	for _, s := range stmts {
		kw := kwRe.FindString(s.text)
		rest := strings.TrimSpace(s.text[len(kw):])
		clause := func(kind string) *Clause {
			c := &Clause{Kind: kind, File: filepath.Base(file), Line: s.line}
			r := rest
			if strings.HasPrefix(r, "@") {
				i := strings.IndexAny(r, " \t\n")
				for _, p := range strings.Split(r[:i], ",") {
					c.Props = append(c.Props, strings.TrimPrefix(p, "@"))
				}
				r = strings.TrimSpace(r[i:])
			}
			if strings.HasPrefix(r, "[") {
				i := strings.Index(r, "]")
				c.Label = r[1:i]
				r = strings.TrimSpace(r[i+1:])
			}
			c.Expr = r
			return c
		}
		for k, v := range sf.Macros {
			rest = strings.ReplaceAll(rest, "$"+k, v)
		}
		if m := macroRe.FindString(rest); m != "" && kw != "rust" {
			return fmt.Errorf("%s:%d: unknown macro %s", file, s.line, m)
		}
		switch kw {
		case "macro":
		case "builds_on":
			f := strings.Fields(rest)
			buildsOn[f[0]] = append(buildsOn[f[0]], f[1:]...)
		case "import":
			fi.Imports = append(fi.Imports, strings.Fields(rest)...)
		case "rust":
			fi.Rust = append(fi.Rust, rest)
		case "needs":
			for _, n := range strings.Fields(rest) {
				fi.Needs = append(fi.Needs, n+".spec")
			}
		case "ghost":
			i := strings.Index(rest, ":")
			sf.Ghosts[strings.TrimSpace(rest[:i])] = strings.TrimSpace(rest[i+1:])
		case "assumption":
			fi.Assumes = append(fi.Assumes, rest)
		case "lemma":
			f := strings.Fields(rest)
			l := Lemma{}
			for _, p := range strings.Split(f[0], ",") {
				l.Props = append(l.Props, strings.TrimPrefix(p, "@"))
			}
			l.Name = f[1]
			l.Title = strings.Join(f[2:], " ")
			sf.Lemmas = append(sf.Lemmas, l)
		case "use":
			names := strings.Fields(rest)
			if cur != nil {
				cur.Uses = append(cur.Uses, names...)
			} else {
				fi.Uses = append(fi.Uses, names...)
			}
		case "func", "extern", "iface", "inline":
			cur = &Contract{File: filepath.Base(file), Line: s.line, Extern: kw == "extern", Iface: kw == "iface", Inline: kw == "inline"}
			loop = nil
			if err := cur.parseHead(rest); err != nil {
				return fmt.Errorf("%s:%d: %v", file, s.line, err)
			}
			sf.Contracts = append(sf.Contracts, cur)
		case "requires":
			cur.Requires = append(cur.Requires, clause(kw))
		case "ensures":
			cur.Ensures = append(cur.Ensures, clause(kw))
		case "modifies":
			q := &Clause{}
			for _, a := range strings.FieldsFunc(rest, func(r rune) bool { return r == ',' || r == ' ' }) {
				if strings.HasPrefix(a, "@") {
					q.Props = append(q.Props, a[1:])
					continue
				}
				cur.Modifies = append(cur.Modifies, a)
				if len(q.Props) > 0 {
					if cur.ModFor == nil {
						cur.ModFor = map[string]*Clause{}
					}
					cur.ModFor[a] = q
				}
			}
		case "allocs":
			cur.Allocs = append(cur.Allocs, strings.FieldsFunc(rest, func(r rune) bool { return r == ',' || r == ' ' })...)
		case "noalloc":
			cur.NoAlloc = true
		case "pure":
			cur.Pure = true
			cur.NoAlloc = true
		case "rlimit":
			fmt.Sscan(rest, &cur.Rlimit)
		case "only":
			for _, p := range strings.Fields(rest) {
				cur.Only = append(cur.Only, strings.TrimPrefix(p, "@"))
			}
		case "props":
			for _, p := range strings.Fields(rest) {
				cur.Props = append(cur.Props, strings.TrimPrefix(p, "@"))
			}
		case "loop":
			loop = &LoopSpec{Owner: cur, N: len(cur.Loops)}
			i := strings.Index(rest, "(")
			loop.Name = strings.TrimSpace(rest[:i])
			inner := rest[i+1 : strings.LastIndex(rest, ")")]
			for _, r := range splitTop(inner) {
				f := strings.Fields(r)
				if len(f) < 2 {
					return fmt.Errorf("%s:%d: bad role %q", file, s.line, r)
				}
				ro := Role{Kind: f[0], Name: f[1]}
				if len(f) > 2 {
					ro.Type = strings.Join(f[2:], " ")
				}
				if i := strings.Index(ro.Type, "="); i >= 0 {
					ro.Type, ro.Default = strings.TrimSpace(ro.Type[:i]), strings.TrimSpace(ro.Type[i+1:])
				}
				if ro.Kind == "fixed" || ro.Kind == "tested" {
					// whether the loop leaves (compares) the variable as it is
					ro.Type, ro.Default = "bool", ro.Type
				}
				if ro.Kind == "entry" {
					// what the variable is when the loop starts
					for _, o := range loop.Roles {
						if o.Name == ro.Type {
							ro.Type, ro.Default = o.Type, o.Name
						}
					}
					if ro.Default == "" {
						return fmt.Errorf("%s:%d: bad role %q", file, s.line, r)
					}
				}
				loop.Roles = append(loop.Roles, ro)
			}
			cur.Loops = append(cur.Loops, loop)
		case "invariant":
			loop.Inv = append(loop.Inv, clause(kw))
		case "hint":
			c := clause(kw)
			if loop != nil && strings.HasPrefix(c.Expr, "loop:") {
				loop.Hints = append(loop.Hints, strings.TrimPrefix(c.Expr, "loop:"))
			} else {
				cur.Hints = append(cur.Hints, c)
			}
		case "record":
			q := clause(kw)
			i := strings.IndexAny(q.Expr, " \n")
			if i < 0 || sf.Ghosts[q.Expr[:i]] == "" {
				return fmt.Errorf("%s:%d: record needs a ghost variable", file, s.line)
			}
			r := &Record{Clause: *q, Ghost: q.Expr[:i]}
			r.Expr = strings.TrimSpace(q.Expr[i:])
			cur.Records = append(cur.Records, r)
		case "prehint":
			cur.Pre = append(cur.Pre, clause(kw))
		}
	}
	return nil
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i, c := range s {
		switch c {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if strings.TrimSpace(s[st:]) != "" {
		out = append(out, strings.TrimSpace(s[st:]))
	}
	return out
}

// parseHead parses "(*pkg/x.T).m(a, b) (r, s)".
func (c *Contract) parseHead(h string) error {
	h = strings.Join(strings.Fields(h), " ")
	h = strings.TrimPrefix(h, "func ")
	start := 0
	if strings.HasPrefix(h, "(") {
		start = strings.Index(h, ")") + 1
	}
	i := strings.Index(h[start:], "(")
	if i < 0 {
		return fmt.Errorf("bad function head %q", h)
	}
	i += start
	c.Key = strings.TrimSpace(h[:i])
	j := i + strings.Index(h[i:], ")")
	c.Params = splitTop(h[i+1 : j])
	var caps []string
	for k, p := range c.Params {
		if a := strings.IndexByte(p, '['); a >= 0 {
			for n, v := range strings.Split(strings.TrimSuffix(p[a+1:], "]"), ",") {
				c.Caps = append(c.Caps, Cap{k, n})
				caps = append(caps, strings.TrimSpace(v))
			}
			c.Params[k] = strings.TrimSpace(p[:a])
		}
	}
	c.Params = append(c.Params, caps...)
	rest := strings.TrimSpace(h[j+1:])
	if strings.HasPrefix(rest, "(") {
		c.Results = splitTop(strings.Trim(rest, "()"))
	} else if rest != "" {
		return fmt.Errorf("bad results in %q", h)
	}
	c.ident = sanitize(strings.NewReplacer("*", "", "(", "", ")", "", "/", "_", ".", "_").Replace(c.Key))
	return nil
}

var strLitRe = regexp.MustCompile(`"((?:[^"\\]|\\.)*)"`)

// zero_of("reflect.Value") is the zero value of an opaque struct type.
var zeroRe = regexp.MustCompile(`zero_of\("([^"]*)"\)`)

// offset_of("remove_Remove.config") is the offset of an embedded struct field.
var offsetRe = regexp.MustCompile(`offset_of\("([^"]*)"\)`)

// expandStrings replaces "..." literals by sequences of byte values.
func expandStrings(e string) string {
	e = offsetRe.ReplaceAllStringFunc(e, func(m string) string {
		k := offsetRe.FindStringSubmatch(m)[1]
		if f := fieldOffsets[k]; f != nil {
			return fmt.Sprint(f())
		}
		return "no_such_field_" + sanitize(k) + "()"
	})
	for a, c := range structAlias {
		if strings.Contains(e, "."+a+"_") {
			e = strings.ReplaceAll(e, "."+a+"_", "."+c+"_")
		}
	}
	e = zeroRe.ReplaceAllStringFunc(e, func(m string) string {
		return fmt.Sprintf("opq_zero(%d)", hashID(zeroRe.FindStringSubmatch(m)[1]))
	})
	return strLitRe.ReplaceAllStringFunc(e, func(m string) string {
		var s string
		fmt.Sscanf(m, "%q", &s)
		return strSeq(s)
	})
}

func strSeq(s string) string {
	if s == "" {
		return "Seq::<int>::empty()"
	}
	var sb strings.Builder
	sb.WriteString("seq![")
	for i := 0; i < len(s); i++ {
		if i > 0 {
			sb.WriteString(", ")
		}
		fmt.Fprintf(&sb, "%dint", s[i])
	}
	sb.WriteString("]")
	return sb.String()
}

// active returns the contract files needed by the files used in this run.
func (sf *SpecFile) active(used map[string]bool) (order []string) {
	seen := map[string]bool{}
	var add func(f string)
	add = func(f string) {
		if seen[f] || sf.Files[f] == nil {
			return
		}
		seen[f] = true
		for _, n := range sf.Files[f].Needs {
			add(n)
		}
		order = append(order, f)
	}
	var fs []string
	for f := range used {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		add(f)
	}
	return
}
