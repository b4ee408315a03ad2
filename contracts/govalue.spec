# Go values as documents: what eventutil.ReflectValue makes of them.
needs doc
needs reflect
builds_on C20 C05 C06

rust
pub struct GV { pub aa: Map<int, Map<int, Iface>>, pub ma: Map<int, Map<Str, Iface>> }
pub open spec fn gv(h: H) -> GV { GV { aa: h.A_any, ma: h.M_string_any } }
// A Go value is met either in an interface or through reflection.
pub enum Src { I(Iface), R(Opq) }
pub uninterp spec fn rv_rank(v: Opq) -> nat;
pub open spec fn srk(s: Src) -> nat { match s { Src::I(x) => 2 * rv_rank(rv_of(x)) + 1, Src::R(v) => 2 * rv_rank(v) } }
pub open spec fn at0(fp: Fp, r: int) -> bool { r == 0 || inn(fp, r) }
pub open spec fn rfix(v: Opq, fp: Fp) -> bool { match rv_dyn(rv_seq(v)) { Iface::V_s_any(s) => at0(fp, s.r), _ => true } }
// A struct tag: its name and options.
pub open spec fn tagv(f: S_reflect_StructField) -> Str { tag_get(f.Tag, "event") }
pub open spec fn topts(f: S_reflect_StructField) -> Seq<Str> { split(tagv(f), ",").subrange(1, split(tagv(f), ",").len() as int) }
pub open spec fn hasopt(s: Seq<Str>, o: Str) -> bool { exists|j: int| 0 <= j < s.len() && #[trigger] s[j] == o }
// The fields of a struct that are exported and not marked "-", in order.
pub open spec fn visible(t: Iface, n: int) -> Seq<S_reflect_StructField>
    decreases n
{
    if n <= 0 { Seq::empty() } else if ty_field(t, n - 1).PkgPath.len() == 0 && tagv(ty_field(t, n - 1)) != "-" { visible(t, n - 1).push(ty_field(t, n - 1)) } else { visible(t, n - 1) }
}
pub open spec fn flds(v: Opq) -> Seq<S_reflect_StructField> { visible(rv_type(v), ty_nf(rv_type(v))) }
pub open spec fn fval(v: Opq, j: int) -> Opq { rv_field(v, flds(v)[j].Name) }
// The members of a struct or map: how many, which are left out, their names and values.
pub open spec fn mb_n(v: Opq) -> int { if rv_kind(v) == 25 { flds(v).len() as int } else { rv_len(v) } }
pub open spec fn mb_in(g: GV, v: Opq, j: int) -> bool {
    !(rv_kind(v) == 25 && hasopt(topts(flds(v)[j]), "omitempty") && deep_eq(rv_iface(g.aa, fval(v, j)), rv_iface(g.aa, rv_zero(rv_type(fval(v, j))))))
}
pub open spec fn mb_name(v: Opq, j: int) -> Str {
    if rv_kind(v) == 25 { let s = split(tagv(flds(v)[j]), ",")[0]; if s.len() > 0 { s } else { to_lower(flds(v)[j].Name) } }
    else { fmt_text(Iface::V_reflect_Value(rv_mkey(v, j))) }
}
pub open spec fn mb_src(g: GV, v: Opq, j: int) -> Src { if rv_kind(v) == 25 { Src::R(fval(v, j)) } else { Src::I(rv_iface(g.aa, rv_mval(v, j))) } }
pub open spec fn mb_ok(v: Opq, j: int, fp: Fp) -> bool {
    if rv_kind(v) == 25 { !hasopt(topts(flds(v)[j]), "string") && rfix(fval(v, j), fp) && rfix(rv_zero(rv_type(fval(v, j))), fp) } else { rfix(rv_mval(v, j), fp) }
}
// The names of the first n members.
pub open spec fn mb_names(g: GV, v: Opq, n: int) -> Set<Str>
    decreases n
{
    if n <= 0 { Set::empty() } else if mb_in(g, v, n - 1) { mb_names(g, v, n - 1).insert(mb_name(v, n - 1)) } else { mb_names(g, v, n - 1) }
}
pub open spec fn ptrish(k: int) -> bool { k == 20 || k == 22 }
// The Go value s (its interfaces and maps in g, made up of memory in fp) denotes the document d.
pub open spec fn gd(g: GV, s: Src, d: Doc, fp: Fp) -> bool
    decreases d, srk(s)
{
    match s {
        Src::I(x) => match x {
            Iface::Nil => d is Null,
            Iface::V_bool(b) => d == Doc::Bool(b),
            Iface::V_float32(f) => d == Doc::Float(f),
            Iface::V_float64(f) => d == Doc::Float(f),
            Iface::V_int(n) => d == Doc::Int(n),
            Iface::V_int8(n) => d == Doc::Int(n),
            Iface::V_int16(n) => d == Doc::Int(n),
            Iface::V_int32(n) => d == Doc::Int(n),
            Iface::V_int64(n) => d == Doc::Int(n),
            Iface::V_uint(n) => d == Doc::Uint(n),
            Iface::V_uint8(n) => d == Doc::Uint(n),
            Iface::V_uint16(n) => d == Doc::Uint(n),
            Iface::V_uint32(n) => d == Doc::Uint(n),
            Iface::V_uint64(n) => d == Doc::Uint(n),
            Iface::V_uintptr(n) => d == Doc::Uint(n),
            Iface::V_string(t) => d == Doc::Text(t),
            Iface::V_time_Time(t) => d == Doc::Time(time_nanos(t)),
            Iface::V_m_string_any(r) => at0(fp, r) && match d {
                Doc::Obj(m) => {
                    &&& g.ma[r].dom() =~= m.dom()
                    &&& forall|k: Str| #[trigger] m.dom().contains(k) ==> gd(g, Src::I(g.ma[r][k]), m[k], fp)
                },
                _ => false,
            },
            _ => gd(g, Src::R(rv_of(x)), d, fp),
        },
        Src::R(v) => {
            let k = rv_kind(v);
            rfix(v, fp) && if ptrish(k) && rv_isnil(v) { d is Null }
            else if rv_err(v) { d == Doc::Text(err_text(rv_iface(g.aa, v))) }
            else if ptrish(k) { srk(Src::R(rv_elem(v))) < srk(s) && gd(g, Src::R(rv_elem(v)), d, fp) }
            else if k == 1 { d == Doc::Bool(rv_bool(v)) }
            else if 2 <= k <= 6 { d == Doc::Int(rv_int(v)) }
            else if 7 <= k <= 12 { d == Doc::Uint(rv_uint(v)) }
            else if k == 13 || k == 14 { d == Doc::Float(rv_float(v)) }
            else if k == 24 { d == Doc::Text(rv_string(v)) }
            else if k == 17 || k == 23 {
                match d {
                    Doc::Arr(e) => {
                        &&& e.len() == rv_len(v)
                        &&& forall|j: int| #![trigger e[j]] #![trigger rv_index(v, j)] 0 <= j < e.len() ==> rv_seq(rv_index(v, j)) == v && rv_pos(rv_index(v, j)) == j && rfix(rv_index(v, j), fp) && gd(g, Src::I(rv_iface(g.aa, rv_index(v, j))), e[j], fp)
                    },
                    _ => false,
                }
            }
            else if k == 25 && rv_time(v) { d == Doc::Time(time_nanos(rv_as_time(v))) }
            else if k == 21 || k == 25 {
                match d {
                    Doc::Obj(m) => {
                        &&& m.dom() =~= mb_names(g, v, mb_n(v))
                        &&& forall|j: int| #![trigger mb_src(g, v, j)] #![trigger mb_in(g, v, j)] #![trigger mb_ok(v, j, fp)] 0 <= j < mb_n(v) ==> mb_ok(v, j, fp) && (mb_in(g, v, j) ==> m.dom().contains(mb_name(v, j)) && gd(g, mb_src(g, v, j), m[mb_name(v, j)], fp))
                    },
                    _ => false,
                }
            }
            else { d is Bad }
        },
    }
}
pub open spec fn gsame_in(g: GV, g2: GV, fp: Fp) -> bool {
    &&& forall|r: int| #![trigger inn(fp, r)] #![trigger g2.aa[r]] #![trigger g2.ma[r]] inn(fp, r) ==> g.aa[r] == g2.aa[r] && g.ma[r] == g2.ma[r]
    &&& g.aa[0] == g2.aa[0] && g.ma[0] == g2.ma[0]
}
proof fn iface_same(g: GV, v: Opq, fp: Fp, g2: GV)
    ensures gsame_in(g, g2, fp) && rfix(v, fp) ==> rv_iface(g.aa, v) == rv_iface(g2.aa, v)
{ if gsame_in(g, g2, fp) && rfix(v, fp) { match rv_dyn(rv_seq(v)) { Iface::V_s_any(s) => { if s.r != 0 { assert(inn(fp, s.r)); } }, _ => {} } } }
proof fn names_have(g: GV, v: Opq, n: int)
    ensures
        forall|k: Str| mb_names(g, v, n).contains(k) ==> exists|j: int| #![trigger mb_src(g, v, j)] #![trigger mb_in(g, v, j)] 0 <= j < n && mb_in(g, v, j) && mb_name(v, j) == k,
        forall|j: int| #![trigger mb_src(g, v, j)] #![trigger mb_in(g, v, j)] 0 <= j < n && mb_in(g, v, j) ==> mb_names(g, v, n).contains(mb_name(v, j)),
    decreases n
{
    if n > 0 {
        names_have(g, v, n - 1);
        assert forall|k: Str| mb_names(g, v, n).contains(k) implies exists|j: int| #![trigger mb_src(g, v, j)] #![trigger mb_in(g, v, j)] 0 <= j < n && mb_in(g, v, j) && mb_name(v, j) == k by {
            if mb_names(g, v, n - 1).contains(k) {} else { assert(mb_src(g, v, n - 1) == mb_src(g, v, n - 1)); }
        }
    }
}
proof fn names_same(g: GV, v: Opq, n: int, fp: Fp, g2: GV)
    requires gsame_in(g, g2, fp), forall|j: int| #![trigger mb_src(g, v, j)] #![trigger mb_in(g, v, j)] #![trigger mb_ok(v, j, fp)] 0 <= j < n ==> mb_ok(v, j, fp)
    ensures mb_names(g, v, n) == mb_names(g2, v, n), forall|j: int| 0 <= j < n ==> mb_in(g, v, j) == #[trigger] mb_in(g2, v, j), forall|j: int| 0 <= j < n ==> mb_src(g, v, j) == #[trigger] mb_src(g2, v, j)
    decreases n
{
    if n > 0 {
        names_same(g, v, n - 1, fp, g2);
        assert(mb_src(g, v, n - 1) == mb_src(g, v, n - 1));
        if rv_kind(v) == 25 { iface_same(g, fval(v, n - 1), fp, g2); iface_same(g, rv_zero(rv_type(fval(v, n - 1))), fp, g2); } else { iface_same(g, rv_mval(v, n - 1), fp, g2); }
    }
}
proof fn gd_one(g: GV, s: Src, d: Doc, fp: Fp, d2: Doc, fp2: Fp)
    ensures gd(g, s, d, fp) && gd(g, s, d2, fp2) ==> d == d2
    decreases d, srk(s)
{
    if gd(g, s, d, fp) && gd(g, s, d2, fp2) {
        match s {
            Src::I(x) => match x {
                Iface::V_m_string_any(r) => {
                    let (m, m2) = (d->Obj_0, d2->Obj_0);
                    assert forall|k: Str| #[trigger] m.dom().contains(k) implies m[k] == m2[k] by { gd_one(g, Src::I(g.ma[r][k]), m[k], fp, m2[k], fp2); }
                    assert(m =~= m2);
                },
                Iface::Nil => {}, Iface::V_bool(b) => {}, Iface::V_float32(f) => {}, Iface::V_float64(f) => {}, Iface::V_int(n) => {}, Iface::V_int8(n) => {}, Iface::V_int16(n) => {}, Iface::V_int32(n) => {}, Iface::V_int64(n) => {},
                Iface::V_uint(n) => {}, Iface::V_uint8(n) => {}, Iface::V_uint16(n) => {}, Iface::V_uint32(n) => {}, Iface::V_uint64(n) => {}, Iface::V_uintptr(n) => {}, Iface::V_string(t) => {}, Iface::V_time_Time(t) => {},
                _ => { gd_one(g, Src::R(rv_of(x)), d, fp, d2, fp2); },
            },
            Src::R(v) => {
                let k = rv_kind(v);
                if ptrish(k) && rv_isnil(v) || rv_err(v) {}
                else if ptrish(k) { gd_one(g, Src::R(rv_elem(v)), d, fp, d2, fp2); }
                else if k == 17 || k == 23 {
                    let (e, e2) = (d->Arr_0, d2->Arr_0);
                    assert forall|j: int| 0 <= j < e.len() implies e[j] == e2[j] by { gd_one(g, Src::I(rv_iface(g.aa, rv_index(v, j))), e[j], fp, e2[j], fp2); }
                    assert(e =~= e2);
                }
                else if k == 25 && rv_time(v) {}
                else if k == 21 || k == 25 {
                    let (m, m2) = (d->Obj_0, d2->Obj_0);
                    names_have(g, v, mb_n(v));
                    assert forall|k: Str| #[trigger] m.dom().contains(k) implies m[k] == m2[k] by {
                        let j = choose|j: int| #![trigger mb_src(g, v, j)] #![trigger mb_in(g, v, j)] 0 <= j < mb_n(v) && mb_in(g, v, j) && mb_name(v, j) == k;
                        gd_one(g, mb_src(g, v, j), m[k], fp, m2[k], fp2);
                    }
                    assert(m =~= m2);
                }
            },
        }
    }
}
proof fn gd_mono(g: GV, s: Src, d: Doc, fp: Fp, g2: GV, fp2: Fp)
    ensures gd(g, s, d, fp) && gsame_in(g, g2, fp) && fp_sub(fp, fp2) ==> gd(g2, s, d, fp2)
    decreases d, srk(s)
{
    if gd(g, s, d, fp) && gsame_in(g, g2, fp) && fp_sub(fp, fp2) {
        match s {
            Src::I(x) => match x {
                Iface::V_m_string_any(r) => {
                    let m = d->Obj_0;
                    if r != 0 { assert(inn(fp, r)); }
                    assert forall|k: Str| #[trigger] m.dom().contains(k) implies gd(g2, Src::I(g2.ma[r][k]), m[k], fp2) by { gd_mono(g, Src::I(g.ma[r][k]), m[k], fp, g2, fp2); }
                },
                Iface::Nil => {}, Iface::V_bool(b) => {}, Iface::V_float32(f) => {}, Iface::V_float64(f) => {}, Iface::V_int(n) => {}, Iface::V_int8(n) => {}, Iface::V_int16(n) => {}, Iface::V_int32(n) => {}, Iface::V_int64(n) => {},
                Iface::V_uint(n) => {}, Iface::V_uint8(n) => {}, Iface::V_uint16(n) => {}, Iface::V_uint32(n) => {}, Iface::V_uint64(n) => {}, Iface::V_uintptr(n) => {}, Iface::V_string(t) => {}, Iface::V_time_Time(t) => {},
                _ => { gd_mono(g, Src::R(rv_of(x)), d, fp, g2, fp2); },
            },
            Src::R(v) => {
                let k = rv_kind(v);
                iface_same(g, v, fp, g2);
                if ptrish(k) && rv_isnil(v) || rv_err(v) {}
                else if ptrish(k) { gd_mono(g, Src::R(rv_elem(v)), d, fp, g2, fp2); }
                else if k == 17 || k == 23 {
                    let e = d->Arr_0;
                    assert forall|j: int| #![trigger e[j]] #![trigger rv_index(v, j)] 0 <= j < e.len() implies rv_seq(rv_index(v, j)) == v && rv_pos(rv_index(v, j)) == j && rfix(rv_index(v, j), fp2) && gd(g2, Src::I(rv_iface(g2.aa, rv_index(v, j))), e[j], fp2) by {
                        assert(e[j] == e[j]); iface_same(g, rv_index(v, j), fp, g2); gd_mono(g, Src::I(rv_iface(g.aa, rv_index(v, j))), e[j], fp, g2, fp2);
                    }
                }
                else if k == 25 && rv_time(v) {}
                else if k == 21 || k == 25 {
                    let m = d->Obj_0;
                    names_same(g, v, mb_n(v), fp, g2);
                    assert forall|j: int| #![trigger mb_src(g2, v, j)] #![trigger mb_in(g2, v, j)] 0 <= j < mb_n(v) implies mb_ok(v, j, fp2) && (mb_in(g2, v, j) ==> m.dom().contains(mb_name(v, j)) && gd(g2, mb_src(g2, v, j), m[mb_name(v, j)], fp2)) by {
                        assert(mb_src(g, v, j) == mb_src(g2, v, j));
                        if mb_in(g, v, j) { gd_mono(g, mb_src(g, v, j), m[mb_name(v, j)], fp, g2, fp2); }
                        assert(mb_in(g2, v, j) == mb_in(g2, v, j));
                    }
                }
            },
        }
    }
}
pub open spec fn isg(g: GV, s: Src, fp: Fp) -> bool { exists|d: Doc| gd(g, s, d, fp) }
pub open spec fn gof(g: GV, s: Src, fp: Fp) -> Doc { choose|d: Doc| gd(g, s, d, fp) }
// The value s denotes d, and it is the document the contracts speak of.
pub open spec fn isgd(h: H, s: Src, d: Doc) -> bool { gd(gv(h), s, d, below(h.alloc)) && isg(gv(h), s, below(h.alloc)) && gof(gv(h), s, below(h.alloc)) == d }
pub open spec fn gdoc(h: H, s: Src) -> Doc { gof(gv(h), s, below(h.alloc)) }
proof fn isgd_mono(h: H, s: Src, d: Doc, h2: H)
    ensures gd(gv(h), s, d, below(h.alloc)) && gsame_in(gv(h), gv(h2), below(h.alloc)) && h.alloc <= h2.alloc ==> isgd(h2, s, d)
{
    if gd(gv(h), s, d, below(h.alloc)) && gsame_in(gv(h), gv(h2), below(h.alloc)) && h.alloc <= h2.alloc {
        gd_mono(gv(h), s, d, below(h.alloc), gv(h2), below(h2.alloc));
        assert(isg(gv(h2), s, below(h2.alloc)));
        gd_one(gv(h2), s, d, below(h2.alloc), gdoc(h2, s), below(h2.alloc));
    }
}
pub open spec fn plain(x: Iface) -> bool { x is Nil || basic(x) && !(x is V_s_any) || x is V_time_Time || x is V_m_string_any }
// The parts of a Go value denote the parts of its document, also in h2.
proof fn gd_parts(h: H, s: Src, h2: H)
    ensures
        isg(gv(h), s, below(h.alloc)) && gsame_in(gv(h), gv(h2), below(h.alloc)) && h.alloc <= h2.alloc ==> {
            let d = gdoc(h, s);
            &&& gd(gv(h), s, d, below(h.alloc)) && isgd(h2, s, d)
            &&& match s {
                Src::I(x) => {
                    &&& x is V_m_string_any ==> d is Obj && gv(h).ma[x->V_m_string_any_0].dom() =~= d->Obj_0.dom() && gv(h2).ma[x->V_m_string_any_0] == gv(h).ma[x->V_m_string_any_0]
                        && forall|k: Str| #![trigger gv(h).ma[x->V_m_string_any_0][k]] #![trigger d->Obj_0.dom().contains(k)] d->Obj_0.dom().contains(k) ==> isgd(h2, Src::I(gv(h).ma[x->V_m_string_any_0][k]), d->Obj_0[k])
                    &&& !plain(x) ==> isgd(h2, Src::R(rv_of(x)), d)
                },
                Src::R(v) => {
                    let k = rv_kind(v);
                    &&& rfix(v, below(h.alloc)) && rv_iface(h2.A_any, v) == rv_iface(h.A_any, v)
                    &&& ptrish(k) && !rv_isnil(v) && !rv_err(v) ==> isgd(h2, Src::R(rv_elem(v)), d)
                    &&& (k == 17 || k == 23) && !rv_err(v) ==> d is Arr && d->Arr_0.len() == rv_len(v)
                        && forall|j: int| #![trigger rv_index(v, j)] 0 <= j < rv_len(v) ==> rv_iface(h2.A_any, rv_index(v, j)) == rv_iface(h.A_any, rv_index(v, j)) && isgd(h2, Src::I(rv_iface(h.A_any, rv_index(v, j))), d->Arr_0[j])
                    &&& (k == 21 || k == 25 && !rv_time(v)) && !rv_err(v) ==> d is Obj && d->Obj_0.dom() =~= mb_names(gv(h), v, mb_n(v))
                        && forall|j: int| #![trigger mb_src(gv(h), v, j)] #![trigger mb_in(gv(h), v, j)] 0 <= j < mb_n(v) ==> mb_ok(v, j, below(h.alloc)) && mb_src(gv(h2), v, j) == mb_src(gv(h), v, j) && mb_in(gv(h2), v, j) == mb_in(gv(h), v, j)
                            && (mb_in(gv(h), v, j) ==> d->Obj_0.dom().contains(mb_name(v, j)) && isgd(h2, mb_src(gv(h), v, j), d->Obj_0[mb_name(v, j)]))
                },
            }
        },
{
    if isg(gv(h), s, below(h.alloc)) && gsame_in(gv(h), gv(h2), below(h.alloc)) && h.alloc <= h2.alloc {
        let d = gdoc(h, s);
        assert(gd(gv(h), s, d, below(h.alloc)));
        isgd_mono(h, s, d, h2);
        match s {
            Src::I(x) => {
                if x is V_m_string_any {
                    let r = x->V_m_string_any_0;
                    if r != 0 { assert(inn(below(h.alloc), r)); }
                    let m = d->Obj_0;
                    assert forall|k: Str| #![trigger gv(h).ma[r][k]] #![trigger m.dom().contains(k)] m.dom().contains(k) implies isgd(h2, Src::I(gv(h).ma[r][k]), m[k]) by { isgd_mono(h, Src::I(gv(h).ma[r][k]), m[k], h2); }
                }
                if !plain(x) { isgd_mono(h, Src::R(rv_of(x)), d, h2); }
            },
            Src::R(v) => {
                let k = rv_kind(v);
                iface_same(gv(h), v, below(h.alloc), gv(h2));
                if ptrish(k) && !rv_isnil(v) && !rv_err(v) { isgd_mono(h, Src::R(rv_elem(v)), d, h2); }
                if (k == 17 || k == 23) && !rv_err(v) {
                    let e = d->Arr_0;
                    assert forall|j: int| #![trigger rv_index(v, j)] 0 <= j < rv_len(v) implies rv_iface(h2.A_any, rv_index(v, j)) == rv_iface(h.A_any, rv_index(v, j)) && isgd(h2, Src::I(rv_iface(h.A_any, rv_index(v, j))), e[j]) by {
                        iface_same(gv(h), rv_index(v, j), below(h.alloc), gv(h2)); isgd_mono(h, Src::I(rv_iface(h.A_any, rv_index(v, j))), e[j], h2);
                    }
                }
                if (k == 21 || k == 25 && !rv_time(v)) && !rv_err(v) {
                    let m = d->Obj_0;
                    names_same(gv(h), v, mb_n(v), below(h.alloc), gv(h2));
                    assert forall|j: int| #![trigger mb_src(gv(h), v, j)] #![trigger mb_in(gv(h), v, j)] 0 <= j < mb_n(v) implies mb_ok(v, j, below(h.alloc)) && mb_src(gv(h2), v, j) == mb_src(gv(h), v, j) && mb_in(gv(h2), v, j) == mb_in(gv(h), v, j)
                        && (mb_in(gv(h), v, j) ==> m.dom().contains(mb_name(v, j)) && isgd(h2, mb_src(gv(h), v, j), m[mb_name(v, j)])) by {
                        assert(mb_src(gv(h2), v, j) == mb_src(gv(h), v, j)); assert(mb_in(gv(h2), v, j) == mb_in(gv(h), v, j));
                        if mb_in(gv(h), v, j) { isgd_mono(h, mb_src(gv(h), v, j), m[mb_name(v, j)], h2); }
                    }
                }
            },
        }
    }
}
pub open spec fn timev(v: Opq) -> Src { Src::I(Iface::V_time_Time(rv_as_time(v))) }
// Iterators that existed before are where they were.
pub open spec fn itkept(h: H, h2: H) -> bool { forall|x: int| #![trigger h2.mapiter_of[x]] #![trigger h2.mapiter_pos[x]] 0 <= x < h.alloc ==> h2.mapiter_of[x] == h.mapiter_of[x] && h2.mapiter_pos[x] == h.mapiter_pos[x] }
proof fn gd_steps(h: H)
    ensures
        forall|x: Iface| #![trigger rv_of(x)] !plain(x) && isg(gv(h), Src::I(x), below(h.alloc)) ==> isg(gv(h), Src::R(rv_of(x)), below(h.alloc)) && gdoc(h, Src::R(rv_of(x))) == gdoc(h, Src::I(x)),
        forall|v: Opq| #![trigger rv_elem(v)] ptrish(rv_kind(v)) && !rv_isnil(v) && !rv_err(v) && isg(gv(h), Src::R(v), below(h.alloc)) ==> isg(gv(h), Src::R(rv_elem(v)), below(h.alloc)) && gdoc(h, Src::R(rv_elem(v))) == gdoc(h, Src::R(v)),
        forall|v: Opq| #![trigger rv_as_time(v)] isg(gv(h), timev(v), below(h.alloc)) && gdoc(h, timev(v)) == Doc::Time(time_nanos(rv_as_time(v))),
{
    assert forall|x: Iface| #![trigger rv_of(x)] !plain(x) && isg(gv(h), Src::I(x), below(h.alloc)) implies isg(gv(h), Src::R(rv_of(x)), below(h.alloc)) && gdoc(h, Src::R(rv_of(x))) == gdoc(h, Src::I(x)) by { gd_parts(h, Src::I(x), h); }
    assert forall|v: Opq| #![trigger rv_elem(v)] ptrish(rv_kind(v)) && !rv_isnil(v) && !rv_err(v) && isg(gv(h), Src::R(v), below(h.alloc)) implies isg(gv(h), Src::R(rv_elem(v)), below(h.alloc)) && gdoc(h, Src::R(rv_elem(v))) == gdoc(h, Src::R(v)) by { gd_parts(h, Src::R(v), h); }
    assert forall|v: Opq| #![trigger rv_as_time(v)] isg(gv(h), timev(v), below(h.alloc)) && gdoc(h, timev(v)) == Doc::Time(time_nanos(rv_as_time(v))) by {
        let d = Doc::Time(time_nanos(rv_as_time(v)));
        assert(gd(gv(h), timev(v), d, below(h.alloc)));
        gd_one(gv(h), timev(v), d, below(h.alloc), gdoc(h, timev(v)), below(h.alloc));
    }
}
proof fn visible_from(t: Iface, n: int)
    ensures forall|j: int| #![trigger visible(t, n)[j]] 0 <= j < visible(t, n).len() ==> exists|i: int| 0 <= i < n && visible(t, n)[j] == #[trigger] ty_field(t, i)
    decreases n
{
    if n > 0 {
        visible_from(t, n - 1);
        assert forall|j: int| #![trigger visible(t, n)[j]] 0 <= j < visible(t, n).len() implies exists|i: int| 0 <= i < n && visible(t, n)[j] == #[trigger] ty_field(t, i) by {
            if j < visible(t, n - 1).len() { assert(visible(t, n)[j] == visible(t, n - 1)[j]); } else { assert(visible(t, n)[j] == ty_field(t, n - 1)); }
        }
    }
}
// The first n members of m are clean.
pub open spec fn mb_clean(g: GV, v: Opq, m: Map<Str, Doc>, n: int) -> bool { forall|j: int| #![trigger mb_src(g, v, j)] #![trigger mb_in(g, v, j)] 0 <= j < n && mb_in(g, v, j) ==> clean(m[mb_name(v, j)]) }
proof fn mb_all_clean(g: GV, v: Opq, m: Map<Str, Doc>)
    ensures mb_clean(g, v, m, mb_n(v)) && m.dom() =~= mb_names(g, v, mb_n(v)) ==> clean(Doc::Obj(m))
{
    if mb_clean(g, v, m, mb_n(v)) && m.dom() =~= mb_names(g, v, mb_n(v)) {
        names_have(g, v, mb_n(v));
        assert forall|k: Str| #[trigger] m.dom().contains(k) implies clean(m[k]) by {
            let j = choose|j: int| #![trigger mb_src(g, v, j)] #![trigger mb_in(g, v, j)] 0 <= j < mb_n(v) && mb_in(g, v, j) && mb_name(v, j) == k;
            assert(clean(m[mb_name(v, j)]));
        }
    }
}
pub open spec fn unsupported(e: Iface) -> bool
    decreases e
{
    match e { Iface::WrapErr(_, b) => unsupported(*b), Iface::V_p_eventutil_UnsupportedTypeError(p) => p != 0, _ => false }
}
// The elements or fields of r are not nil.
pub open spec fn nonil_first(h: H, s: Slice, n: int) -> bool { forall|j: int| 0 <= j < n ==> #[trigger] slseq(h.A_p_event_Value, s)[j] != 0 }
pub open spec fn nonil_items(h: H, s: Slice) -> bool { forall|j: int| 0 <= j < s.l ==> #[trigger] slseq(h.A_p_event_Value, s)[j] != 0 }
pub open spec fn nonil_fields(h: H, f: int) -> bool { forall|k: Str| #[trigger] h.M_string_p_event_Value[f].dom().contains(k) ==> h.M_string_p_event_Value[f][k] != 0 }
pub open spec fn nonil(h: H, r: int) -> bool { (h.event_Value_Type[r] == 1 ==> nonil_items(h, h.event_Value_Array[r])) && (h.event_Value_Type[r] == 5 ==> nonil_fields(h, h.event_Value_Object[r])) }
// What the call from h to h2 must return for the value s.
pub open spec fn converted(h: H, h2: H, s: Src, r: int, err: Iface) -> bool {
    if clean(gdoc(h, s)) { err is Nil && r != 0 && nonil(h2, r) && rep(vv(h2), r, gdoc(h, s), room(h.alloc, h2.alloc, 0, 0, 0)) } else { r == 0 && unsupported(err) }
}
end rust

rust
// v took over the content of r.
proof fn taken(h: H, h1: H, h2: H, v: int, r: int, d: Doc)
    ensures
        r != 0 && rep(vv(h1), r, d, room(h.alloc, h1.alloc, 0, 0, 0)) && 0 < v && v + toff() < h.alloc && v != glob_event_NullValue() && h.alloc <= h1.alloc <= h2.alloc
        && same_docs(vv(h1), vv(h2), room(h.alloc, h1.alloc, 0, 0, 0))
        && vv(h2).ty[v] == vv(h1).ty[r] && vv(h2).b[v] == vv(h1).b[r] && vv(h2).f[v] == vv(h1).f[r] && vv(h2).i[v] == vv(h1).i[r] && vv(h2).s[v] == vv(h1).s[r]
        && vv(h2).t[v + toff()] == vv(h1).t[r + toff()] && vv(h2).u[v] == vv(h1).u[r] && vv(h2).ar[v] == vv(h1).ar[r] && vv(h2).ob[v] == vv(h1).ob[r]
        ==> rep(vv(h2), v, d, below(h2.alloc)),
{
    let fp = room(h.alloc, h1.alloc, 0, 0, 0);
    let fp2 = below(h2.alloc);
    if r != 0 && rep(vv(h1), r, d, fp) && 0 < v && v + toff() < h.alloc && h.alloc <= h1.alloc <= h2.alloc && same_docs(vv(h1), vv(h2), fp) {
        assert(toff() >= 0 && inn(fp2, v) && inn(fp2, v + toff()));
        assert(fp_sub(fp, fp2));
        match d {
            Doc::Arr(s) => {
                assert forall|j: int| 0 <= j < s.len() implies rep(vv(h2), vel(vv(h1), r)[j], s[j], fp2) by { assert(vel(vv(h1), r)[j] == vel(vv(h1), r)[j]); rep_mono(vv(h1), vel(vv(h1), r)[j], s[j], fp, vv(h2), fp2); }
                if vv(h1).ar[r].r != 0 { assert(inn(fp, vv(h1).ar[r].r)); }
                if vv(h2).ar[v] == vv(h1).ar[r] { assert(vel(vv(h2), v) =~= vel(vv(h1), r)); }
            },
            Doc::Obj(m) => {
                if vv(h1).ob[r] != 0 { assert(inn(fp, vv(h1).ob[r])); }
                assert forall|k: Str| #[trigger] m.dom().contains(k) implies rep(vv(h2), vv(h1).m[vv(h1).ob[r]][k], m[k], fp2) by { rep_mono(vv(h1), vv(h1).m[vv(h1).ob[r]][k], m[k], fp, vv(h2), fp2); }
            },
            _ => {},
        }
    }
}
end rust

func pkg/eventutil.ReflectValue(v) (r, err)
  modifies mapiter_of mapiter_pos
  requires nullok(h) && isg(gv(h), Src::I(v), below(h.alloc))
  prehint isgd_mono(h0, Src::I(v), gdoc(h0, Src::I(v)), h);
  ensures @C18,C20 [the value has the type and content of the Go value, unsupported types are an error] converted(h, h2, Src::I(v), r, err)
  ensures nullok(h2) && itkept(h, h2)

func (*pkg/config.EventValue).Unpack(v, ifc) (err)
  modifies mapiter_of mapiter_pos event_Value_Type event_Value_Bytes event_Value_String event_Value_Array event_Value_Object event_Value_Bool event_Value_Integer event_Value_Float event_Value_UnsignedInteger event_Time_UnixNanos
  requires 0 < v && v + toff() < h.alloc && v != glob_event_NullValue() && nullok(h) && isg(gv(h), Src::I(ifc), below(h.alloc))
  ensures @C20 [an option that is an event value takes over what ReflectValue makes of the option] if clean(gdoc(h, Src::I(ifc))) { err is Nil && rep(vv(h2), v, gdoc(h, Src::I(ifc)), below(h2.alloc)) } else { unsupported(err) }
  hint if did_ReflectValue { isgd_mono(h, Src::I(ifc), gdoc(h, Src::I(ifc)), ReflectValue_h); taken(ReflectValue_h, ReflectValue_h2, h2, v, ReflectValue_r, gdoc(h, Src::I(ifc))); }

macro ARR gdoc(h0, Src::R(rv))->Arr_0
macro MEM gdoc(h0, Src::R(rv))->Obj_0

func pkg/eventutil.interfaceToValue(ifc) (r, err)
  modifies mapiter_of mapiter_pos
  requires nullok(h) && isg(gv(h), Src::I(ifc), below(h.alloc))
  prehint gd_steps(h0); isgd_mono(h0, Src::I(ifc), gdoc(h0, Src::I(ifc)), h);
  ensures @C18,C20 [the value has the type and content of the Go value, unsupported types are an error] converted(h, h2, Src::I(ifc), r, err)
  ensures nullok(h2) && itkept(h, h2)
  loop fields(set done, dom all, var obj map[string]*pkg/event.Value)
    invariant ifc is V_m_string_any && done.subset_of(all) && gdoc(h0, Src::I(ifc)) is Obj && all =~= gdoc(h0, Src::I(ifc))->Obj_0.dom() && obj >= h0.alloc
    invariant nullok(h) && itkept(h0, h) && (forall|r: int| 0 <= r < h0.alloc ==> #[trigger] h.M_string_p_event_Value[r] == h0.M_string_p_event_Value[r]) && (forall|r: int| 0 <= r < h0.alloc ==> #[trigger] h.A_any[r] == h0.A_any[r])
    invariant forall|k: Str| #[trigger] all.contains(k) ==> isgd(h0, Src::I(gv(h0).ma[ifc->V_m_string_any_0][k]), gdoc(h0, Src::I(ifc))->Obj_0[k])
    invariant nonil_fields(h, obj) && made_fields(h, obj, gdoc(h0, Src::I(ifc))->Obj_0, done, h0.alloc) && forall|k: Str| #[trigger] done.contains(k) ==> clean(gdoc(h0, Src::I(ifc))->Obj_0[k])
    hint loop: gd_parts(h0, Src::I(ifc), h0); if !established { made_fields_kept(h_p, obj_p, gdoc(h0, Src::I(ifc))->Obj_0, done_p, h0.alloc, h, room(h0.alloc, h.alloc, obj, 0, 0)); isgd_mono(h0, Src::I(interfaceToValue_ifc), gdoc(h0, Src::I(interfaceToValue_ifc)), interfaceToValue_h); rmade(interfaceToValue_h, interfaceToValue_h2, interfaceToValue_r, gdoc(interfaceToValue_h, Src::I(interfaceToValue_ifc)), h, room(h0.alloc, h.alloc, obj, 0, 0)); }
  hint gd_parts(h, Src::I(ifc), h); if did_interfaceToValue { isgd_mono(h, Src::I(interfaceToValue_ifc), gdoc(h, Src::I(interfaceToValue_ifc)), interfaceToValue_h); }
    if did_reflectToValue { isgd_mono(h, Src::R(reflectToValue_rv), gdoc(h, Src::R(reflectToValue_rv)), reflectToValue_h); rmade(reflectToValue_h, reflectToValue_h2, reflectToValue_r, gdoc(h, Src::I(ifc)), h2, room(h.alloc, h2.alloc, 0, 0, 0)); }
    made_fields_kept(h_fields, fields_obj, gdoc(h, Src::I(ifc))->Obj_0, fields_done, h.alloc, h2, room(h.alloc, h2.alloc, 0, 0, 0));

func pkg/eventutil.reflectToValue(rv) (r, err)
  modifies mapiter_of mapiter_pos
  requires nullok(h) && rv_ok(rv) && isg(gv(h), Src::R(rv), below(h.alloc))
  prehint gd_steps(h0); isgd_mono(h0, Src::R(rv), gdoc(h0, Src::R(rv)), h);
  ensures @C18,C20 [the value has the type and content of the Go value, unsupported types are an error] converted(h, h2, Src::R(rv), r, err)
  ensures nullok(h2) && itkept(h, h2)
  loop items(idx i, var values []*pkg/event.Value, fixed fx values)
    invariant !rv_err(rv) && (rv_kind(rv) == 17 || rv_kind(rv) == 23) && gdoc(h0, Src::R(rv)) is Arr && $ARR.len() == rv_len(rv) && 0 <= i && (i <= rv_len(rv) || i == 0)
    invariant nullok(h) && itkept(h0, h) && (values.r == 0 || values.r >= h0.alloc) && (forall|r: int| 0 <= r < h0.alloc ==> #[trigger] h.A_p_event_Value[r] == h0.A_p_event_Value[r]) && (forall|r: int| 0 <= r < h0.alloc ==> #[trigger] h.A_any[r] == h0.A_any[r])
    invariant i < rv_len(rv) ==> isgd(h0, Src::I(rv_iface(h0.A_any, rv_index(rv, i))), $ARR[i]) && rv_iface(h.A_any, rv_index(rv, i)) == rv_iface(h0.A_any, rv_index(rv, i))
    invariant nonil_first(h, values, i) && made_items(h, values, fx, $ARR, i, h0.alloc) && forall|j: int| 0 <= j < i ==> clean(#[trigger] $ARR[j])
    hint loop: gd_parts(h0, Src::R(rv), h); gd_parts(h0, Src::R(rv), h0); assert(rv_index(rv, i) == rv_index(rv, i)); if !established { made_items_kept(h_p, values_p, fx, $ARR, i_p, h0.alloc, h, room(h0.alloc, h.alloc, values.r, 0, 0)); isgd_mono(h0, Src::I(interfaceToValue_ifc), $ARR[i_p], interfaceToValue_h); rmade(interfaceToValue_h, interfaceToValue_h2, interfaceToValue_r, $ARR[i_p], h, room(h0.alloc, h.alloc, values.r, 0, 0)); let old = slseq(h_p.A_p_event_Value, values_p); assert(slseq(h.A_p_event_Value, values) =~= (if fx { old.update(i_p, interfaceToValue_r) } else { old.push(interfaceToValue_r) })); }
  hint gd_parts(h, Src::R(rv), h); if in_items && did_interfaceToValue { isgd_mono(h, Src::I(interfaceToValue_ifc), gdoc(h, Src::I(interfaceToValue_ifc)), interfaceToValue_h); }
    if in_items { made_items_kept(h_items, items_values, items_fx, gdoc(h, Src::R(rv))->Arr_0, items_i, h.alloc, h2, room(h.alloc, h2.alloc, 0, 0, 0)); }

func pkg/eventutil.reflectSliceToArray(rv) (r, err)
  modifies mapiter_of mapiter_pos
  requires nullok(h) && rv_ok(rv) && isg(gv(h), Src::R(rv), below(h.alloc)) && !rv_err(rv) && (rv_kind(rv) == 17 || rv_kind(rv) == 23)
  ensures @C18,C20 [slices and arrays become arrays, element by element] converted(h, h2, Src::R(rv), r, err)
  ensures nullok(h2) && itkept(h, h2)
  loop items(idx i, var values []*pkg/event.Value, fixed fx values)
    invariant gdoc(h0, Src::R(rv)) is Arr && $ARR.len() == rv_len(rv) && 0 <= i && (i <= rv_len(rv) || i == 0)
    invariant nullok(h) && itkept(h0, h) && (values.r == 0 || values.r >= h0.alloc) && (forall|r: int| 0 <= r < h0.alloc ==> #[trigger] h.A_p_event_Value[r] == h0.A_p_event_Value[r]) && (forall|r: int| 0 <= r < h0.alloc ==> #[trigger] h.A_any[r] == h0.A_any[r])
    invariant i < rv_len(rv) ==> isgd(h0, Src::I(rv_iface(h0.A_any, rv_index(rv, i))), $ARR[i]) && rv_iface(h.A_any, rv_index(rv, i)) == rv_iface(h0.A_any, rv_index(rv, i))
    invariant nonil_first(h, values, i) && made_items(h, values, fx, $ARR, i, h0.alloc) && forall|j: int| 0 <= j < i ==> clean(#[trigger] $ARR[j])
    hint loop: gd_parts(h0, Src::R(rv), h); gd_parts(h0, Src::R(rv), h0); assert(rv_index(rv, i) == rv_index(rv, i)); if !established { made_items_kept(h_p, values_p, fx, $ARR, i_p, h0.alloc, h, room(h0.alloc, h.alloc, values.r, 0, 0)); isgd_mono(h0, Src::I(interfaceToValue_ifc), $ARR[i_p], interfaceToValue_h); rmade(interfaceToValue_h, interfaceToValue_h2, interfaceToValue_r, $ARR[i_p], h, room(h0.alloc, h.alloc, values.r, 0, 0)); let old = slseq(h_p.A_p_event_Value, values_p); assert(slseq(h.A_p_event_Value, values) =~= (if fx { old.update(i_p, interfaceToValue_r) } else { old.push(interfaceToValue_r) })); }
  hint gd_parts(h, Src::R(rv), h); if did_interfaceToValue { isgd_mono(h, Src::I(interfaceToValue_ifc), gdoc(h, Src::I(interfaceToValue_ifc)), interfaceToValue_h); }
    made_items_kept(h_items, items_values, items_fx, gdoc(h, Src::R(rv))->Arr_0, items_i, h.alloc, h2, room(h.alloc, h2.alloc, 0, 0, 0));

func pkg/eventutil.reflectMapToObject(rv) (r, err)
  modifies mapiter_of mapiter_pos
  requires nullok(h) && rv_ok(rv) && isg(gv(h), Src::R(rv), below(h.alloc)) && !rv_err(rv) && rv_kind(rv) == 21
  ensures @C18,C20 [maps become objects, entry by entry] converted(h, h2, Src::R(rv), r, err)
  ensures nullok(h2) && itkept(h, h2)
  loop entries(var m *reflect.MapIter, var obj map[string]*pkg/event.Value)
    invariant gdoc(h0, Src::R(rv)) is Obj && m >= h0.alloc && obj >= h0.alloc && h.mapiter_of[m] == rv && 0 <= h.mapiter_pos[m] && (h.mapiter_pos[m] <= rv_len(rv) || h.mapiter_pos[m] == 0)
    invariant nullok(h) && itkept(h0, h) && (forall|r: int| 0 <= r < h0.alloc ==> #[trigger] h.M_string_p_event_Value[r] == h0.M_string_p_event_Value[r]) && (forall|r: int| 0 <= r < h0.alloc ==> #[trigger] h.A_any[r] == h0.A_any[r])
    invariant h.mapiter_pos[m] < rv_len(rv) ==> isgd(h0, Src::I(rv_iface(h0.A_any, rv_mval(rv, h.mapiter_pos[m]))), $MEM[mb_name(rv, h.mapiter_pos[m])])
    invariant nonil_fields(h, obj) && made_fields(h, obj, $MEM, mb_names(gv(h0), rv, h.mapiter_pos[m]), h0.alloc) && mb_clean(gv(h0), rv, $MEM, h.mapiter_pos[m])
    hint loop: gd_parts(h0, Src::R(rv), h0); assert(mb_in(gv(h0), rv, h.mapiter_pos[m])); if !established { made_fields_kept(h_p, obj_p, $MEM, mb_names(gv(h0), rv, h_p.mapiter_pos[m]), h0.alloc, h, room(h0.alloc, h.alloc, obj, 0, 0)); isgd_mono(h0, Src::I(interfaceToValue_ifc), gdoc(h0, Src::I(interfaceToValue_ifc)), interfaceToValue_h); rmade(interfaceToValue_h, interfaceToValue_h2, interfaceToValue_r, gdoc(h0, Src::I(interfaceToValue_ifc)), h, room(h0.alloc, h.alloc, obj, 0, 0)); }
  hint gd_parts(h, Src::R(rv), h); if did_interfaceToValue { isgd_mono(h, Src::I(interfaceToValue_ifc), gdoc(h, Src::I(interfaceToValue_ifc)), interfaceToValue_h); }
    if did_interfaceToValue && !(err is Nil) { assert(mb_in(gv(h), rv, h_entries.mapiter_pos[entries_m])); assert(gdoc(h, Src::R(rv))->Obj_0.dom().contains(mb_name(rv, h_entries.mapiter_pos[entries_m]))); }
    mb_all_clean(gv(h), rv, gdoc(h, Src::R(rv))->Obj_0); made_fields_kept(h_entries, entries_obj, gdoc(h, Src::R(rv))->Obj_0, mb_names(gv(h), rv, h_entries.mapiter_pos[entries_m]), h.alloc, h2, room(h.alloc, h2.alloc, 0, 0, 0));

func pkg/eventutil.reflectStructToObject(rv) (r, err)
  modifies mapiter_of mapiter_pos
  requires nullok(h) && rv_ok(rv) && isg(gv(h), Src::R(rv), below(h.alloc)) && !rv_err(rv) && rv_kind(rv) == 25 && !rv_time(rv)
  ensures @C18,C20 [structs become objects, field by field] converted(h, h2, Src::R(rv), r, err)
  ensures nullok(h2) && itkept(h, h2)
  loop members(idx i, var obj map[string]*pkg/event.Value)
    invariant gdoc(h0, Src::R(rv)) is Obj && obj >= h0.alloc && 0 <= i <= flds(rv).len()
    invariant nullok(h) && itkept(h0, h) && (forall|r: int| 0 <= r < h0.alloc ==> #[trigger] h.M_string_p_event_Value[r] == h0.M_string_p_event_Value[r]) && (forall|r: int| 0 <= r < h0.alloc ==> #[trigger] h.A_any[r] == h0.A_any[r])
    invariant i < flds(rv).len() ==> !hasopt(topts(flds(rv)[i]), "string") && (mb_in(gv(h0), rv, i) == mb_in(gv(h), rv, i)) && (mb_in(gv(h0), rv, i) ==> isgd(h0, Src::R(fval(rv, i)), $MEM[mb_name(rv, i)])) && exists|n: int| 0 <= n < ty_nf(rv_type(rv)) && flds(rv)[i] == #[trigger] ty_field(rv_type(rv), n)
    invariant nonil_fields(h, obj) && made_fields(h, obj, $MEM, mb_names(gv(h0), rv, i), h0.alloc) && mb_clean(gv(h0), rv, $MEM, i)
    hint loop: visible_from(rv_type(rv), ty_nf(rv_type(rv))); gd_parts(h0, Src::R(rv), h0); gd_parts(h0, Src::R(rv), h); assert(mb_src(gv(h0), rv, i) == Src::R(fval(rv, i))); if !established { made_fields_kept(h_p, obj_p, $MEM, mb_names(gv(h0), rv, i_p), h0.alloc, h, room(h0.alloc, h.alloc, obj, 0, 0)); if did_reflectToValue { isgd_mono(h0, Src::R(reflectToValue_rv), gdoc(h0, Src::R(reflectToValue_rv)), reflectToValue_h); rmade(reflectToValue_h, reflectToValue_h2, reflectToValue_r, gdoc(h0, Src::R(reflectToValue_rv)), h, room(h0.alloc, h.alloc, obj, 0, 0)); } }
  hint gd_parts(h, Src::R(rv), h); if did_reflectToValue { isgd_mono(h, Src::R(reflectToValue_rv), gdoc(h, Src::R(reflectToValue_rv)), reflectToValue_h); }
    mb_all_clean(gv(h), rv, gdoc(h, Src::R(rv))->Obj_0); made_fields_kept(h_members, members_obj, gdoc(h, Src::R(rv))->Obj_0, mb_names(gv(h), rv, members_i), h.alloc, h2, room(h.alloc, h2.alloc, 0, 0, 0));

func pkg/eventutil.structFields(rv) (r)
  requires rv_ok(rv) && rv_kind(rv) == 25
  ensures @C18,C20 [the exported fields that are not marked "-", in order] slseq(h2.A_reflect_StructField, r) =~= flds(rv)
  loop fields(idx i, var f []reflect.StructField)
    invariant 0 <= i && (i == 0 || i <= ty_nf(rv_type(rv))) && (f.r == 0 || f.r >= h0.alloc)
    invariant slseq(h.A_reflect_StructField, f) =~= visible(rv_type(rv), i) && forall|r: int| 0 <= r < h0.alloc ==> #[trigger] h.A_reflect_StructField[r] == h0.A_reflect_StructField[r]

func pkg/eventutil.parseTag(tag) (name, opts)
  ensures @C18,C20 [the name is the first part of the tag] name == split(tag, ",")[0]
  ensures @C18,C20 [the options are the others] slseq(h2.A_string, opts) =~= split(tag, ",").subrange(1, split(tag, ",").len() as int)

func (pkg/eventutil.tagOptions).Has(t, opt) (ok)
  ensures @C18,C20 [an option is present or not] ok == hasopt(slseq(h.A_string, t), opt)
  loop scan(idx i)
    invariant 0 <= i <= t.l && forall|j: int| 0 <= j < i ==> slseq(h0.A_string, t)[j] != opt
  hint if ok && in_scan { assert(slseq(h.A_string, t)[scan_i] == opt); }
