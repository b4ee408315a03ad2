# What events hold, as documents.
needs clone
needs eventutil
import doc

rust
// The value v (in a, made up of memory in fp) represents the document d. The
// shared null value represents null wherever it lies.
pub open spec fn rep(a: VV, v: int, d: Doc, fp: Fp) -> bool
    decreases d
{
    if v == 0 { d is Null } else {
        &&& inn(fp, v) && inn(fp, v + toff()) || v == glob_event_NullValue() && d is Null
        &&& match d {
            Doc::Null => a.ty[v] == 0,
            Doc::Bad => false,
            Doc::Bool(x) => a.ty[v] == 2 && a.b[v] == x,
            Doc::Float(x) => a.ty[v] == 3 && a.f[v] == x,
            Doc::Int(x) => a.ty[v] == 4 && a.i[v] == x,
            Doc::Text(x) => a.ty[v] == 6 && a.s[v] == x,
            Doc::Time(x) => a.ty[v] == 7 && a.t[v + toff()] == x,
            Doc::Uint(x) => a.ty[v] == 8 && a.u[v] == x,
            Doc::Arr(s) => {
                &&& a.ty[v] == 1 && (a.ar[v].r == 0 || inn(fp, a.ar[v].r)) && vel(a, v).len() == s.len()
                &&& forall|j: int| #![trigger vel(a, v)[j]] #![trigger s[j]] 0 <= j < s.len() ==> rep(a, vel(a, v)[j], s[j], fp)
            },
            Doc::Obj(m) => {
                &&& a.ty[v] == 5 && (a.ob[v] == 0 || inn(fp, a.ob[v]))
                &&& a.m[a.ob[v]].dom() =~= m.dom()
                &&& forall|k: Str| #[trigger] m.dom().contains(k) ==> rep(a, a.m[a.ob[v]][k], m[k], fp)
            },
        }
    }
}
// The fields f represent the members m.
pub open spec fn repm(a: VV, f: Map<Str, int>, m: Map<Str, Doc>, fp: Fp) -> bool {
    &&& f.dom() =~= m.dom()
    &&& forall|k: Str| #[trigger] m.dom().contains(k) ==> rep(a, f[k], m[k], fp)
}
// The shared null value is null.
pub open spec fn nullok(h: H) -> bool { 0 < glob_event_NullValue() < h.alloc && h.event_Value_Type[glob_event_NullValue()] == 0 }
pub open spec fn isdoc(a: VV, v: int, fp: Fp) -> bool { exists|d: Doc| rep(a, v, d, fp) }
pub open spec fn docof(a: VV, v: int, fp: Fp) -> Doc { choose|d: Doc| rep(a, v, d, fp) }
proof fn rep_one(a: VV, v: int, d: Doc, fp: Fp, a2: VV, d2: Doc, fp2: Fp)
    ensures rep(a, v, d, fp) && rep(a, v, d2, fp2) ==> d == d2
    decreases d
{
    if rep(a, v, d, fp) && rep(a, v, d2, fp2) && v != 0 {
        match (d, d2) {
            (Doc::Arr(s), Doc::Arr(s2)) => {
                assert forall|j: int| 0 <= j < s.len() implies s[j] == s2[j] by { rep_one(a, vel(a, v)[j], s[j], fp, a2, s2[j], fp2); }
                assert(s =~= s2);
            },
            (Doc::Obj(m), Doc::Obj(m2)) => {
                assert forall|k: Str| #[trigger] m.dom().contains(k) implies m[k] == m2[k] by { rep_one(a, a.m[a.ob[v]][k], m[k], fp, a2, m2[k], fp2); }
                assert(m =~= m2);
            },
            _ => {},
        }
    }
}
// The memory of fp is the same in b and b2, so is the shared null value.
pub open spec fn same_docs(b: VV, b2: VV, fp: Fp) -> bool { same_in(b, b2, fp) && b.ty[glob_event_NullValue()] == b2.ty[glob_event_NullValue()] }
proof fn rep_mono(a: VV, v: int, d: Doc, fp: Fp, a2: VV, fp2: Fp)
    ensures rep(a, v, d, fp) && same_docs(a, a2, fp) && fp_sub(fp, fp2) ==> rep(a2, v, d, fp2)
    decreases d
{
    if rep(a, v, d, fp) && same_docs(a, a2, fp) && fp_sub(fp, fp2) && v != 0 {
        if !(d is Null) { assert(inn(fp, v) && inn(fp, v + toff()) && inn(fp2, v) && inn(fp2, v + toff())); }
        if inn(fp, v) && inn(fp, v + toff()) { assert(inn(fp2, v) && inn(fp2, v + toff())); }
        assert(inn(fp, v) ==> a.ty[v] == a2.ty[v]);
        assert(a.ty[v] == a2.ty[v]);
        match d {
            Doc::Arr(s) => {
                assert(inn(fp, v));
                if a.ar[v].r != 0 { assert(inn(fp, a.ar[v].r)); }
                assert(vel(a2, v) =~= vel(a, v));
                assert forall|j: int| #![trigger s[j]] 0 <= j < s.len() implies rep(a2, vel(a, v)[j], s[j], fp2) by { assert(vel(a, v)[j] == vel(a, v)[j]); rep_mono(a, vel(a, v)[j], s[j], fp, a2, fp2); }
                assert forall|j: int| #![trigger vel(a2, v)[j]] 0 <= j < s.len() implies rep(a2, vel(a2, v)[j], s[j], fp2) by { assert(s[j] == s[j]); }
            },
            Doc::Obj(m) => {
                assert(inn(fp, v));
                if a.ob[v] != 0 { assert(inn(fp, a.ob[v])); }
                let f = a.m[a.ob[v]];
                assert forall|k: Str| #[trigger] m.dom().contains(k) implies rep(a2, f[k], m[k], fp2) by { rep_mono(a, f[k], m[k], fp, a2, fp2); }
            },
            _ => {},
        }
    }
}
proof fn repm_mono(a: VV, f: Map<Str, int>, m: Map<Str, Doc>, fp: Fp, a2: VV, fp2: Fp)
    ensures repm(a, f, m, fp) && same_docs(a, a2, fp) && fp_sub(fp, fp2) ==> repm(a2, f, m, fp2)
{
    if repm(a, f, m, fp) && same_docs(a, a2, fp) && fp_sub(fp, fp2) {
        assert forall|k: Str| #[trigger] m.dom().contains(k) implies rep(a2, f[k], m[k], fp2) by { rep_mono(a, f[k], m[k], fp, a2, fp2); }
    }
}
pub open spec fn isdocm(a: VV, f: Map<Str, int>, fp: Fp) -> bool { exists|m: Map<Str, Doc>| repm(a, f, m, fp) }
pub open spec fn docsof(a: VV, f: Map<Str, int>, fp: Fp) -> Map<Str, Doc> { choose|m: Map<Str, Doc>| repm(a, f, m, fp) }
// The value v represents d, and it is the document the contracts speak of.
pub open spec fn isd(h: H, v: int, d: Doc) -> bool { rep(vv(h), v, d, below(h.alloc)) && isdoc(vv(h), v, below(h.alloc)) && docof(vv(h), v, below(h.alloc)) == d }
proof fn isd_rep(h: H, v: int, d: Doc)
    ensures rep(vv(h), v, d, below(h.alloc)) ==> isd(h, v, d)
{
    if rep(vv(h), v, d, below(h.alloc)) {
        assert(isdoc(vv(h), v, below(h.alloc)));
        rep_one(vv(h), v, d, below(h.alloc), vv(h), docof(vv(h), v, below(h.alloc)), below(h.alloc));
    }
}
proof fn isd_mono(h: H, v: int, d: Doc, h2: H)
    ensures rep(vv(h), v, d, below(h.alloc)) && same_docs(vv(h), vv(h2), below(h.alloc)) && h.alloc <= h2.alloc ==> isd(h2, v, d)
{
    rep_mono(vv(h), v, d, below(h.alloc), vv(h2), below(h2.alloc));
    isd_rep(h2, v, d);
}
// What the elements (fields) of v hold remains what they hold when older memory stays.
proof fn isd_parts(h: H, v: int, h2: H)
    ensures
        isdoc(vv(h), v, below(h.alloc)) && same_docs(vv(h), vv(h2), below(h.alloc)) && h.alloc <= h2.alloc ==> {
            let d = docof(vv(h), v, below(h.alloc));
            &&& v == 0 ==> d is Null
            &&& v != 0 && h.event_Value_Type[v] == 1 ==> d is Arr && d->Arr_0.len() == vel(vv(h), v).len() && forall|j: int| #![trigger vel(vv(h), v)[j]] 0 <= j < d->Arr_0.len() ==> isd(h2, vel(vv(h), v)[j], d->Arr_0[j])
            &&& v != 0 && h.event_Value_Type[v] == 5 ==> d is Obj && repm(vv(h), h.M_string_p_event_Value[h.event_Value_Object[v]], d->Obj_0, below(h.alloc))
        },
{
    if isdoc(vv(h), v, below(h.alloc)) && same_docs(vv(h), vv(h2), below(h.alloc)) && h.alloc <= h2.alloc {
        let d = docof(vv(h), v, below(h.alloc));
        assert(rep(vv(h), v, d, below(h.alloc)));
        if v != 0 && h.event_Value_Type[v] == 1 {
            assert forall|j: int| #![trigger vel(vv(h), v)[j]] 0 <= j < d->Arr_0.len() implies isd(h2, vel(vv(h), v)[j], d->Arr_0[j]) by {
                isd_mono(h, vel(vv(h), v)[j], d->Arr_0[j], h2);
            }
        }
    }
}
proof fn isdm(a: VV, f: Map<Str, int>, m: Map<Str, Doc>, fp: Fp)
    ensures repm(a, f, m, fp) ==> isdocm(a, f, fp) && docsof(a, f, fp) == m
{
    if repm(a, f, m, fp) {
        let m2 = docsof(a, f, fp);
        assert(isdocm(a, f, fp));
        assert forall|k: Str| #[trigger] m.dom().contains(k) implies m[k] == m2[k] by { assert(m2.dom().contains(k)); rep_one(a, f[k], m[k], fp, a, m2[k], fp); }
        assert(m =~= m2);
    }
}
proof fn isdm_parts(h: H, f: Map<Str, int>, h2: H)
    ensures
        isdocm(vv(h), f, below(h.alloc)) && same_docs(vv(h), vv(h2), below(h.alloc)) && h.alloc <= h2.alloc ==> {
            let m = docsof(vv(h), f, below(h.alloc));
            &&& repm(vv(h), f, m, below(h.alloc)) && m.dom() =~= f.dom()
            &&& forall|k: Str| #![trigger f.dom().contains(k)] #![trigger f[k]] f.dom().contains(k) ==> isd(h2, f[k], m[k])
        },
{
    if isdocm(vv(h), f, below(h.alloc)) && same_docs(vv(h), vv(h2), below(h.alloc)) && h.alloc <= h2.alloc {
        let m = docsof(vv(h), f, below(h.alloc));
        assert(repm(vv(h), f, m, below(h.alloc)));
        assert forall|k: Str| #![trigger f.dom().contains(k)] #![trigger f[k]] f.dom().contains(k) implies isd(h2, f[k], m[k]) by { assert(m.dom().contains(k)); isd_mono(h, f[k], m[k], h2); }
    }
}
pub open spec fn olddoc(h: H, v: int) -> Doc { docof(vv(h), v, below(h.alloc)) }
pub open spec fn oldm(h: H, v: int) -> Map<Str, int> { h.M_string_p_event_Value[h.event_Value_Object[v]] }
pub open spec fn olddocs(h: H, v: int) -> Map<Str, Doc> { docsof(vv(h), oldm(h, v), below(h.alloc)) }
// An object still holds the documents it held in h.
proof fn isd_obj(h: H, v: int, h2: H)
    ensures
        isdoc(vv(h), v, below(h.alloc)) && v != 0 && h.event_Value_Type[v] == 5 && same_docs(vv(h), vv(h2), below(h.alloc)) && h.alloc <= h2.alloc ==>
            olddoc(h, v) is Obj && oldm(h2, v) == oldm(h, v) && isdocm(vv(h2), oldm(h2, v), below(h2.alloc)) && olddocs(h2, v) == olddoc(h, v)->Obj_0
{
    if isdoc(vv(h), v, below(h.alloc)) && v != 0 && h.event_Value_Type[v] == 5 && same_docs(vv(h), vv(h2), below(h.alloc)) && h.alloc <= h2.alloc {
        isd_parts(h, v, h);
        let m = olddoc(h, v)->Obj_0;
        assert(rep(vv(h), v, olddoc(h, v), below(h.alloc)));
        assert(inn(below(h.alloc), v));
        if h.event_Value_Object[v] != 0 { assert(inn(below(h.alloc), h.event_Value_Object[v])); }
        repm_mono(vv(h), oldm(h, v), m, below(h.alloc), vv(h2), below(h2.alloc));
        isdm(vv(h2), oldm(h2, v), m, below(h2.alloc));
    }
}
// The root fields of e.
pub open spec fn efields(h: H, e: int) -> Map<Str, int> { h.M_string_p_event_Value[h.event_Event_fields[e]] }
// The fields f converted so far (in h), all of new memory, represent the members done of m.
pub open spec fn made_fields(h: H, f: int, m: Map<Str, Doc>, done: Set<Str>, lo: int) -> bool {
    &&& h.M_string_p_event_Value[f].dom() =~= done
    &&& forall|k: Str| #![trigger done.contains(k)] done.contains(k) ==> rep(vv(h), h.M_string_p_event_Value[f][k], m[k], room(lo, h.alloc, f, 0, 0))
}
pub open spec fn made_items(h: H, items: Slice, fx: bool, s: Seq<Doc>, n: int, lo: int) -> bool {
    &&& items.l == (if fx { s.len() as int } else { n }) && 0 <= n <= s.len()
    &&& forall|j: int| #![trigger slseq(h.A_p_event_Value, items)[j]] 0 <= j < n ==> rep(vv(h), slseq(h.A_p_event_Value, items)[j], s[j], room(lo, h.alloc, items.r, 0, 0))
}
// The value r made by a call from hc to hr still represents d in h.
proof fn rmade(hc: H, hr: H, r: int, d: Doc, h: H, fp: Fp)
    ensures rep(vv(hr), r, d, room(hc.alloc, hr.alloc, 0, 0, 0)) && same_docs(vv(hr), vv(h), room(hc.alloc, hr.alloc, 0, 0, 0)) && fp_sub(room(hc.alloc, hr.alloc, 0, 0, 0), fp) ==> rep(vv(h), r, d, fp)
{ rep_mono(vv(hr), r, d, room(hc.alloc, hr.alloc, 0, 0, 0), vv(h), fp); }
proof fn made_fields_kept(hp: H, f: int, m: Map<Str, Doc>, done: Set<Str>, lo: int, h: H, fp: Fp)
    ensures
        made_fields(hp, f, m, done, lo) && same_docs(vv(hp), vv(h), room(lo, hp.alloc, f, 0, 0)) && fp_sub(room(lo, hp.alloc, f, 0, 0), fp) ==>
            forall|k: Str| #![trigger done.contains(k)] done.contains(k) ==> rep(vv(h), hp.M_string_p_event_Value[f][k], m[k], fp)
{
    if made_fields(hp, f, m, done, lo) && same_docs(vv(hp), vv(h), room(lo, hp.alloc, f, 0, 0)) && fp_sub(room(lo, hp.alloc, f, 0, 0), fp) {
        assert forall|k: Str| #![trigger done.contains(k)] done.contains(k) implies rep(vv(h), hp.M_string_p_event_Value[f][k], m[k], fp) by {
            rep_mono(vv(hp), hp.M_string_p_event_Value[f][k], m[k], room(lo, hp.alloc, f, 0, 0), vv(h), fp);
        }
    }
}
proof fn made_items_kept(hp: H, items: Slice, fx: bool, s: Seq<Doc>, n: int, lo: int, h: H, fp: Fp)
    ensures
        made_items(hp, items, fx, s, n, lo) && same_docs(vv(hp), vv(h), room(lo, hp.alloc, items.r, 0, 0)) && fp_sub(room(lo, hp.alloc, items.r, 0, 0), fp) ==>
            forall|j: int| #![trigger slseq(hp.A_p_event_Value, items)[j]] 0 <= j < n ==> rep(vv(h), slseq(hp.A_p_event_Value, items)[j], s[j], fp)
{
    if made_items(hp, items, fx, s, n, lo) && same_docs(vv(hp), vv(h), room(lo, hp.alloc, items.r, 0, 0)) && fp_sub(room(lo, hp.alloc, items.r, 0, 0), fp) {
        assert forall|j: int| #![trigger slseq(hp.A_p_event_Value, items)[j]] 0 <= j < n implies rep(vv(h), slseq(hp.A_p_event_Value, items)[j], s[j], fp) by {
            rep_mono(vv(hp), slseq(hp.A_p_event_Value, items)[j], s[j], room(lo, hp.alloc, items.r, 0, 0), vv(h), fp);
        }
    }
}
// Names that can be the keys of root fields.
pub open spec fn name_ok(k: Str) -> bool { k.len() > 0 && no_byte(k, bs()) }
pub open spec fn names_ok(s: Set<Str>) -> bool { forall|k: Str| #[trigger] s.contains(k) ==> name_ok(k) }
proof fn isdm_mono(h: H, f: Map<Str, int>, h2: H)
    ensures
        isdocm(vv(h), f, below(h.alloc)) && same_docs(vv(h), vv(h2), below(h.alloc)) && h.alloc <= h2.alloc ==> isdocm(vv(h2), f, below(h2.alloc)) && docsof(vv(h2), f, below(h2.alloc)) == docsof(vv(h), f, below(h.alloc))
{
    if isdocm(vv(h), f, below(h.alloc)) && same_docs(vv(h), vv(h2), below(h.alloc)) && h.alloc <= h2.alloc {
        let m = docsof(vv(h), f, below(h.alloc));
        assert(repm(vv(h), f, m, below(h.alloc)));
        repm_mono(vv(h), f, m, below(h.alloc), vv(h2), below(h2.alloc));
        isdm(vv(h2), f, m, below(h2.alloc));
    }
}
end rust
