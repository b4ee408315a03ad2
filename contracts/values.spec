# Event values in JSON.
needs doc
needs json
needs times


rust
// The document that a JSON document decodes to.
pub open spec fn dec(j: J) -> Doc
    decreases j
{
    match j {
        J::Bad => Doc::Bad, J::Null => Doc::Null, J::Bool(b) => Doc::Bool(b), J::Num(x) => Doc::Float(flt_num(x)), J::Text(s) => Doc::Text(s),
        J::Arr(s) => Doc::Arr(Seq::new(s.len(), |i: int| if 0 <= i < s.len() { dec(s[i]) } else { Doc::Null })),
        J::Obj(m) => Doc::Obj(Map::new(m.dom(), |k: Str| if m.dom().contains(k) { dec(m[k]) } else { Doc::Null })),
    }
}
// The JSON document that a document is encoded as.
pub open spec fn enc(d: Doc) -> J
    decreases d
{
    match d {
        Doc::Bad => J::Bad, Doc::Null => J::Null, Doc::Bool(b) => J::Bool(b), Doc::Int(n) => J::Num(num_int(n)), Doc::Uint(n) => J::Num(num_int(n)), Doc::Float(f) => J::Num(num_flt(f)),
        Doc::Text(s) => J::Text(s), Doc::Time(n) => J::Text(rfc3339(n)),
        Doc::Arr(s) => J::Arr(Seq::new(s.len(), |i: int| if 0 <= i < s.len() { enc(s[i]) } else { J::Null })),
        Doc::Obj(m) => J::Obj(Map::new(m.dom(), |k: Str| if m.dom().contains(k) { enc(m[k]) } else { J::Null })),
    }
}
// Every text in d is UTF-8, every number in it is finite.
pub open spec fn encodable(d: Doc) -> bool
    decreases d
{
    match d {
        Doc::Bad => false, Doc::Float(f) => flt_fin(f), Doc::Text(s) => text_ok(s),
        Doc::Arr(s) => forall|i: int| 0 <= i < s.len() ==> encodable(#[trigger] s[i]),
        Doc::Obj(m) => forall|k: Str| #[trigger] m.dom().contains(k) ==> text_ok(k) && encodable(m[k]),
        _ => true,
    }
}
// No part of v (which represents d) is a nil pointer.
pub open spec fn whole(a: VV, v: int, d: Doc) -> bool
    decreases d
{
    v != 0 && match d {
        Doc::Arr(s) => forall|i: int| #![trigger vel(a, v)[i]] #![trigger s[i]] 0 <= i < s.len() ==> whole(a, vel(a, v)[i], s[i]),
        Doc::Obj(m) => forall|k: Str| #[trigger] m.dom().contains(k) ==> whole(a, a.m[a.ob[v]][k], m[k]),
        _ => true,
    }
}
// What encoding/json stores for j in a *Value.
pub open spec fn jel(a: VV, v: int, j: J, fp: Fp) -> bool { rep(a, v, dec(j), fp) && (v == 0 || whole(a, v, dec(j))) }
// The value v represents what j decodes to.
pub open spec fn dval(a: VV, v: int, j: J, fp: Fp) -> bool { rep(a, v, dec(j), fp) && whole(a, v, dec(j)) }
proof fn whole_mono(a: VV, v: int, d: Doc, fp: Fp, a2: VV)
    ensures rep(a, v, d, fp) && whole(a, v, d) && same_docs(a, a2, fp) ==> whole(a2, v, d)
    decreases d
{
    if rep(a, v, d, fp) && whole(a, v, d) && same_docs(a, a2, fp) {
        match d {
            Doc::Arr(s) => {
                assert(inn(fp, v));
                if a.ar[v].r != 0 { assert(inn(fp, a.ar[v].r)); }
                assert(vel(a2, v) =~= vel(a, v));
                assert forall|j: int| #![trigger s[j]] 0 <= j < s.len() implies whole(a2, vel(a, v)[j], s[j]) by { assert(vel(a, v)[j] == vel(a, v)[j]); whole_mono(a, vel(a, v)[j], s[j], fp, a2); }
                assert forall|j: int| #![trigger vel(a2, v)[j]] 0 <= j < s.len() implies whole(a2, vel(a2, v)[j], s[j]) by { assert(s[j] == s[j]); }
            },
            Doc::Obj(m) => {
                assert(inn(fp, v));
                if a.ob[v] != 0 { assert(inn(fp, a.ob[v])); }
                assert forall|k: Str| #[trigger] m.dom().contains(k) implies whole(a2, a.m[a.ob[v]][k], m[k]) by { whole_mono(a, a.m[a.ob[v]][k], m[k], fp, a2); }
            },
            _ => {},
        }
    }
}
proof fn dval_mono(a: VV, v: int, j: J, fp: Fp, a2: VV, fp2: Fp)
    ensures dval(a, v, j, fp) && same_docs(a, a2, fp) && fp_sub(fp, fp2) ==> dval(a2, v, j, fp2)
{ rep_mono(a, v, dec(j), fp, a2, fp2); whole_mono(a, v, dec(j), fp, a2); }
proof fn jel_mono(a: VV, v: int, j: J, fp: Fp, a2: VV, fp2: Fp)
    ensures jel(a, v, j, fp) && same_docs(a, a2, fp) && fp_sub(fp, fp2) ==> jel(a2, v, j, fp2)
{ rep_mono(a, v, dec(j), fp, a2, fp2); whole_mono(a, v, dec(j), fp, a2); }
// Decoding, encoding and decoding again gives the document decoded first.
pub open spec fn fromjson(d: Doc) -> bool
    decreases d
{
    match d {
        Doc::Int(n) => false, Doc::Uint(n) => false, Doc::Time(n) => false, Doc::Bad => false, Doc::Float(f) => flt_fin(f),
        Doc::Arr(s) => forall|i: int| 0 <= i < s.len() ==> fromjson(#[trigger] s[i]),
        Doc::Obj(m) => forall|k: Str| #[trigger] m.dom().contains(k) ==> fromjson(m[k]),
        _ => true,
    }
}
proof fn round_trip_json(d: Doc)
    requires forall|f: Flt| flt_fin(f) ==> flt_num(#[trigger] num_flt(f)) == f
    ensures fromjson(d) ==> dec(enc(d)) == d
    decreases d
{
    if fromjson(d) {
        match d {
            Doc::Arr(s) => {
                let t = enc(d)->Arr_0;
                assert forall|i: int| 0 <= i < s.len() implies dec(t[i]) == #[trigger] s[i] by { round_trip_json(s[i]); }
                assert(dec(enc(d))->Arr_0 =~= s);
            },
            Doc::Obj(m) => {
                let t = enc(d)->Obj_0;
                assert forall|k: Str| #[trigger] m.dom().contains(k) implies dec(t[k]) == m[k] by { round_trip_json(m[k]); }
                assert(dec(enc(d))->Obj_0 =~= m);
            },
            _ => {},
        }
    }
}
proof fn dec_fromjson(j: J)
    ensures encodable(dec(j)) ==> fromjson(dec(j))
    decreases j
{
    if encodable(dec(j)) {
        let d = dec(j);
        match j {
            J::Arr(s) => { assert forall|i: int| 0 <= i < s.len() implies fromjson(#[trigger] d->Arr_0[i]) by { dec_fromjson(s[i]); } },
            J::Obj(m) => { assert forall|k: Str| #[trigger] d->Obj_0.dom().contains(k) implies fromjson(d->Obj_0[k]) by { dec_fromjson(m[k]); } },
            _ => {},
        }
    }
}
// The elements of an array, when older memory stays.
proof fn arr_parts(h: H, v: int, h2: H)
    ensures
        v != 0 && h.event_Value_Type[v] == 1 && isdoc(vv(h), v, below(h.alloc)) && same_docs(vv(h), vv(h2), below(h.alloc)) && h.alloc <= h2.alloc ==> {
            let e = vel(vv(h), v); let d = olddoc(h, v);
            &&& d is Arr && J::Arr(Seq::new(e.len(), |i: int| enc(docof(vv(h2), e[i], below(h2.alloc))))) == enc(d)
            &&& encodable(d) ==> forall|i: int| #![trigger e[i]] 0 <= i < e.len() ==> isdoc(vv(h2), e[i], below(h2.alloc)) && encodable(docof(vv(h2), e[i], below(h2.alloc)))
        },
{
    if v != 0 && h.event_Value_Type[v] == 1 && isdoc(vv(h), v, below(h.alloc)) && same_docs(vv(h), vv(h2), below(h.alloc)) && h.alloc <= h2.alloc {
        isd_parts(h, v, h2);
        let e = vel(vv(h), v); let s = olddoc(h, v)->Arr_0;
        assert forall|i: int| #![trigger e[i]] #![trigger s[i]] 0 <= i < e.len() implies isd(h2, e[i], s[i]) by { assert(e[i] == e[i]); }
        assert(Seq::new(e.len(), |i: int| enc(docof(vv(h2), e[i], below(h2.alloc)))) =~= enc(olddoc(h, v))->Arr_0);
    }
}
// The field of the value v decoded from j (what UnmarshalJSON leaves there).
pub open spec fn decoded(h: H, h2: H, v: int, j: J) -> bool {
    match j {
        J::Bad => false,
        J::Null => h2.event_Value_Type[v] == 0,
        J::Bool(b) => h2.event_Value_Type[v] == 2 && h2.event_Value_Bool[v] == b,
        J::Num(x) => h2.event_Value_Type[v] == 3 && h2.event_Value_Float[v] == flt_num(x),
        J::Text(s) => h2.event_Value_Type[v] == 6 && h2.event_Value_String[v] == s,
        J::Arr(s) => h2.event_Value_Type[v] == 1 && h2.event_Value_Array[v].r >= h.alloc && vel(vv(h2), v).len() == s.len()
            && forall|i: int| #![trigger vel(vv(h2), v)[i]] #![trigger s[i]] 0 <= i < s.len() ==> dval(vv(h2), vel(vv(h2), v)[i], s[i], room(h.alloc, h2.alloc, h2.event_Value_Array[v].r, 0, 0)),
        J::Obj(m) => h2.event_Value_Type[v] == 5 && dmap(h, h2, h2.event_Value_Object[v], m),
    }
}
pub open spec fn dmap(h: H, h2: H, f: int, m: Map<Str, J>) -> bool {
    f >= h.alloc && h2.M_string_p_event_Value[f].dom() =~= m.dom()
    && forall|k: Str| #![trigger m[k]] #![trigger m.dom().contains(k)] m.dom().contains(k) ==> dval(vv(h2), h2.M_string_p_event_Value[f][k], m[k], room(h.alloc, h2.alloc, f, 0, 0))
}
pub open spec fn replaced(a: Seq<int>, b: Seq<int>, n: int) -> bool {
    a.len() == b.len() && forall|j: int| #![trigger a[j]] #![trigger b[j]] 0 <= j < a.len() ==> b[j] == (if j < n && a[j] == 0 { glob_event_NullValue() } else { a[j] })
}
pub open spec fn jels(h: H, s: Slice, e: Seq<J>, lo: int) -> bool {
    s.l == e.len() && forall|i: int| #![trigger slseq(h.A_p_event_Value, s)[i]] #![trigger e[i]] 0 <= i < e.len() ==> jel(vv(h), slseq(h.A_p_event_Value, s)[i], e[i], room(lo, h.alloc, s.r, 0, 0))
}
proof fn wider(h: H, s: Slice, e: Seq<J>, lo1: int, h2: H, lo: int)
    ensures 0 < lo <= lo1 && s.r >= lo1 && jels(h, s, e, lo1) && same_docs(vv(h), vv(h2), room(lo1, h.alloc, 0, 0, 0)) && h.alloc <= h2.alloc && s.r < h.alloc ==> jels(h2, s, e, lo)
{
    if 0 < lo <= lo1 && s.r >= lo1 && jels(h, s, e, lo1) && same_docs(vv(h), vv(h2), room(lo1, h.alloc, 0, 0, 0)) && h.alloc <= h2.alloc && s.r < h.alloc {
        let a = slseq(h.A_p_event_Value, s); let (f0, f1) = (room(lo1, h.alloc, 0, 0, 0), room(lo1, h.alloc, s.r, 0, 0));
        assert(fp_sub(f1, f0));
        assert forall|r: int| #![trigger inn(f1, r)] inn(f1, r) implies inn(f0, r) by { }
        assert(same_docs(vv(h), vv(h2), f1));
        if s.r != 0 { assert(inn(room(lo1, h.alloc, 0, 0, 0), s.r)); }
        assert(slseq(h2.A_p_event_Value, s) =~= a);
        assert forall|i: int| #![trigger a[i]] #![trigger e[i]] 0 <= i < e.len() implies jel(vv(h2), a[i], e[i], room(lo, h2.alloc, s.r, 0, 0)) by {
            assert(slseq(h.A_p_event_Value, s)[i] == a[i]);
            jel_mono(vv(h), a[i], e[i], room(lo1, h.alloc, s.r, 0, 0), vv(h2), room(lo, h2.alloc, s.r, 0, 0));
        }
    }
}
// The array s, decoded from e, once its nil elements are replaced by null.
proof fn new_items(h: H, lo: int, s: Slice, e: Seq<J>, lo1: int, h2: H)
    ensures
        ({ let fe = room(lo1, h.alloc, s.r, 0, 0); let a = slseq(h.A_p_event_Value, s); s.r >= lo && lo <= lo1 && a.len() == e.len() && same_docs(vv(h), vv(h2), fe) && h.alloc <= h2.alloc && nullok(h2)
        && (forall|i: int| #![trigger a[i]] #![trigger e[i]] 0 <= i < e.len() ==> jel(vv(h), a[i], e[i], fe)) && replaced(a, slseq(h2.A_p_event_Value, s), e.len() as int) })
        ==> forall|i: int| #![trigger slseq(h2.A_p_event_Value, s)[i]] #![trigger e[i]] 0 <= i < e.len() ==> dval(vv(h2), slseq(h2.A_p_event_Value, s)[i], e[i], room(lo, h2.alloc, s.r, 0, 0)),
{
    let fe = room(lo1, h.alloc, s.r, 0, 0); let a = slseq(h.A_p_event_Value, s); let b = slseq(h2.A_p_event_Value, s);
    if s.r >= lo && lo <= lo1 && a.len() == e.len() && same_docs(vv(h), vv(h2), fe) && h.alloc <= h2.alloc && nullok(h2) && (forall|i: int| #![trigger a[i]] #![trigger e[i]] 0 <= i < e.len() ==> jel(vv(h), a[i], e[i], fe)) && replaced(a, b, e.len() as int) {
        assert forall|i: int| #![trigger b[i]] #![trigger e[i]] 0 <= i < e.len() implies dval(vv(h2), b[i], e[i], room(lo, h2.alloc, s.r, 0, 0)) by {
            assert(a[i] == a[i]);
            jel_mono(vv(h), a[i], e[i], fe, vv(h2), room(lo, h2.alloc, s.r, 0, 0));
        }
    }
}
// The object f, decoded from m, once its nil entries are replaced by null.
proof fn new_fields(h: H, f: int, m: Map<Str, J>, lo: int, lo1: int, h2: H)
    ensures
        ({ let fe = room(lo1, h.alloc, f, 0, 0); f >= lo && lo <= lo1 && h.M_string_p_event_Value[f].dom() =~= m.dom() && same_docs(vv(h), vv(h2), fe) && h.alloc <= h2.alloc && nullok(h2)
        && (forall|k: Str| #![trigger m[k]] m.dom().contains(k) ==> jel(vv(h), h.M_string_p_event_Value[f][k], m[k], fe))
        && h2.M_string_p_event_Value[f].dom() =~= m.dom()
        && (forall|k: Str| #[trigger] m.dom().contains(k) ==> h2.M_string_p_event_Value[f][k] == (if h.M_string_p_event_Value[f][k] == 0 { glob_event_NullValue() } else { h.M_string_p_event_Value[f][k] })) })
        ==> forall|k: Str| #![trigger m[k]] #![trigger m.dom().contains(k)] m.dom().contains(k) ==> dval(vv(h2), h2.M_string_p_event_Value[f][k], m[k], room(lo, h2.alloc, f, 0, 0)),
{
    let fe = room(lo1, h.alloc, f, 0, 0);
    if f >= lo && lo <= lo1 && same_docs(vv(h), vv(h2), fe) && h.alloc <= h2.alloc && nullok(h2) && (forall|k: Str| #![trigger m[k]] m.dom().contains(k) ==> jel(vv(h), h.M_string_p_event_Value[f][k], m[k], fe))
        && (forall|k: Str| #[trigger] m.dom().contains(k) ==> h2.M_string_p_event_Value[f][k] == (if h.M_string_p_event_Value[f][k] == 0 { glob_event_NullValue() } else { h.M_string_p_event_Value[f][k] })) {
        assert forall|k: Str| #![trigger m[k]] #![trigger m.dom().contains(k)] m.dom().contains(k) implies dval(vv(h2), h2.M_string_p_event_Value[f][k], m[k], room(lo, h2.alloc, f, 0, 0)) by {
            assert(jel(vv(h), h.M_string_p_event_Value[f][k], m[k], fe));
            jel_mono(vv(h), h.M_string_p_event_Value[f][k], m[k], fe, vv(h2), room(lo, h2.alloc, f, 0, 0));
        }
    }
}
// What is decoded into a new value represents the document.
proof fn decoded_new(h: H, h2: H, v: int, j: J, fp: Fp)
    requires decoded(h, h2, v, j), v != 0, inn(fp, v), inn(fp, v + toff()), forall|r: int| h.alloc <= r < h2.alloc ==> inn(fp, r), wf(h2)
    ensures dval(vv(h2), v, j, fp)
{
    let a = vv(h2);
    match j {
        J::Arr(s) => {
            let fe = room(h.alloc, h2.alloc, h2.event_Value_Array[v].r, 0, 0);
            assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies dval(a, vel(a, v)[i], s[i], fp) by { dval_mono(a, vel(a, v)[i], s[i], fe, a, fp); }
            let t = dec(j)->Arr_0;
            assert forall|i: int| #![trigger t[i]] #![trigger vel(a, v)[i]] 0 <= i < t.len() implies rep(a, vel(a, v)[i], t[i], fp) && whole(a, vel(a, v)[i], t[i]) by { assert(t[i] == dec(s[i])); }
        },
        J::Obj(m) => {
            let f = h2.event_Value_Object[v];
            let fe = room(h.alloc, h2.alloc, f, 0, 0);
            let t = dec(j)->Obj_0;
            assert forall|k: Str| #[trigger] t.dom().contains(k) implies rep(a, a.m[f][k], t[k], fp) && whole(a, a.m[f][k], t[k]) by { assert(m.dom().contains(k)); dval_mono(a, a.m[f][k], m[k], fe, a, fp); }
        },
        _ => {},
    }
}
// An event decoded from j holds the document of j; encoding it gives a JSON
// document that decodes to the same.
proof fn event_round_trip(h: H, h2: H, f: int, m: Map<Str, J>)
    requires dmap(h, h2, f, m), h.alloc > 0, encodable(dec(J::Obj(m))), forall|f: Flt| flt_fin(f) ==> flt_num(#[trigger] num_flt(f)) == f
    ensures
        isdocm(vv(h2), h2.M_string_p_event_Value[f], below(h2.alloc)),
        Doc::Obj(docsof(vv(h2), h2.M_string_p_event_Value[f], below(h2.alloc))) == dec(J::Obj(m)),
        dec(enc(Doc::Obj(docsof(vv(h2), h2.M_string_p_event_Value[f], below(h2.alloc))))) == dec(J::Obj(m)),
{
    let a = vv(h2); let g = h2.M_string_p_event_Value[f]; let t = dec(J::Obj(m))->Obj_0; let fe = room(h.alloc, h2.alloc, f, 0, 0);
    assert forall|r: int| #![trigger inn(fe, r)] inn(fe, r) implies inn(below(h2.alloc), r) by { }
    assert forall|k: Str| #[trigger] t.dom().contains(k) implies rep(a, g[k], t[k], below(h2.alloc)) by {
        assert(m.dom().contains(k)); assert(dval(a, g[k], m[k], fe)); dval_mono(a, g[k], m[k], fe, a, below(h2.alloc));
    }
    assert(g.dom() =~= t.dom());
    isdm(a, g, t, below(h2.alloc));
    dec_fromjson(J::Obj(m));
    round_trip_json(dec(J::Obj(m)));
}
end rust

func pkg/event.replaceNilFields(fields)
  modifies M_string_p_event_Value
  ensures @C21 [nil entries become null, the others stay] forall|k: Str| #[trigger] h.M_string_p_event_Value[fields].dom().contains(k) ==> h2.M_string_p_event_Value[fields][k] == (if h.M_string_p_event_Value[fields][k] == 0 { glob_event_NullValue() } else { h.M_string_p_event_Value[fields][k] })
  ensures @C21 [no entry is added or removed] h2.M_string_p_event_Value[fields].dom() =~= h.M_string_p_event_Value[fields].dom()
  ensures @C21 [nothing else changes] forall|r: int| r != fields ==> #[trigger] h2.M_string_p_event_Value[r] == h.M_string_p_event_Value[r]
  loop entries(set done, dom all)
    invariant done.subset_of(all) && all =~= h0.M_string_p_event_Value[fields].dom() && h.M_string_p_event_Value[fields].dom() =~= all
    invariant forall|r: int| r != fields ==> #[trigger] h.M_string_p_event_Value[r] == h0.M_string_p_event_Value[r]
    invariant forall|k: Str| #[trigger] all.contains(k) ==> h.M_string_p_event_Value[fields][k] == (if done.contains(k) && h0.M_string_p_event_Value[fields][k] == 0 { glob_event_NullValue() } else { h0.M_string_p_event_Value[fields][k] })

func (*pkg/event.Value).value(v) (x)
  requires v != 0
  ensures @C21 [the payload is chosen by the type] { let t = h.event_Value_Type[v];
      if t == 1 { x is V_s_p_event_Value && x->V_s_p_event_Value_0.r != 0 && slseq(h2.A_p_event_Value, x->V_s_p_event_Value_0) =~= vel(vv(h), v) }
      else if t == 2 { x == Iface::V_bool(h.event_Value_Bool[v]) } else if t == 3 { x == Iface::V_float64(h.event_Value_Float[v]) } else if t == 4 { x == Iface::V_int64(h.event_Value_Integer[v]) }
      else if t == 5 { x is V_m_string_p_event_Value && x->V_m_string_p_event_Value_0 != 0 && h2.M_string_p_event_Value[x->V_m_string_p_event_Value_0] =~= h.M_string_p_event_Value[h.event_Value_Object[v]] }
      else if t == 6 { x == Iface::V_string(h.event_Value_String[v]) } else if t == 7 { x is V_event_Time && x->V_event_Time_0.UnixNanos == h.event_Time_UnixNanos[v + toff()] }
      else if t == 8 { x == Iface::V_uint64(h.event_Value_UnsignedInteger[v]) } else { x is Nil } }

func (*pkg/event.Value).MarshalJSON(v) (data, err)
  requires v != 0 && isdoc(vv(h), v, below(h.alloc))
  ensures @C21 [the value is encoded by its type] encodable(olddoc(h, v)) ==> err is Nil && jtext(h2, data) == enc(olddoc(h, v))
  hint if did_Marshal && did_value { arr_parts(h, v, Marshal_h); isd_obj(h, v, h); isd_parts(h, v, h); isdm_mono(h, oldm(h, v), Marshal_h); let x = value_x; if x is V_s_p_event_Value { assert(slseq(Marshal_h.A_p_event_Value, x->V_s_p_event_Value_0) =~= vel(vv(h), v)); } if x is V_m_string_p_event_Value { assert(Marshal_h.M_string_p_event_Value[x->V_m_string_p_event_Value_0] =~= oldm(h, v)); assert(olddoc(h, v) == Doc::Obj(olddocs(h, v))); } }

func (*pkg/event.Value).UnmarshalJSON(v, data) (err)
  requires nullok(h) && v != 0 && v != glob_event_NullValue() && h.event_Value_Array[v] == nil_slice() && h.event_Value_Object[v] == 0
  modifies event_Value_Type event_Value_Bool event_Value_Float event_Value_String event_Value_Array event_Value_Object event_Value_Integer
  ensures @C21 [every JSON document is decoded] (err is Nil) == !(jtext(h, data) is Bad)
  ensures @C21 [the value has the type and content of the JSON] err is Nil ==> decoded(h, h2, v, jtext(h, data))
  hint if did_Unmarshal && jtext(h, data) is Obj && err is Nil { let m = jtext(h, data)->Obj_0; let f = h2.event_Value_Object[v]; new_fields(Unmarshal_h2, f, m, h.alloc, Unmarshal_h.alloc, h2); }
  hint if in_items { new_items(hl_items, h.alloc, h2.event_Value_Array[v], jtext(h, data)->Arr_0, h.alloc, h2); }
  loop entries(set done, dom all, map src)
    invariant done.subset_of(all) && all =~= hl.M_string_p_event_Value[src].dom() && h.M_string_p_event_Value[src].dom() =~= all
    invariant forall|r: int| r != src ==> #[trigger] h.M_string_p_event_Value[r] == hl.M_string_p_event_Value[r]
    invariant forall|k: Str| #[trigger] all.contains(k) ==> h.M_string_p_event_Value[src][k] == (if done.contains(k) && hl.M_string_p_event_Value[src][k] == 0 { glob_event_NullValue() } else { hl.M_string_p_event_Value[src][k] })
  loop items(idx i)
    hint loop: if did_Unmarshal { wider(Unmarshal_h2, hl.event_Value_Array[v], jtext(h0, data)->Arr_0, Unmarshal_h.alloc, hl, h0.alloc); }
    invariant jtext(h0, data) is Arr && hl.event_Value_Array[v].r >= h0.alloc && jels(hl, hl.event_Value_Array[v], jtext(h0, data)->Arr_0, h0.alloc)
    invariant h.alloc >= hl.alloc && 0 <= i <= hl.event_Value_Array[v].l && h.event_Value_Array[v] == hl.event_Value_Array[v]
    invariant forall|r: int| r != hl.event_Value_Array[v].r ==> #[trigger] h.A_p_event_Value[r] == hl.A_p_event_Value[r]
    invariant replaced(vel(vv(hl), v), vel(vv(h), v), i)
  ensures @C21 [no other value changes] forall|r: int| #![trigger h2.event_Value_Type[r]] 0 <= r < h.alloc && r != v ==> h2.event_Value_Type[r] == h.event_Value_Type[r]

func (*pkg/event.Event).MarshalJSON(e) (data, err)
  requires e != 0 && isdocm(vv(h), efields(h, e), below(h.alloc))
  ensures @C21 [the event is encoded as the object of its fields] { let d = Doc::Obj(docsof(vv(h), efields(h, e), below(h.alloc))); json_facts() && encodable(d) ==> err is Nil && jtext(h2, data) == enc(d) }
  hint isdm_mono(h, efields(h, e), h2); assert(Map::<Str, J>::empty() =~= enc(Doc::Obj(docsof(vv(h), efields(h, e), below(h.alloc))))->Obj_0 || h.event_Event_fields[e] != 0); if !did_Marshal { assert(h.event_Event_fields[e] == 0 ==> slseq(h2.A_uint8, data) =~= "{}"); }
    if h.event_Event_fields[e] == 0 && did_Marshal && Marshal_v is V_m_string_p_event_Value { isdm(vv(h), efields(h, e), Map::<Str, Doc>::empty(), below(h.alloc)); isdm(vv(Marshal_h), Marshal_h.M_string_p_event_Value[Marshal_v->V_m_string_p_event_Value_0], Map::<Str, Doc>::empty(), below(Marshal_h.alloc)); }

func (*pkg/event.Event).UnmarshalJSON(e, data) (err)
  requires nullok(h) && e != 0
  modifies event_Event_fields
  ensures @C21 [objects are decoded, other JSON is an error] (err is Nil) == (jtext(h, data) is Obj || jtext(h, data) is Null)
  ensures @C21 [the event holds what the object holds] err is Nil && jtext(h, data) is Obj ==> dmap(h, h2, h2.event_Event_fields[e], jtext(h, data)->Obj_0)
  ensures @C21 [null leaves an empty event] err is Nil && jtext(h, data) is Null ==> h2.event_Event_fields[e] == 0
  loop entries(set done, dom all, map src)
    invariant done.subset_of(all) && all =~= hl.M_string_p_event_Value[src].dom() && h.M_string_p_event_Value[src].dom() =~= all
    invariant forall|r: int| r != src ==> #[trigger] h.M_string_p_event_Value[r] == hl.M_string_p_event_Value[r]
    invariant forall|k: Str| #[trigger] all.contains(k) ==> h.M_string_p_event_Value[src][k] == (if done.contains(k) && hl.M_string_p_event_Value[src][k] == 0 { glob_event_NullValue() } else { hl.M_string_p_event_Value[src][k] })
  ensures @C21 [an error leaves the event as it was] !(err is Nil) ==> h2.event_Event_fields[e] == h.event_Event_fields[e]
  hint if did_Unmarshal && jtext(h, data) is Obj && err is Nil { let m = jtext(h, data)->Obj_0; let f = h2.event_Event_fields[e]; new_fields(Unmarshal_h2, f, m, h.alloc, Unmarshal_h.alloc, h2); }

func (pkg/event.Time).MarshalJSON(t) (data, err)
  ensures @C21 [a time is its RFC 3339 text in UTC] err is Nil && slseq(h2.A_uint8, data) =~= "\"" + rfc3339(t.UnixNanos) + "\""

# What a reader or a decoder reads.
rust
pub uninterp spec fn source(r: int) -> Str;
end rust
extern bytes.NewReader(b) (r)
  ensures @C21 r >= h.alloc && source(r) == slseq(h.A_uint8, b)
extern encoding/json.NewDecoder(r) (d)
  ensures @C21 d >= h.alloc && (r is V_p_bytes_Reader ==> source(d) == source(r->V_p_bytes_Reader_0))
# The first token of a decoder made by NewDecoder.
extern (*encoding/json.Decoder).Token(d) (t, err)
  ensures @C21 !(jparse(source(d)) is Bad) ==> err is Nil && (t == Iface::V_json_Delim(91)) == (jparse(source(d)) is Arr) && (t == Iface::V_json_Delim(123)) == (jparse(source(d)) is Obj)
