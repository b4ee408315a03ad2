# Events as protocol buffer messages and back.
needs doc
builds_on C19 C05 C06

rust
pub struct PV {
    pub kind: Map<int, Iface>, pub av: Map<int, int>, pub it: Map<int, Slice>, pub pa: Map<int, Map<int, int>>, pub bo: Map<int, bool>, pub fl: Map<int, Flt>, pub i: Map<int, int>,
    pub ob: Map<int, int>, pub fs: Map<int, int>, pub pm: Map<int, Map<Str, int>>, pub st: Map<int, Slice>, pub by: Map<int, Map<int, int>>, pub ti: Map<int, int>, pub u: Map<int, int>,
}
pub open spec fn pv(h: H) -> PV {
    PV { kind: h.protobuf_Value_Kind, av: h.protobuf_Value_Array_Array, it: h.protobuf_ValueArray_Items, pa: h.A_p_protobuf_Value, bo: h.protobuf_Value_Boolean_Boolean, fl: h.protobuf_Value_Float_Float,
        i: h.protobuf_Value_Integer_Integer, ob: h.protobuf_Value_Object_Object, fs: h.protobuf_ValueObject_Fields, pm: h.M_string_p_protobuf_Value, st: h.protobuf_Value_String__String_, by: h.A_uint8,
        ti: h.protobuf_Value_Timestamp_Timestamp, u: h.protobuf_Value_UnsignedInteger_UnsignedInteger }
}
pub open spec fn pits(b: PV, y: int) -> Seq<int> { if y == 0 { Seq::<int>::empty() } else { slseq(b.pa, b.it[y]) } }
pub open spec fn pfs(b: PV, y: int) -> Map<Str, int> { if y == 0 { Map::<Str, int>::empty() } else { b.pm[b.fs[y]] } }
pub open spec fn at0(fp: Fp, r: int) -> bool { r == 0 || inn(fp, r) }
// The message w (in b, made up of memory in fp) represents the document d.
pub open spec fn prep(b: PV, w: int, d: Doc, fp: Fp) -> bool
    decreases d
{
    if w == 0 { d is Null } else {
        inn(fp, w) && match b.kind[w] {
            Iface::Nil => d is Null,
            Iface::V_p_protobuf_Value_Null(x) => d is Null,
            Iface::V_p_protobuf_Value_Boolean(x) => x != 0 && inn(fp, x) && d == Doc::Bool(b.bo[x]),
            Iface::V_p_protobuf_Value_Float(x) => x != 0 && inn(fp, x) && d == Doc::Float(b.fl[x]),
            Iface::V_p_protobuf_Value_Integer(x) => x != 0 && inn(fp, x) && d == Doc::Int(b.i[x]),
            Iface::V_p_protobuf_Value_Timestamp(x) => x != 0 && inn(fp, x) && d == Doc::Time(b.ti[x]),
            Iface::V_p_protobuf_Value_UnsignedInteger(x) => x != 0 && inn(fp, x) && d == Doc::Uint(b.u[x]),
            Iface::V_p_protobuf_Value_String_(x) => x != 0 && inn(fp, x) && at0(fp, b.st[x].r) && d == Doc::Text(slseq(b.by, b.st[x])),
            Iface::V_p_protobuf_Value_Array(x) => x != 0 && inn(fp, x) && at0(fp, b.av[x]) && (b.av[x] != 0 ==> at0(fp, b.it[b.av[x]].r)) && match d {
                Doc::Arr(s) => {
                    &&& pits(b, b.av[x]).len() == s.len()
                    &&& forall|j: int| #![trigger pits(b, b.av[x])[j]] #![trigger s[j]] 0 <= j < s.len() ==> prep(b, pits(b, b.av[x])[j], s[j], fp)
                },
                _ => false,
            },
            Iface::V_p_protobuf_Value_Object(x) => x != 0 && inn(fp, x) && at0(fp, b.ob[x]) && (b.ob[x] != 0 ==> at0(fp, b.fs[b.ob[x]])) && match d {
                Doc::Obj(m) => {
                    &&& pfs(b, b.ob[x]).dom() =~= m.dom()
                    &&& forall|k: Str| #[trigger] m.dom().contains(k) ==> prep(b, pfs(b, b.ob[x])[k], m[k], fp)
                },
                _ => false,
            },
            _ => false,
        }
    }
}
pub open spec fn prepm(b: PV, f: Map<Str, int>, m: Map<Str, Doc>, fp: Fp) -> bool {
    &&& f.dom() =~= m.dom()
    &&& forall|k: Str| #[trigger] m.dom().contains(k) ==> prep(b, f[k], m[k], fp)
}
pub open spec fn ismsg(b: PV, w: int, fp: Fp) -> bool { exists|d: Doc| prep(b, w, d, fp) }
pub open spec fn msgof(b: PV, w: int, fp: Fp) -> Doc { choose|d: Doc| prep(b, w, d, fp) }
pub open spec fn psame_in(b: PV, b2: PV, fp: Fp) -> bool {
    &&& forall|r: int| #![trigger inn(fp, r)] #![trigger b2.kind[r]] inn(fp, r) ==> b.kind[r] == b2.kind[r] && b.av[r] == b2.av[r] && b.it[r] == b2.it[r] && b.pa[r] == b2.pa[r] && b.bo[r] == b2.bo[r] && b.fl[r] == b2.fl[r]
        && b.i[r] == b2.i[r] && b.ob[r] == b2.ob[r] && b.fs[r] == b2.fs[r] && b.pm[r] == b2.pm[r] && b.st[r] == b2.st[r] && b.by[r] == b2.by[r] && b.ti[r] == b2.ti[r] && b.u[r] == b2.u[r]
    &&& b.pa[0] == b2.pa[0] && b.pm[0] == b2.pm[0] && b.by[0] == b2.by[0]
}
proof fn prep_one(b: PV, w: int, d: Doc, fp: Fp, d2: Doc, fp2: Fp)
    ensures prep(b, w, d, fp) && prep(b, w, d2, fp2) ==> d == d2
    decreases d
{
    if prep(b, w, d, fp) && prep(b, w, d2, fp2) && w != 0 {
        match (d, d2) {
            (Doc::Arr(s), Doc::Arr(s2)) => {
                let x = b.kind[w]->V_p_protobuf_Value_Array_0;
                assert forall|j: int| 0 <= j < s.len() implies s[j] == s2[j] by { prep_one(b, pits(b, b.av[x])[j], s[j], fp, s2[j], fp2); }
                assert(s =~= s2);
            },
            (Doc::Obj(m), Doc::Obj(m2)) => {
                let x = b.kind[w]->V_p_protobuf_Value_Object_0;
                assert forall|k: Str| #[trigger] m.dom().contains(k) implies m[k] == m2[k] by { prep_one(b, pfs(b, b.ob[x])[k], m[k], fp, m2[k], fp2); }
                assert(m =~= m2);
            },
            _ => {},
        }
    }
}
proof fn prep_mono(b: PV, w: int, d: Doc, fp: Fp, b2: PV, fp2: Fp)
    ensures prep(b, w, d, fp) && psame_in(b, b2, fp) && fp_sub(fp, fp2) ==> prep(b2, w, d, fp2)
    decreases d
{
    if prep(b, w, d, fp) && psame_in(b, b2, fp) && fp_sub(fp, fp2) && w != 0 {
        assert(inn(fp, w));
        match b.kind[w] {
            Iface::V_p_protobuf_Value_String_(x) => { assert(inn(fp, x)); if b.st[x].r != 0 { assert(inn(fp, b.st[x].r)); } },
            Iface::V_p_protobuf_Value_Array(x) => {
                assert(inn(fp, x));
                let y = b.av[x];
                if y != 0 { assert(inn(fp, y)); if b.it[y].r != 0 { assert(inn(fp, b.it[y].r)); } }
                assert(pits(b2, y) =~= pits(b, y));
                let s = d->Arr_0;
                assert forall|j: int| #![trigger s[j]] 0 <= j < s.len() implies prep(b2, pits(b, y)[j], s[j], fp2) by { assert(pits(b, y)[j] == pits(b, y)[j]); prep_mono(b, pits(b, y)[j], s[j], fp, b2, fp2); }
                assert forall|j: int| #![trigger pits(b2, y)[j]] 0 <= j < s.len() implies prep(b2, pits(b2, y)[j], s[j], fp2) by { assert(s[j] == s[j]); }
            },
            Iface::V_p_protobuf_Value_Object(x) => {
                assert(inn(fp, x));
                let y = b.ob[x];
                if y != 0 { assert(inn(fp, y)); if b.fs[y] != 0 { assert(inn(fp, b.fs[y])); } }
                let m = d->Obj_0;
                assert forall|k: Str| #[trigger] m.dom().contains(k) implies prep(b2, pfs(b, y)[k], m[k], fp2) by { prep_mono(b, pfs(b, y)[k], m[k], fp, b2, fp2); }
            },
            Iface::V_p_protobuf_Value_Boolean(x) => { assert(inn(fp, x)); },
            Iface::V_p_protobuf_Value_Float(x) => { assert(inn(fp, x)); },
            Iface::V_p_protobuf_Value_Integer(x) => { assert(inn(fp, x)); },
            Iface::V_p_protobuf_Value_Timestamp(x) => { assert(inn(fp, x)); },
            Iface::V_p_protobuf_Value_UnsignedInteger(x) => { assert(inn(fp, x)); },
            _ => {},
        }
    }
}
proof fn prepm_mono(b: PV, f: Map<Str, int>, m: Map<Str, Doc>, fp: Fp, b2: PV, fp2: Fp)
    ensures prepm(b, f, m, fp) && psame_in(b, b2, fp) && fp_sub(fp, fp2) ==> prepm(b2, f, m, fp2)
{
    if prepm(b, f, m, fp) && psame_in(b, b2, fp) && fp_sub(fp, fp2) {
        assert forall|k: Str| #[trigger] m.dom().contains(k) implies prep(b2, f[k], m[k], fp2) by { prep_mono(b, f[k], m[k], fp, b2, fp2); }
    }
}

pub open spec fn set_first(s: Seq<int>, n: int) -> bool { forall|j: int| 0 <= j < n ==> #[trigger] s[j] != 0 }
pub open spec fn allset(s: Seq<int>) -> bool { forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] != 0 }
pub open spec fn arrof(h: H, v: int) -> int { h.protobuf_Value_Array_Array[h.protobuf_Value_Kind[v]->V_p_protobuf_Value_Array_0] }
pub open spec fn objof(h: H, v: int) -> int { h.protobuf_Value_Object_Object[h.protobuf_Value_Kind[v]->V_p_protobuf_Value_Object_0] }
// The items converted so far represent the elements of v.
pub open spec fn items_ok(h: H, items: Slice, fx: bool, s: Seq<Doc>, n: int, lo: int) -> bool {
    &&& items.l == (if fx { s.len() as int } else { n }) && 0 <= n <= s.len()
    &&& forall|j: int| #![trigger slseq(h.A_p_protobuf_Value, items)[j]] 0 <= j < n ==> prep(pv(h), slseq(h.A_p_protobuf_Value, items)[j], s[j], room(lo, h.alloc, items.r, 0, 0))
}
pub open spec fn fields_ok(h: H, f: int, m: Map<Str, Doc>, done: Set<Str>, lo: int) -> bool {
    &&& h.M_string_p_protobuf_Value[f].dom() =~= done
    &&& forall|k: Str| #![trigger done.contains(k)] done.contains(k) ==> prep(pv(h), h.M_string_p_protobuf_Value[f][k], m[k], room(lo, h.alloc, f, 0, 0))
}
// The message w made by a call from hc to hr still represents d in h.
proof fn made(hc: H, hr: H, w: int, d: Doc, h: H, fp: Fp)
    ensures prep(pv(hr), w, d, room(hc.alloc, hr.alloc, 0, 0, 0)) && psame_in(pv(hr), pv(h), room(hc.alloc, hr.alloc, 0, 0, 0)) && fp_sub(room(hc.alloc, hr.alloc, 0, 0, 0), fp) ==> prep(pv(h), w, d, fp)
{ prep_mono(pv(hr), w, d, room(hc.alloc, hr.alloc, 0, 0, 0), pv(h), fp); }
proof fn items_kept(hp: H, items: Slice, fx: bool, s: Seq<Doc>, n: int, lo: int, h: H, fp: Fp)
    ensures
        items_ok(hp, items, fx, s, n, lo) && psame_in(pv(hp), pv(h), room(lo, hp.alloc, items.r, 0, 0)) && fp_sub(room(lo, hp.alloc, items.r, 0, 0), fp) ==>
            forall|j: int| #![trigger slseq(hp.A_p_protobuf_Value, items)[j]] 0 <= j < n ==> prep(pv(h), slseq(hp.A_p_protobuf_Value, items)[j], s[j], fp)
{
    if items_ok(hp, items, fx, s, n, lo) && psame_in(pv(hp), pv(h), room(lo, hp.alloc, items.r, 0, 0)) && fp_sub(room(lo, hp.alloc, items.r, 0, 0), fp) {
        assert forall|j: int| #![trigger slseq(hp.A_p_protobuf_Value, items)[j]] 0 <= j < n implies prep(pv(h), slseq(hp.A_p_protobuf_Value, items)[j], s[j], fp) by {
            prep_mono(pv(hp), slseq(hp.A_p_protobuf_Value, items)[j], s[j], room(lo, hp.alloc, items.r, 0, 0), pv(h), fp);
        }
    }
}
proof fn pfields_kept(hp: H, f: int, m: Map<Str, Doc>, done: Set<Str>, lo: int, h: H, fp: Fp)
    ensures
        fields_ok(hp, f, m, done, lo) && psame_in(pv(hp), pv(h), room(lo, hp.alloc, f, 0, 0)) && fp_sub(room(lo, hp.alloc, f, 0, 0), fp) ==>
            forall|k: Str| #![trigger done.contains(k)] done.contains(k) ==> prep(pv(h), hp.M_string_p_protobuf_Value[f][k], m[k], fp)
{
    if fields_ok(hp, f, m, done, lo) && psame_in(pv(hp), pv(h), room(lo, hp.alloc, f, 0, 0)) && fp_sub(room(lo, hp.alloc, f, 0, 0), fp) {
        assert forall|k: Str| #![trigger done.contains(k)] done.contains(k) implies prep(pv(h), hp.M_string_p_protobuf_Value[f][k], m[k], fp) by {
            prep_mono(pv(hp), hp.M_string_p_protobuf_Value[f][k], m[k], room(lo, hp.alloc, f, 0, 0), pv(h), fp);
        }
    }
}
end rust

func pkg/serialization/protobuf.fromEventValue(v) (w)
  requires isdoc(vv(h), v, below(h.alloc))
  ensures @C19 [the message holds no nil values] w != 0 && (pv(h2).kind[w] is V_p_protobuf_Value_Array ==> allset(pits(pv(h2), arrof(h2, w))))
  ensures @C19 [the message represents the value] prep(pv(h2), w, olddoc(h, v), room(h.alloc, h2.alloc, 0, 0, 0))
  loop items(idx i, var items []*pkg/serialization/protobuf.Value, fixed fx items)
    invariant olddoc(h0, v) is Arr && 0 <= i <= vel(vv(h0), v).len() && vel(vv(h0), v).len() == olddoc(h0, v)->Arr_0.len()
    invariant i < vel(vv(h0), v).len() ==> isd(h, vel(vv(h0), v)[i], olddoc(h0, v)->Arr_0[i])
    invariant (items.r == 0 || items.r >= h0.alloc) && forall|r: int| 0 <= r < h0.alloc ==> #[trigger] h.A_p_protobuf_Value[r] == h0.A_p_protobuf_Value[r]
    invariant items_ok(h, items, fx, olddoc(h0, v)->Arr_0, i, hl.alloc) && set_first(slseq(h.A_p_protobuf_Value, items), i)
    hint loop: isd_parts(h0, v, h); assert(vel(vv(h0), v)[i] == vel(vv(h0), v)[i]); if !established { items_kept(h_p, items_p, fx, olddoc(h0, v)->Arr_0, i_p, hl.alloc, h, room(hl.alloc, h.alloc, items.r, 0, 0)); made(fromEventValue_h, fromEventValue_h2, fromEventValue_w, olddoc(h0, v)->Arr_0[i_p], h, room(hl.alloc, h.alloc, items.r, 0, 0)); let old = slseq(h_p.A_p_protobuf_Value, items_p); assert forall|j: int| 0 <= j < i implies #[trigger] slseq(h.A_p_protobuf_Value, items)[j] != 0 by { assert(j < i_p ==> old[j] != 0); } assert(slseq(h.A_p_protobuf_Value, items) =~= (if fx { old.update(i_p, fromEventValue_w) } else { old.push(fromEventValue_w) })); }
  hint isd_parts(h, v, h); if did_fromEventValueObject { isd_obj(h, v, fromEventValueObject_h); prepm_mono(pv(fromEventValueObject_h2), pfs(pv(fromEventValueObject_h2), fromEventValueObject_r), olddocs(fromEventValueObject_h, v), room(fromEventValueObject_h.alloc, fromEventValueObject_h2.alloc, 0, 0, 0), pv(h2), room(h.alloc, h2.alloc, 0, 0, 0)); }
    items_kept(h_items, items_items, items_fx, olddoc(h, v)->Arr_0, items_i, hl_items.alloc, h2, room(h.alloc, h2.alloc, 0, 0, 0));

func pkg/serialization/protobuf.fromEventValueObject(v) (r)
  requires v == 0 || h.event_Value_Type[v] == 5 && isdocm(vv(h), oldm(h, v), below(h.alloc))
  prehint isd_obj(h0, v, h); isdm_mono(h0, oldm(h, v), h);
  ensures @C19 [no object for nil] v == 0 ==> r == 0
  ensures @C19 [the message holds no nil values] v != 0 ==> forall|k: Str| #[trigger] pfs(pv(h2), r).dom().contains(k) ==> pfs(pv(h2), r)[k] != 0
  ensures @C19 [the message has the fields of the object] v != 0 ==> inn(room(h.alloc, h2.alloc, 0, 0, 0), r) && at0(room(h.alloc, h2.alloc, 0, 0, 0), h2.protobuf_ValueObject_Fields[r])
    && prepm(pv(h2), pfs(pv(h2), r), olddocs(h, v), room(h.alloc, h2.alloc, 0, 0, 0))
  loop fields(set done, dom all, var fields map[string]*pkg/serialization/protobuf.Value)
    invariant done.subset_of(all) && all =~= oldm(h0, v).dom() && fields >= h0.alloc && forall|r: int| 0 <= r < h0.alloc ==> #[trigger] h.M_string_p_protobuf_Value[r] == h0.M_string_p_protobuf_Value[r]
    invariant forall|k: Str| #[trigger] all.contains(k) ==> isd(h, oldm(h0, v)[k], olddocs(h0, v)[k])
    invariant fields_ok(h, fields, olddocs(h0, v), done, hl.alloc) && forall|k: Str| #[trigger] done.contains(k) ==> h.M_string_p_protobuf_Value[fields][k] != 0
    hint loop: isdm_parts(h0, oldm(h0, v), h); if !established { pfields_kept(h_p, fields_p, olddocs(h0, v), done_p, hl.alloc, h, room(hl.alloc, h.alloc, fields, 0, 0)); made(fromEventValue_h, fromEventValue_h2, fromEventValue_w, olddoc(fromEventValue_h, fromEventValue_v), h, room(hl.alloc, h.alloc, fields, 0, 0)); }
  hint isdm_parts(h, oldm(h, v), h); pfields_kept(h_fields, fields_fields, olddocs(h, v), fields_done, hl_fields.alloc, h2, room(h.alloc, h2.alloc, 0, 0, 0));

func pkg/serialization/protobuf.FromEvent(evt) (w)
  requires nullok(h) && evt != 0 && isdocm(vv(h), efields(h, evt), below(h.alloc))
  ensures @C19 [the message holds the fields of the event] wraps(h2, w, efields(h, evt), docsof(vv(h), efields(h, evt), below(h.alloc)), room(h.alloc, h2.alloc, 0, 0, 0))
  hint if did_fromEventValueObject { isdm_mono(h, efields(h, evt), fromEventValueObject_h); prepm_mono(pv(fromEventValueObject_h2), pfs(pv(fromEventValueObject_h2), fromEventValueObject_r), olddocs(fromEventValueObject_h, fromEventValueObject_v), room(fromEventValueObject_h.alloc, fromEventValueObject_h2.alloc, 0, 0, 0), pv(h2), room(h.alloc, h2.alloc, 0, 0, 0)); }

func (*pkg/serialization/protobuf.MessageWrapper).GetLog(m) (l)
  requires m != 0 ==> !(h.protobuf_MessageWrapper_Message[m] == Iface::V_p_protobuf_MessageWrapper_Log(0))
  ensures @C19 [the log of the message] l == logof(h, m)

rust
pub open spec fn logof(h: H, w: int) -> int {
    if w == 0 { 0 } else { match h.protobuf_MessageWrapper_Message[w] { Iface::V_p_protobuf_MessageWrapper_Log(x) => h.protobuf_MessageWrapper_Log_Log[x], _ => 0 } }
}
// The message w, all of memory in fp, holds the fields f (documents m) of an event that has fields.
pub open spec fn wraps(h: H, w: int, f: Map<Str, int>, m: Map<Str, Doc>, fp: Fp) -> bool {
    let l = logof(h, w);
    let o = h.protobuf_Log_Object[l];
    &&& w != 0 && l != 0
    &&& !(f =~= Map::<Str, int>::empty()) ==> o != 0 && prepm(pv(h), pfs(pv(h), o), m, fp)
}
end rust

func pkg/serialization/protobuf.toEventValue(v) (r)
  requires nullok(h) && ismsg(pv(h), v, below(h.alloc))
  ensures @C19 [the value represents the message] r != 0 && rep(vv(h2), r, oldmsg(h, v), room(h.alloc, h2.alloc, 0, 0, 0))
  ensures @C19 [the null value is not touched] nullok(h2)
  loop items(idx i, var items []*pkg/event.Value, fixed fx items)
    invariant oldmsg(h0, v) is Arr && 0 <= i <= oldmsg(h0, v)->Arr_0.len() && pits(pv(h0), arrof(h0, v)).len() == oldmsg(h0, v)->Arr_0.len()
    invariant nullok(h) && (i < oldmsg(h0, v)->Arr_0.len() ==> ism(h, pits(pv(h0), arrof(h0, v))[i], oldmsg(h0, v)->Arr_0[i]))
    invariant (items.r == 0 || items.r >= h0.alloc) && forall|r: int| 0 <= r < h0.alloc ==> #[trigger] h.A_p_event_Value[r] == h0.A_p_event_Value[r]
    invariant made_items(h, items, fx, oldmsg(h0, v)->Arr_0, i, h0.alloc)
    hint loop: ism_parts(h0, v, h); assert(pits(pv(h0), arrof(h0, v))[i] == pits(pv(h0), arrof(h0, v))[i]); if !established { made_items_kept(h_p, items_p, fx, oldmsg(h0, v)->Arr_0, i_p, h0.alloc, h, room(h0.alloc, h.alloc, items.r, 0, 0)); rmade(toEventValue_h, toEventValue_h2, toEventValue_r, oldmsg(h0, v)->Arr_0[i_p], h, room(h0.alloc, h.alloc, items.r, 0, 0)); let old = slseq(h_p.A_p_event_Value, items_p); assert(slseq(h.A_p_event_Value, items) =~= (if fx { old.update(i_p, toEventValue_r) } else { old.push(toEventValue_r) })); }
  loop fields(set done, dom all, var fields map[string]*pkg/event.Value)
    invariant done.subset_of(all) && oldmsg(h0, v) is Obj && all =~= oldmsg(h0, v)->Obj_0.dom() && fields >= h0.alloc && forall|r: int| 0 <= r < h0.alloc ==> #[trigger] h.M_string_p_event_Value[r] == h0.M_string_p_event_Value[r]
    invariant nullok(h) && forall|k: Str| #[trigger] all.contains(k) ==> ism(h, pfs(pv(h0), objof(h0, v))[k], oldmsg(h0, v)->Obj_0[k])
    invariant made_fields(h, fields, oldmsg(h0, v)->Obj_0, done, h0.alloc)
    hint loop: ism_parts(h0, v, h); if !established { made_fields_kept(h_p, fields_p, oldmsg(h0, v)->Obj_0, done_p, h0.alloc, h, room(h0.alloc, h.alloc, fields, 0, 0)); rmade(toEventValue_h, toEventValue_h2, toEventValue_r, oldmsg(toEventValue_h, toEventValue_v), h, room(h0.alloc, h.alloc, fields, 0, 0)); }
  hint ism_parts(h, v, h); assert(ismsg(pv(h), v, below(h.alloc))); made_items_kept(h_items, items_items, items_fx, oldmsg(h, v)->Arr_0, items_i, h.alloc, h2, room(h.alloc, h2.alloc, 0, 0, 0)); made_fields_kept(h_fields, fields_fields, oldmsg(h, v)->Obj_0, fields_done, h.alloc, h2, room(h.alloc, h2.alloc, 0, 0, 0));

rust
pub open spec fn oldmsg(h: H, v: int) -> Doc { msgof(pv(h), v, below(h.alloc)) }
pub open spec fn isprepm(b: PV, f: Map<Str, int>, fp: Fp) -> bool { exists|m: Map<Str, Doc>| prepm(b, f, m, fp) }
pub open spec fn msgsof(b: PV, f: Map<Str, int>, fp: Fp) -> Map<Str, Doc> { choose|m: Map<Str, Doc>| prepm(b, f, m, fp) }
pub open spec fn ism(h: H, v: int, d: Doc) -> bool { prep(pv(h), v, d, below(h.alloc)) && ismsg(pv(h), v, below(h.alloc)) && oldmsg(h, v) == d }
proof fn ism_mono(h: H, v: int, d: Doc, h2: H)
    ensures prep(pv(h), v, d, below(h.alloc)) && psame_in(pv(h), pv(h2), below(h.alloc)) && h.alloc <= h2.alloc ==> ism(h2, v, d)
{
    if prep(pv(h), v, d, below(h.alloc)) && psame_in(pv(h), pv(h2), below(h.alloc)) && h.alloc <= h2.alloc {
        prep_mono(pv(h), v, d, below(h.alloc), pv(h2), below(h2.alloc));
        assert(ismsg(pv(h2), v, below(h2.alloc)));
        prep_one(pv(h2), v, d, below(h2.alloc), oldmsg(h2, v), below(h2.alloc));
    }
}
proof fn ism_parts(h: H, v: int, h2: H)
    ensures
        ismsg(pv(h), v, below(h.alloc)) && psame_in(pv(h), pv(h2), below(h.alloc)) && h.alloc <= h2.alloc && v != 0 ==> {
            let d = oldmsg(h, v);
            &&& h.protobuf_Value_Kind[v] is V_p_protobuf_Value_Array ==> d is Arr && pits(pv(h), arrof(h, v)).len() == d->Arr_0.len()
                && forall|j: int| #![trigger pits(pv(h), arrof(h, v))[j]] 0 <= j < d->Arr_0.len() ==> ism(h2, pits(pv(h), arrof(h, v))[j], d->Arr_0[j])
            &&& h.protobuf_Value_Kind[v] is V_p_protobuf_Value_Object ==> d is Obj && pfs(pv(h), objof(h, v)).dom() =~= d->Obj_0.dom()
                && forall|k: Str| #![trigger pfs(pv(h), objof(h, v)).dom().contains(k)] #![trigger pfs(pv(h), objof(h, v))[k]] d->Obj_0.dom().contains(k) ==> ism(h2, pfs(pv(h), objof(h, v))[k], d->Obj_0[k])
        },
{
    if ismsg(pv(h), v, below(h.alloc)) && psame_in(pv(h), pv(h2), below(h.alloc)) && h.alloc <= h2.alloc && v != 0 {
        let d = oldmsg(h, v);
        assert(prep(pv(h), v, d, below(h.alloc)));
        if h.protobuf_Value_Kind[v] is V_p_protobuf_Value_Array {
            assert forall|j: int| #![trigger pits(pv(h), arrof(h, v))[j]] 0 <= j < d->Arr_0.len() implies ism(h2, pits(pv(h), arrof(h, v))[j], d->Arr_0[j]) by {
                ism_mono(h, pits(pv(h), arrof(h, v))[j], d->Arr_0[j], h2);
            }
        }
        if h.protobuf_Value_Kind[v] is V_p_protobuf_Value_Object {
            assert forall|k: Str| #![trigger pfs(pv(h), objof(h, v)).dom().contains(k)] #![trigger pfs(pv(h), objof(h, v))[k]] d->Obj_0.dom().contains(k) implies ism(h2, pfs(pv(h), objof(h, v))[k], d->Obj_0[k]) by {
                ism_mono(h, pfs(pv(h), objof(h, v))[k], d->Obj_0[k], h2);
            }
        }
    }
}
proof fn ismm_parts(h: H, f: Map<Str, int>, h2: H)
    ensures
        isprepm(pv(h), f, below(h.alloc)) && psame_in(pv(h), pv(h2), below(h.alloc)) && h.alloc <= h2.alloc ==> {
            let m = msgsof(pv(h), f, below(h.alloc));
            &&& prepm(pv(h), f, m, below(h.alloc)) && m.dom() =~= f.dom()
            &&& forall|k: Str| #![trigger f.dom().contains(k)] #![trigger f[k]] f.dom().contains(k) ==> ism(h2, f[k], m[k])
        },
{
    if isprepm(pv(h), f, below(h.alloc)) && psame_in(pv(h), pv(h2), below(h.alloc)) && h.alloc <= h2.alloc {
        let m = msgsof(pv(h), f, below(h.alloc));
        assert(prepm(pv(h), f, m, below(h.alloc)));
        assert forall|k: Str| #![trigger f.dom().contains(k)] #![trigger f[k]] f.dom().contains(k) implies ism(h2, f[k], m[k]) by { assert(m.dom().contains(k)); ism_mono(h, f[k], m[k], h2); }
    }
}
// What FromEvent makes of an event is a message of the same documents.
proof fn wraps_msgs(h: H, w: int, f: Map<Str, int>, m: Map<Str, Doc>)
    ensures
        wraps(h, w, f, m, below(h.alloc)) && !(f =~= Map::<Str, int>::empty()) ==> {
            let g = pfs(pv(h), h.protobuf_Log_Object[logof(h, w)]);
            isprepm(pv(h), g, below(h.alloc)) && msgsof(pv(h), g, below(h.alloc)) == m
        },
{
    if wraps(h, w, f, m, below(h.alloc)) && !(f =~= Map::<Str, int>::empty()) {
        let g = pfs(pv(h), h.protobuf_Log_Object[logof(h, w)]);
        assert(isprepm(pv(h), g, below(h.alloc)));
        let m2 = msgsof(pv(h), g, below(h.alloc));
        assert(prepm(pv(h), g, m2, below(h.alloc)));
        assert forall|k: Str| #[trigger] m.dom().contains(k) implies m[k] == m2[k] by { assert(m2.dom().contains(k)); prep_one(pv(h), g[k], m[k], below(h.alloc), m2[k], below(h.alloc)); }
        assert(m =~= m2);
    }
}
pub open spec fn logf(h: H, l: int) -> Map<Str, int> { if l == 0 { Map::<Str, int>::empty() } else { pfs(pv(h), h.protobuf_Log_Object[l]) } }
pub open spec fn logm(h: H, l: int) -> Map<Str, Doc> { msgsof(pv(h), logf(h, l), below(h.alloc)) }
end rust

func pkg/serialization/protobuf.ToLogEvent(l) (r)
  modifies M_string_p_event_Value
  requires nullok(h) && isprepm(pv(h), logf(h, l), below(h.alloc))
  ensures @C19 [no event without an object] (l == 0 || h.protobuf_Log_Object[l] == 0) ==> r == 0
  ensures @C19 [the event has the fields of the message] !(l == 0 || h.protobuf_Log_Object[l] == 0) ==> r >= h.alloc && (names_ok(logf(h, l).dom()) ==> repm(vv(h2), efields(h2, r), logm(h, l), below(h2.alloc)))
  loop fields(set done, dom all, var evt *pkg/event.Event)
    invariant done.subset_of(all) && all =~= logf(h0, l).dom() && evt >= h0.alloc && (h.event_Event_fields[evt] == 0 || h.event_Event_fields[evt] >= h0.alloc) && forall|x: int| 0 <= x < h0.alloc ==> #[trigger] h.event_Event_fields[x] == h0.event_Event_fields[x]
    invariant nullok(h) && forall|k: Str| #[trigger] all.contains(k) ==> ism(h, logf(h0, l)[k], logm(h0, l)[k])
    invariant names_ok(all) ==> made_fields(h, h.event_Event_fields[evt], logm(h0, l), done, h0.alloc)
    hint loop: ismm_parts(h0, logf(h0, l), h); if !established { made_fields_kept(h_p, h_p.event_Event_fields[evt], logm(h0, l), done_p, h0.alloc, h, room(h0.alloc, h.alloc, h.event_Event_fields[evt], 0, 0)); rmade(toEventValue_h, toEventValue_h2, toEventValue_r, oldmsg(toEventValue_h, toEventValue_v), h, room(h0.alloc, h.alloc, h.event_Event_fields[evt], 0, 0)); }
  hint ismm_parts(h, logf(h, l), h); made_fields_kept(h_fields, h_fields.event_Event_fields[r], logm(h, l), fields_done, h.alloc, h2, below(h2.alloc));

rust
// ToLogEvent(FromEvent(e).GetLog()) has the fields of e, with the same documents.
proof fn round_trip(h: H, e: int, h1: H, w: int, h2: H, r: int)
    ensures
        h.alloc <= h1.alloc && wraps(h1, w, efields(h, e), docsof(vv(h), efields(h, e), below(h.alloc)), room(h.alloc, h1.alloc, 0, 0, 0)) && !(efields(h, e) =~= Map::<Str, int>::empty())
        && (h1.protobuf_Log_Object[logof(h1, w)] != 0 && names_ok(logf(h1, logof(h1, w)).dom()) ==> repm(vv(h2), efields(h2, r), logm(h1, logof(h1, w)), below(h2.alloc)))
        && names_ok(efields(h, e).dom()) && isdocm(vv(h), efields(h, e), below(h.alloc)) && wf(h) && h.alloc > 0
        ==> repm(vv(h2), efields(h2, r), docsof(vv(h), efields(h, e), below(h.alloc)), below(h2.alloc))
{
    let m = docsof(vv(h), efields(h, e), below(h.alloc));
    let o = h1.protobuf_Log_Object[logof(h1, w)];
    if h.alloc <= h1.alloc && wraps(h1, w, efields(h, e), m, room(h.alloc, h1.alloc, 0, 0, 0)) && !(efields(h, e) =~= Map::<Str, int>::empty())
        && isdocm(vv(h), efields(h, e), below(h.alloc)) && names_ok(efields(h, e).dom()) && wf(h) && h.alloc > 0
    {
        assert(repm(vv(h), efields(h, e), m, below(h.alloc)));
        prepm_mono(pv(h1), pfs(pv(h1), o), m, room(h.alloc, h1.alloc, 0, 0, 0), pv(h1), below(h1.alloc));
        wraps_msgs(h1, w, efields(h, e), m);
        assert forall|k: Str| #[trigger] logf(h1, logof(h1, w)).dom().contains(k) implies name_ok(k) by { assert(m.dom().contains(k)); assert(efields(h, e).dom().contains(k)); }
    }
}
end rust
