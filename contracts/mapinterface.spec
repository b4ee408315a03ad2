# Events as plain Go maps and back.
needs govalue
builds_on C18 C20 C05 C06

rust
// The plain Go value x (in g, made up of memory in fp) is the document d.
pub open spec fn irep(g: GV, x: Iface, d: Doc, fp: Fp) -> bool
    decreases d
{
    match d {
        Doc::Null => x is Nil,
        Doc::Bool(b) => x == Iface::V_bool(b),
        Doc::Float(f) => x == Iface::V_float64(f),
        Doc::Int(n) => x == Iface::V_int64(n),
        Doc::Uint(n) => x == Iface::V_uint64(n),
        Doc::Text(t) => x == Iface::V_string(t),
        Doc::Time(n) => x == Iface::V_time_Time(time_utc(time_at(n))),
        Doc::Arr(e) => x is V_s_any && inn(fp, x->V_s_any_0.r) && {
            &&& x->V_s_any_0.l == e.len()
            &&& forall|j: int| #![trigger e[j]] #![trigger slseq(g.aa, x->V_s_any_0)[j]] 0 <= j < e.len() ==> irep(g, slseq(g.aa, x->V_s_any_0)[j], e[j], fp)
        },
        Doc::Obj(m) => x is V_m_string_any && inn(fp, x->V_m_string_any_0) && {
            &&& g.ma[x->V_m_string_any_0].dom() =~= m.dom()
            &&& forall|k: Str| #[trigger] m.dom().contains(k) ==> irep(g, g.ma[x->V_m_string_any_0][k], m[k], fp)
        },
        Doc::Bad => false,
    }
}
pub open spec fn irepm(g: GV, f: Map<Str, Iface>, m: Map<Str, Doc>, fp: Fp) -> bool {
    &&& f.dom() =~= m.dom()
    &&& forall|k: Str| #[trigger] m.dom().contains(k) ==> irep(g, f[k], m[k], fp)
}
proof fn irep_mono(g: GV, x: Iface, d: Doc, fp: Fp, g2: GV, fp2: Fp)
    ensures irep(g, x, d, fp) && gsame_in(g, g2, fp) && fp_sub(fp, fp2) ==> irep(g2, x, d, fp2)
    decreases d
{
    if irep(g, x, d, fp) && gsame_in(g, g2, fp) && fp_sub(fp, fp2) {
        match d {
            Doc::Arr(e) => {
                let s = x->V_s_any_0;
                if s.r != 0 { assert(inn(fp, s.r)); }
                assert(slseq(g2.aa, s) =~= slseq(g.aa, s));
                assert forall|j: int| #![trigger e[j]] 0 <= j < e.len() implies irep(g2, slseq(g2.aa, s)[j], e[j], fp2) by { irep_mono(g, slseq(g.aa, s)[j], e[j], fp, g2, fp2); }
                assert forall|j: int| #![trigger slseq(g2.aa, s)[j]] 0 <= j < e.len() implies irep(g2, slseq(g2.aa, s)[j], e[j], fp2) by { assert(e[j] == e[j]); }
            },
            Doc::Obj(m) => {
                let r = x->V_m_string_any_0;
                if r != 0 { assert(inn(fp, r)); }
                assert forall|k: Str| #[trigger] m.dom().contains(k) implies irep(g2, g2.ma[r][k], m[k], fp2) by { irep_mono(g, g.ma[r][k], m[k], fp, g2, fp2); }
            },
            _ => {},
        }
    }
}
proof fn irepm_mono(g: GV, f: Map<Str, Iface>, m: Map<Str, Doc>, fp: Fp, g2: GV, fp2: Fp)
    ensures irepm(g, f, m, fp) && gsame_in(g, g2, fp) && fp_sub(fp, fp2) ==> irepm(g2, f, m, fp2)
{
    if irepm(g, f, m, fp) && gsame_in(g, g2, fp) && fp_sub(fp, fp2) {
        assert forall|k: Str| #[trigger] m.dom().contains(k) implies irep(g2, f[k], m[k], fp2) by { irep_mono(g, f[k], m[k], fp, g2, fp2); }
    }
}
pub open spec fn iitems(h: H, items: Slice, fx: bool, s: Seq<Doc>, n: int, lo: int) -> bool {
    &&& items.l == (if fx { s.len() as int } else { n }) && 0 <= n <= s.len()
    &&& forall|j: int| #![trigger slseq(h.A_any, items)[j]] 0 <= j < n ==> irep(gv(h), slseq(h.A_any, items)[j], s[j], room(lo, h.alloc, items.r, 0, 0))
}
pub open spec fn ifields(h: H, f: int, m: Map<Str, Doc>, done: Set<Str>, lo: int) -> bool {
    &&& h.M_string_any[f].dom() =~= done
    &&& forall|k: Str| #![trigger done.contains(k)] done.contains(k) ==> irep(gv(h), h.M_string_any[f][k], m[k], room(lo, h.alloc, f, 0, 0))
}
proof fn imade(hc: H, hr: H, x: Iface, d: Doc, h: H, fp: Fp)
    ensures irep(gv(hr), x, d, room(hc.alloc, hr.alloc, 0, 0, 0)) && gsame_in(gv(hr), gv(h), room(hc.alloc, hr.alloc, 0, 0, 0)) && fp_sub(room(hc.alloc, hr.alloc, 0, 0, 0), fp) ==> irep(gv(h), x, d, fp)
{ irep_mono(gv(hr), x, d, room(hc.alloc, hr.alloc, 0, 0, 0), gv(h), fp); }
proof fn iitems_kept(hp: H, items: Slice, fx: bool, s: Seq<Doc>, n: int, lo: int, h: H, fp: Fp)
    ensures
        iitems(hp, items, fx, s, n, lo) && gsame_in(gv(hp), gv(h), room(lo, hp.alloc, items.r, 0, 0)) && fp_sub(room(lo, hp.alloc, items.r, 0, 0), fp) ==>
            forall|j: int| #![trigger slseq(hp.A_any, items)[j]] 0 <= j < n ==> irep(gv(h), slseq(hp.A_any, items)[j], s[j], fp)
{
    if iitems(hp, items, fx, s, n, lo) && gsame_in(gv(hp), gv(h), room(lo, hp.alloc, items.r, 0, 0)) && fp_sub(room(lo, hp.alloc, items.r, 0, 0), fp) {
        assert forall|j: int| #![trigger slseq(hp.A_any, items)[j]] 0 <= j < n implies irep(gv(h), slseq(hp.A_any, items)[j], s[j], fp) by {
            irep_mono(gv(hp), slseq(hp.A_any, items)[j], s[j], room(lo, hp.alloc, items.r, 0, 0), gv(h), fp);
        }
    }
}
proof fn ifields_kept(hp: H, f: int, m: Map<Str, Doc>, done: Set<Str>, lo: int, h: H, fp: Fp)
    ensures
        ifields(hp, f, m, done, lo) && gsame_in(gv(hp), gv(h), room(lo, hp.alloc, f, 0, 0)) && fp_sub(room(lo, hp.alloc, f, 0, 0), fp) ==>
            forall|k: Str| #![trigger done.contains(k)] done.contains(k) ==> irep(gv(h), hp.M_string_any[f][k], m[k], fp)
{
    if ifields(hp, f, m, done, lo) && gsame_in(gv(hp), gv(h), room(lo, hp.alloc, f, 0, 0)) && fp_sub(room(lo, hp.alloc, f, 0, 0), fp) {
        assert forall|k: Str| #![trigger done.contains(k)] done.contains(k) implies irep(gv(h), hp.M_string_any[f][k], m[k], fp) by {
            irep_mono(gv(hp), hp.M_string_any[f][k], m[k], room(lo, hp.alloc, f, 0, 0), gv(h), fp);
        }
    }
}
// Plain Go values denote, through ReflectValue, the documents they are.
proof fn irep_gd(g: GV, x: Iface, d: Doc, fp: Fp)
    ensures reflect_facts() && (forall|n: int| time_nanos(time_utc(#[trigger] time_at(n))) == n) && irep(g, x, d, fp) ==> gd(g, Src::I(x), d, fp) && clean(d)
    decreases d
{
    if reflect_facts() && (forall|n: int| time_nanos(time_utc(#[trigger] time_at(n))) == n) && irep(g, x, d, fp) {
        let v0 = rv_of(x); assert(rv_facts(x));
        match d {
            Doc::Arr(e) => {
                let v = rv_of(x);
                assert forall|j: int| #![trigger e[j]] #![trigger rv_index(v, j)] 0 <= j < e.len() implies rv_seq(rv_index(v, j)) == v && rv_pos(rv_index(v, j)) == j && rfix(rv_index(v, j), fp) && gd(g, Src::I(rv_iface(g.aa, rv_index(v, j))), e[j], fp) && clean(e[j]) by {
                    assert(e[j] == e[j]);
                    irep_gd(g, slseq(g.aa, x->V_s_any_0)[j], e[j], fp);
                    assert(rv_iface(g.aa, rv_index(v, j)) == slseq(g.aa, x->V_s_any_0)[j]);
                }
                assert(gd(g, Src::R(v), d, fp));
            },
            Doc::Obj(m) => {
                let r = x->V_m_string_any_0;
                assert forall|k: Str| #[trigger] m.dom().contains(k) implies gd(g, Src::I(g.ma[r][k]), m[k], fp) && clean(m[k]) by { irep_gd(g, g.ma[r][k], m[k], fp); }
            },
            _ => {},
        }
    }
}
end rust

func pkg/serialization/mapinterface.fromEventValue(v) (x)
  requires isdoc(vv(h), v, below(h.alloc))
  ensures @C18 [the Go value has the kind and content of the value] irep(gv(h2), x, olddoc(h, v), room(h.alloc, h2.alloc, 0, 0, 0))
  loop items(idx i, var items []interface{}, fixed fx items)
    invariant olddoc(h0, v) is Arr && 0 <= i <= vel(vv(h0), v).len() && vel(vv(h0), v).len() == olddoc(h0, v)->Arr_0.len()
    invariant i < vel(vv(h0), v).len() ==> isd(h, vel(vv(h0), v)[i], olddoc(h0, v)->Arr_0[i])
    invariant items.r >= h0.alloc
    invariant iitems(h, items, fx, olddoc(h0, v)->Arr_0, i, h0.alloc)
    hint loop: isd_parts(h0, v, h); assert(vel(vv(h0), v)[i] == vel(vv(h0), v)[i]); if !established { iitems_kept(h_p, items_p, fx, olddoc(h0, v)->Arr_0, i_p, h0.alloc, h, room(h0.alloc, h.alloc, items.r, 0, 0)); imade(fromEventValue_h, fromEventValue_h2, fromEventValue_x, olddoc(h0, v)->Arr_0[i_p], h, room(h0.alloc, h.alloc, items.r, 0, 0)); assert(slseq(h.A_any, items) =~= (if fx { slseq(h_p.A_any, items_p).update(i_p, fromEventValue_x) } else { slseq(h_p.A_any, items_p).push(fromEventValue_x) })); }
  loop fields(set done, dom all, var fields map[string]interface{})
    invariant olddoc(h0, v) is Obj && done.subset_of(all) && all =~= oldm(h0, v).dom() && fields >= h0.alloc
    invariant forall|k: Str| #[trigger] all.contains(k) ==> isd(h, oldm(h0, v)[k], olddoc(h0, v)->Obj_0[k])
    invariant ifields(h, fields, olddoc(h0, v)->Obj_0, done, h0.alloc)
    hint loop: isd_obj(h0, v, h0); isdm_parts(h0, oldm(h0, v), h); if !established { ifields_kept(h_p, fields_p, olddoc(h0, v)->Obj_0, done_p, h0.alloc, h, room(h0.alloc, h.alloc, fields, 0, 0)); imade(fromEventValue_h, fromEventValue_h2, fromEventValue_x, olddoc(fromEventValue_h, fromEventValue_v), h, room(h0.alloc, h.alloc, fields, 0, 0)); }
  hint isd_parts(h, v, h); if did_fromEventValueObject { isd_obj(h, v, fromEventValueObject_h); irepm_mono(gv(fromEventValueObject_h2), fromEventValueObject_h2.M_string_any[fromEventValueObject_r], olddocs(fromEventValueObject_h, v), room(fromEventValueObject_h.alloc, fromEventValueObject_h2.alloc, 0, 0, 0), gv(h2), room(h.alloc, h2.alloc, 0, 0, 0)); }
    iitems_kept(h_items, items_items, items_fx, olddoc(h, v)->Arr_0, items_i, h.alloc, h2, room(h.alloc, h2.alloc, 0, 0, 0));
    if in_fields { isd_obj(h, v, h); isdm_parts(h, oldm(h, v), h); ifields_kept(h_fields, fields_fields, olddoc(h, v)->Obj_0, fields_done, h.alloc, h2, room(h.alloc, h2.alloc, 0, 0, 0)); }

func pkg/serialization/mapinterface.fromEventValueObject(v) (r)
  requires v == 0 || h.event_Value_Type[v] == 5 && isdocm(vv(h), oldm(h, v), below(h.alloc))
  prehint isd_obj(h0, v, h); isdm_mono(h0, oldm(h, v), h);
  ensures @C18 [no map for nil] v == 0 ==> r == 0
  ensures @C18 [the map has an entry for every field] v != 0 ==> inn(room(h.alloc, h2.alloc, 0, 0, 0), r) && irepm(gv(h2), h2.M_string_any[r], olddocs(h, v), room(h.alloc, h2.alloc, 0, 0, 0))
  loop fields(set done, dom all, var fields map[string]interface{})
    invariant done.subset_of(all) && all =~= oldm(h0, v).dom() && fields >= h0.alloc
    invariant forall|k: Str| #[trigger] all.contains(k) ==> isd(h, oldm(h0, v)[k], olddocs(h0, v)[k])
    invariant ifields(h, fields, olddocs(h0, v), done, h0.alloc)
    hint loop: isdm_parts(h0, oldm(h0, v), h); if !established { ifields_kept(h_p, fields_p, olddocs(h0, v), done_p, h0.alloc, h, room(h0.alloc, h.alloc, fields, 0, 0)); imade(fromEventValue_h, fromEventValue_h2, fromEventValue_x, olddoc(fromEventValue_h, fromEventValue_v), h, room(h0.alloc, h.alloc, fields, 0, 0)); }
  hint isdm_parts(h, oldm(h, v), h); ifields_kept(h_fields, fields_fields, olddocs(h, v), fields_done, h.alloc, h2, room(h.alloc, h2.alloc, 0, 0, 0));

func pkg/serialization/mapinterface.FromEvent(evt) (r)
  requires nullok(h) && evt != 0 && isdocm(vv(h), efields(h, evt), below(h.alloc))
  ensures @C18 [the map has an entry for every field of the event, nothing else] irepm(gv(h2), h2.M_string_any[r], docsof(vv(h), efields(h, evt), below(h.alloc)), room(h.alloc, h2.alloc, 0, 0, 0)) && at0(room(h.alloc, h2.alloc, 0, 0, 0), r)
  hint isdm_parts(h, efields(h, evt), h); if did_fromEventValueObject { isdm_mono(h, efields(h, evt), fromEventValueObject_h); irepm_mono(gv(fromEventValueObject_h2), fromEventValueObject_h2.M_string_any[fromEventValueObject_r], olddocs(fromEventValueObject_h, fromEventValueObject_v), room(fromEventValueObject_h.alloc, fromEventValueObject_h2.alloc, 0, 0, 0), gv(h2), room(h.alloc, h2.alloc, 0, 0, 0)); }

macro MD gdoc(h0, msrc(m))

func pkg/serialization/mapinterface.ToEvent(m) (r, err)
  modifies M_string_p_event_Value mapiter_of mapiter_pos
  requires nullok(h) && isg(gv(h), msrc(m), below(h.alloc))
  ensures @C18 [values that have no representation are an error] !clean(gdoc(h, msrc(m))) ==> r == 0 && unsupported(err)
  ensures @C18 [the event has the fields of the map] clean(gdoc(h, msrc(m))) && names_ok(h.M_string_any[m].dom()) ==> err is Nil && r >= h.alloc && repm(vv(h2), efields(h2, r), gdoc(h, msrc(m))->Obj_0, below(h2.alloc))
  loop fields(set done, dom all, map src, var evt *pkg/event.Event, ovar err error = Iface::Nil)
    invariant err is Nil
    invariant clean($MD) && $MD is Obj && $MD->Obj_0.dom() =~= h0.M_string_any[m].dom() && evt >= h0.alloc
    invariant names_ok(h0.M_string_any[m].dom()) ==> done.subset_of(all) && all =~= h0.M_string_any[m].dom() && root_kept(hl, h, evt) && (src == 0 || h0.alloc <= src < hl.alloc && src != h.event_Event_fields[evt]) && h.M_string_p_event_Value[src].dom() =~= all
    invariant names_ok(h0.M_string_any[m].dom()) ==> forall|k: Str| #[trigger] all.contains(k) ==> h.M_string_p_event_Value[src][k] != 0 && rep(vv(h), h.M_string_p_event_Value[src][k], $MD->Obj_0[k], room(h0.alloc, hl.alloc, hl.event_Event_fields[evt], 0, 0))
    invariant names_ok(h0.M_string_any[m].dom()) ==> nullok(h) && (h.event_Event_fields[evt] == 0 || h.event_Event_fields[evt] >= h0.alloc) && made_fields(h, h.event_Event_fields[evt], $MD->Obj_0, done, h0.alloc)
    hint loop: gd_parts(h0, msrc(m), h0); isgd_mono(h0, msrc(m), $MD, ReflectValue_h);
      if established { members_made(ReflectValue_h, ReflectValue_h2, ReflectValue_r, $MD, h, room(h0.alloc, hl.alloc, hl.event_Event_fields[evt], 0, 0)); }
      else { made_fields_kept(h_p, h_p.event_Event_fields[evt], $MD->Obj_0, done_p, h0.alloc, h, room(h0.alloc, h.alloc, h.event_Event_fields[evt], 0, 0));
        members_kept(h_p, src, $MD->Obj_0, h, room(h0.alloc, hl.alloc, hl.event_Event_fields[evt], 0, 0), room(h0.alloc, hl.alloc, hl.event_Event_fields[evt], 0, 0));
        members_kept(h_p, src, $MD->Obj_0, h, room(h0.alloc, hl.alloc, hl.event_Event_fields[evt], 0, 0), room(h0.alloc, h.alloc, h.event_Event_fields[evt], 0, 0)); }
  hint gd_parts(h, msrc(m), h); isgd_mono(h, msrc(m), gdoc(h, msrc(m)), ReflectValue_h); made_fields_kept(h_fields, h_fields.event_Event_fields[r], gdoc(h, msrc(m))->Obj_0, fields_done, h.alloc, h2, below(h2.alloc));

rust
pub open spec fn msrc(m: int) -> Src { Src::I(Iface::V_m_string_any(m)) }
// The members of an object made by a call from hc to hr, in h.
proof fn members_made(hc: H, hr: H, r: int, d: Doc, h: H, fp: Fp)
    ensures
        d is Obj && rep(vv(hr), r, d, room(hc.alloc, hr.alloc, 0, 0, 0)) && same_docs(vv(hr), vv(h), room(hc.alloc, hr.alloc, 0, 0, 0)) && fp_sub(room(hc.alloc, hr.alloc, 0, 0, 0), fp) ==>
            at0(room(hc.alloc, hr.alloc, 0, 0, 0), hr.event_Value_Object[r]) && hr.event_Value_Object[r] == h.event_Value_Object[r] && oldm(hr, r) == oldm(h, r) && oldm(h, r).dom() =~= d->Obj_0.dom() && forall|k: Str| #[trigger] d->Obj_0.dom().contains(k) ==> rep(vv(h), oldm(h, r)[k], d->Obj_0[k], fp)
{
    rep_mono(vv(hr), r, d, room(hc.alloc, hr.alloc, 0, 0, 0), vv(h), fp);
    if d is Obj && rep(vv(hr), r, d, room(hc.alloc, hr.alloc, 0, 0, 0)) { assert(inn(room(hc.alloc, hr.alloc, 0, 0, 0), r)); if hr.event_Value_Object[r] != 0 { assert(inn(room(hc.alloc, hr.alloc, 0, 0, 0), hr.event_Value_Object[r])); } }
}
proof fn members_kept(hp: H, f: int, m: Map<Str, Doc>, h: H, fp: Fp, fp2: Fp)
    ensures
        same_docs(vv(hp), vv(h), fp) && fp_sub(fp, fp2) && h.M_string_p_event_Value[f] == hp.M_string_p_event_Value[f] ==>
            forall|k: Str| #[trigger] m.dom().contains(k) && rep(vv(hp), hp.M_string_p_event_Value[f][k], m[k], fp) ==> rep(vv(h), h.M_string_p_event_Value[f][k], m[k], fp2)
{
    if same_docs(vv(hp), vv(h), fp) && fp_sub(fp, fp2) && h.M_string_p_event_Value[f] == hp.M_string_p_event_Value[f] {
        assert forall|k: Str| #[trigger] m.dom().contains(k) && rep(vv(hp), hp.M_string_p_event_Value[f][k], m[k], fp) implies rep(vv(h), h.M_string_p_event_Value[f][k], m[k], fp2) by {
            rep_mono(vv(hp), hp.M_string_p_event_Value[f][k], m[k], fp, vv(h), fp2);
        }
    }
}
end rust

rust
// The map FromEvent makes of an event is one ToEvent accepts, and denotes the
// documents of the event: ToEvent(FromEvent(e)) has the fields of e.
proof fn round_trip_map(h: H, h1: H, r: int, m: Map<Str, Doc>)
    ensures
        reflect_facts() && (forall|n: int| time_nanos(time_utc(#[trigger] time_at(n))) == n)
        && h.alloc <= h1.alloc && h.alloc > 0 && irepm(gv(h1), h1.M_string_any[r], m, room(h.alloc, h1.alloc, 0, 0, 0)) && at0(room(h.alloc, h1.alloc, 0, 0, 0), r)
        ==> isg(gv(h1), msrc(r), below(h1.alloc)) && gdoc(h1, msrc(r)) == Doc::Obj(m) && clean(Doc::Obj(m))
{
    if reflect_facts() && (forall|n: int| time_nanos(time_utc(#[trigger] time_at(n))) == n)
        && h.alloc <= h1.alloc && h.alloc > 0 && irepm(gv(h1), h1.M_string_any[r], m, room(h.alloc, h1.alloc, 0, 0, 0)) && at0(room(h.alloc, h1.alloc, 0, 0, 0), r) {
        let x = Iface::V_m_string_any(r);
        let fp = room(h.alloc, h1.alloc, 0, 0, 0);
        assert forall|k: Str| #[trigger] m.dom().contains(k) implies gd(gv(h1), Src::I(h1.M_string_any[r][k]), m[k], fp) && clean(m[k]) by { irep_gd(gv(h1), h1.M_string_any[r][k], m[k], fp); }
        assert(gd(gv(h1), Src::I(x), Doc::Obj(m), fp));
        gd_mono(gv(h1), msrc(r), Doc::Obj(m), fp, gv(h1), below(h1.alloc));
        isgd_mono(h1, msrc(r), Doc::Obj(m), h1);
    }
}
end rust
