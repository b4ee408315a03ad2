# Deep copies. Values are finite: vrank decreases from a value to the values it
# holds.
needs process
builds_on C14 C01 C02 C05

rust
pub uninterp spec fn vrank(v: int) -> nat;
// What makes up values.
pub struct VV {
    pub ty: Map<int, int>, pub s: Map<int, Str>, pub i: Map<int, int>, pub u: Map<int, int>, pub f: Map<int, Flt>, pub b: Map<int, bool>, pub t: Map<int, int>,
    pub ar: Map<int, Slice>, pub ob: Map<int, int>, pub a: Map<int, Map<int, int>>, pub m: Map<int, Map<Str, int>>,
}
pub open spec fn vv(h: H) -> VV {
    VV { ty: h.event_Value_Type, s: h.event_Value_String, i: h.event_Value_Integer, u: h.event_Value_UnsignedInteger, f: h.event_Value_Float, b: h.event_Value_Bool,
        t: h.event_Time_UnixNanos, ar: h.event_Value_Array, ob: h.event_Value_Object, a: h.A_p_event_Value, m: h.M_string_p_event_Value }
}
pub open spec fn vel(a: VV, v: int) -> Seq<int> { slseq(a.a, a.ar[v]) }
pub open spec fn toff() -> int { offset_of("event_Value.Timestamp") }
pub open spec fn same_scalars(a: VV, v: int, b: VV, r: int) -> bool {
    a.ty[v] == b.ty[r] && a.s[v] == b.s[r] && a.i[v] == b.i[r] && a.u[v] == b.u[r] && a.f[v] == b.f[r] && a.b[v] == b.b[r] && a.t[v + toff()] == b.t[r + toff()]
}
// v is a finite value below lim.
pub open spec fn finite(a: VV, v: int, lim: int) -> bool
    decreases vrank(v)
{
    v != 0 ==> {
        &&& 0 < v && v + toff() < lim && 0 <= a.ar[v].r < lim && 0 <= a.ob[v] < lim
        &&& forall|j: int| #![trigger vel(a, v)[j]] 0 <= j < vel(a, v).len() ==> vrank(vel(a, v)[j]) < vrank(v) && finite(a, vel(a, v)[j], lim)
        &&& forall|k: Str| #[trigger] a.m[a.ob[v]].dom().contains(k) ==> vrank(a.m[a.ob[v]][k]) < vrank(v) && finite(a, a.m[a.ob[v]][k], lim)
    }
}
// r (in b) is a copy of v (in a); all that makes it up lies in fp.
pub open spec fn copy(a: VV, v: int, b: VV, r: int, fp: Fp) -> bool
    decreases vrank(v)
{
    if v == 0 { r == 0 } else {
        &&& r != 0 && inn(fp, r) && same_scalars(a, v, b, r) && inn(fp, r + toff())
        &&& (a.ar[v].r == 0) == (b.ar[r].r == 0)
        &&& (b.ar[r].r != 0 ==> inn(fp, b.ar[r].r))
        &&& vel(a, v).len() == vel(b, r).len()
        &&& forall|j: int| #![trigger vel(a, v)[j]] 0 <= j < vel(a, v).len() ==> vrank(vel(a, v)[j]) < vrank(v) && copy(a, vel(a, v)[j], b, vel(b, r)[j], fp)
        &&& (a.ob[v] == 0) == (b.ob[r] == 0)
        &&& (b.ob[r] != 0 ==> inn(fp, b.ob[r]))
        &&& b.m[b.ob[r]].dom() =~= a.m[a.ob[v]].dom()
        &&& forall|k: Str| #[trigger] a.m[a.ob[v]].dom().contains(k) ==> vrank(a.m[a.ob[v]][k]) < vrank(v) && copy(a, a.m[a.ob[v]][k], b, b.m[b.ob[r]][k], fp)
    }
}
// References in [lo, hi) other than x, y, z.
pub struct Fp { pub lo: int, pub hi: int, pub x: int, pub y: int, pub z: int }
pub open spec fn inn(f: Fp, r: int) -> bool { f.lo <= r < f.hi && r != f.x && r != f.y && r != f.z }
pub open spec fn fp_sub(f: Fp, g: Fp) -> bool { forall|r: int| inn(f, r) ==> #[trigger] inn(g, r) }
pub open spec fn room(lo: int, hi: int, x: int, y: int, z: int) -> Fp { Fp { lo: lo, hi: hi, x: x, y: y, z: z } }
// b and b2 hold the same at every reference in fp
pub open spec fn same_in(b: VV, b2: VV, fp: Fp) -> bool {
    &&& forall|r: int| #![trigger inn(fp, r)] #![trigger b2.a[r]] #![trigger b2.m[r]] #![trigger b2.ar[r]] #![trigger b2.ob[r]] inn(fp, r) ==> b.ty[r] == b2.ty[r] && b.s[r] == b2.s[r] && b.i[r] == b2.i[r] && b.u[r] == b2.u[r] && b.f[r] == b2.f[r] && b.b[r] == b2.b[r]
        && b.t[r] == b2.t[r] && b.ar[r] == b2.ar[r] && b.ob[r] == b2.ob[r] && b.a[r] == b2.a[r] && b.m[r] == b2.m[r]
    &&& b.m[0] == b2.m[0] && b.a[0] == b2.a[0]
}
pub open spec fn below(lim: int) -> Fp { room(0, lim, -1, -1, -1) }
proof fn finite_mono(a: VV, v: int, lim: int, a2: VV, lim2: int)
    ensures finite(a, v, lim) && same_in(a, a2, below(lim)) && lim <= lim2 && lim > 0 ==> finite(a2, v, lim2)
    decreases vrank(v)
{
    if finite(a, v, lim) && same_in(a, a2, below(lim)) && lim <= lim2 && lim > 0 && v != 0 {
        assert(inn(below(lim), v) && inn(below(lim), a.ar[v].r) && inn(below(lim), a.ob[v]));
        assert(vel(a2, v) =~= vel(a, v));
        assert forall|j: int| #![trigger vel(a, v)[j]] 0 <= j < vel(a, v).len() implies vrank(vel(a, v)[j]) < vrank(v) && finite(a2, vel(a, v)[j], lim2) by {
            finite_mono(a, vel(a, v)[j], lim, a2, lim2);
        }
        assert forall|k: Str| #[trigger] a.m[a.ob[v]].dom().contains(k) implies vrank(a.m[a.ob[v]][k]) < vrank(v) && finite(a2, a.m[a.ob[v]][k], lim2) by {
            finite_mono(a, a.m[a.ob[v]][k], lim, a2, lim2);
        }
    }
}
// A copy remains a copy when other memory changes.
proof fn copy_mono(a: VV, v: int, b: VV, r: int, fp: Fp, a2: VV, b2: VV, fp2: Fp, lim: int)
    ensures finite(a, v, lim) && lim > 0 && same_in(a, a2, below(lim)) && copy(a, v, b, r, fp) && same_in(b, b2, fp) && fp_sub(fp, fp2) ==> copy(a2, v, b2, r, fp2)
    decreases vrank(v)
{
    if finite(a, v, lim) && lim > 0 && same_in(a, a2, below(lim)) && copy(a, v, b, r, fp) && same_in(b, b2, fp) && fp_sub(fp, fp2) && v != 0 {
        assert(inn(below(lim), v) && inn(below(lim), v + toff()) && inn(below(lim), a.ar[v].r) && inn(below(lim), a.ob[v]));
        assert(inn(fp, r) && inn(fp, r + toff()));
        if b.ar[r].r != 0 { assert(inn(fp, b.ar[r].r)); }
        if b.ob[r] != 0 { assert(inn(fp, b.ob[r])); }
        assert(vel(a2, v) =~= vel(a, v));
        assert(vel(b2, r) =~= vel(b, r));
        assert forall|j: int| #![trigger vel(a2, v)[j]] 0 <= j < vel(a2, v).len() implies vrank(vel(a2, v)[j]) < vrank(v) && copy(a2, vel(a2, v)[j], b2, vel(b2, r)[j], fp2) by {
            assert(vel(a, v)[j] == vel(a2, v)[j]);
            copy_mono(a, vel(a, v)[j], b, vel(b, r)[j], fp, a2, b2, fp2, lim);
        }
        assert forall|k: Str| #[trigger] a2.m[a2.ob[v]].dom().contains(k) implies vrank(a2.m[a2.ob[v]][k]) < vrank(v) && copy(a2, a2.m[a2.ob[v]][k], b2, b2.m[b2.ob[r]][k], fp2) by {
            assert(a.m[a.ob[v]].dom().contains(k));
            copy_mono(a, a.m[a.ob[v]][k], b, b.m[b.ob[r]][k], fp, a2, b2, fp2, lim);
        }
    }
}
// The copy c under construction: the parts copied so far lie in spot(h0, h, c).
pub open spec fn spot(h0: H, h: H, c: int) -> Fp { room(h0.alloc, h.alloc, c, h.event_Value_Array[c].r, h.event_Value_Object[c]) }
pub open spec fn shell(h0: H, h: H, v: int, c: int) -> bool {
    &&& v != 0 && c >= h0.alloc && c + toff() < h.alloc && same_scalars(vv(h0), v, vv(h), c)
    &&& (h.event_Value_Array[c].r == 0 || h.event_Value_Array[c].r >= h0.alloc || h.event_Value_Array[c] == h0.event_Value_Array[v])
    &&& (h.event_Value_Object[c] == 0 || h.event_Value_Object[c] >= h0.alloc || h.event_Value_Object[c] == h0.event_Value_Object[v])
    &&& same_in(vv(h0), vv(h), below(h0.alloc))
}
// The length of the list while it is filled: its final length, when made that
// long at the start.
pub open spec fn esize(h0: H, hl: H, v: int, c: int, n: int) -> int {
    if hl.event_Value_Array[c].l == vel(vv(h0), v).len() { vel(vv(h0), v).len() as int } else { n }
}
pub open spec fn els_ok(h0: H, h: H, v: int, c: int, l: int, n: int) -> bool {
    &&& h0.event_Value_Array[v].r != 0 && h.event_Value_Array[c].l == l && n <= l && h.event_Value_Array[c].r >= h0.alloc && 0 <= n <= vel(vv(h0), v).len()
    &&& forall|j: int| #![trigger vel(vv(h), c)[j]] 0 <= j < n ==> copy(vv(h0), vel(vv(h0), v)[j], vv(h), vel(vv(h), c)[j], spot(h0, h, c))
}
pub open spec fn flds_ok(h0: H, h: H, v: int, c: int, done: Set<Str>) -> bool {
    let (m0, m) = (vv(h0).m[vv(h0).ob[v]], vv(h).m[vv(h).ob[c]]);
    &&& h0.event_Value_Object[v] != 0 && h.event_Value_Object[c] >= h0.alloc && m.dom() =~= done && done.subset_of(m0.dom())
    &&& forall|k: Str| #![trigger m.dom().contains(k)] done.contains(k) ==> copy(vv(h0), m0[k], vv(h), m[k], spot(h0, h, c))
}
pub open spec fn els_done(h0: H, h: H, v: int, c: int) -> bool {
    h.event_Value_Array[c] == h0.event_Value_Array[v] || els_ok(h0, h, v, c, vel(vv(h0), v).len() as int, vel(vv(h0), v).len() as int)
}
pub open spec fn flds_done(h0: H, h: H, v: int, c: int) -> bool {
    h.event_Value_Object[c] == h0.event_Value_Object[v] || flds_ok(h0, h, v, c, vv(h0).m[vv(h0).ob[v]].dom())
}
// The elements (fields) copied so far remain copies when only the copy under
// construction and new memory change.
pub open spec fn kept(h0: H, hp: H, h: H, v: int, c: int) -> bool {
    finite(vv(h0), v, h0.alloc) && shell(h0, hp, v, c) && shell(h0, h, v, c) && same_in(vv(hp), vv(h), spot(h0, hp, c)) && fp_sub(spot(h0, hp, c), spot(h0, h, c))
}
proof fn els_kept(h0: H, hp: H, h: H, v: int, c: int, l: int, n: int)
    ensures
        kept(h0, hp, h, v, c) && els_ok(h0, hp, v, c, l, n) ==>
            forall|j: int| #![trigger vel(vv(h0), v)[j]] 0 <= j < n ==> copy(vv(h0), vel(vv(h0), v)[j], vv(h), vel(vv(hp), c)[j], spot(h0, h, c)),
{
    if kept(h0, hp, h, v, c) && els_ok(h0, hp, v, c, l, n) {
        assert forall|j: int| #![trigger vel(vv(h0), v)[j]] 0 <= j < n implies copy(vv(h0), vel(vv(h0), v)[j], vv(h), vel(vv(hp), c)[j], spot(h0, h, c)) by {
            assert(vel(vv(hp), c)[j] == vel(vv(hp), c)[j]);
            copy_mono(vv(h0), vel(vv(h0), v)[j], vv(hp), vel(vv(hp), c)[j], spot(h0, hp, c), vv(h0), vv(h), spot(h0, h, c), h0.alloc);
        }
    }
}
proof fn flds_kept(h0: H, hp: H, h: H, v: int, c: int, done: Set<Str>)
    ensures
        kept(h0, hp, h, v, c) && flds_ok(h0, hp, v, c, done) ==>
            forall|k: Str| #[trigger] done.contains(k) ==> copy(vv(h0), vv(h0).m[vv(h0).ob[v]][k], vv(h), vv(hp).m[vv(hp).ob[c]][k], spot(h0, h, c)),
{
    if kept(h0, hp, h, v, c) && flds_ok(h0, hp, v, c, done) {
        assert forall|k: Str| #[trigger] done.contains(k) implies copy(vv(h0), vv(h0).m[vv(h0).ob[v]][k], vv(h), vv(hp).m[vv(hp).ob[c]][k], spot(h0, h, c)) by {
            assert(vv(hp).m[vv(hp).ob[c]].dom().contains(k));
            assert(vv(h0).m[vv(h0).ob[v]].dom().contains(k));
            copy_mono(vv(h0), vv(h0).m[vv(h0).ob[v]][k], vv(hp), vv(hp).m[vv(hp).ob[c]][k], spot(h0, hp, c), vv(h0), vv(h), spot(h0, h, c), h0.alloc);
        }
    }
}
// The copy x -> r that a call from hc to hr made is part of the copy under construction in h.
proof fn part(h0: H, hc: H, hr: H, h: H, v: int, c: int, x: int, r: int)
    ensures
        finite(vv(h0), x, h0.alloc) && wf(h0) && same_in(vv(h0), vv(hc), below(h0.alloc)) && copy(vv(hc), x, vv(hr), r, room(hc.alloc, hr.alloc, 0, 0, 0))
        && same_in(vv(hr), vv(h), room(hc.alloc, hr.alloc, 0, 0, 0)) && fp_sub(room(hc.alloc, hr.alloc, 0, 0, 0), spot(h0, h, c)) ==> copy(vv(h0), x, vv(h), r, spot(h0, h, c)),
{
    if finite(vv(h0), x, h0.alloc) && wf(h0) && same_in(vv(h0), vv(hc), below(h0.alloc)) {
        finite_mono(vv(h0), x, h0.alloc, vv(hc), h0.alloc);
        assert(h0.alloc > 0);
        assert(finite(vv(hc), x, h0.alloc));
        assert(same_in(vv(hc), vv(h0), below(h0.alloc)));
        copy_mono(vv(hc), x, vv(hr), r, room(hc.alloc, hr.alloc, 0, 0, 0), vv(h0), vv(h), spot(h0, h, c), h0.alloc);
    }
}
// The copies s (fs) of the elements (fields) of v, made before h, remain copies.
proof fn el_keep(h0: H, hp: H, h: H, v: int, s: Seq<int>, n: int, fpp: Fp, fp: Fp)
    ensures
        finite(vv(h0), v, h0.alloc) && h0.alloc > 0 && v != 0 && n <= vel(vv(h0), v).len() && (forall|j: int| #![trigger s[j]] 0 <= j < n ==> copy(vv(h0), vel(vv(h0), v)[j], vv(hp), s[j], fpp)) && same_in(vv(hp), vv(h), fpp) && fp_sub(fpp, fp)
        ==> forall|j: int| #![trigger vel(vv(h0), v)[j]] #![trigger s[j]] 0 <= j < n ==> copy(vv(h0), vel(vv(h0), v)[j], vv(h), s[j], fp),
{
    if finite(vv(h0), v, h0.alloc) && h0.alloc > 0 && v != 0 && n <= vel(vv(h0), v).len() && (forall|j: int| #![trigger s[j]] 0 <= j < n ==> copy(vv(h0), vel(vv(h0), v)[j], vv(hp), s[j], fpp)) && same_in(vv(hp), vv(h), fpp) && fp_sub(fpp, fp) {
        assert forall|j: int| #![trigger vel(vv(h0), v)[j]] #![trigger s[j]] 0 <= j < n implies copy(vv(h0), vel(vv(h0), v)[j], vv(h), s[j], fp) by {
            assert(s[j] == s[j]);
            copy_mono(vv(h0), vel(vv(h0), v)[j], vv(hp), s[j], fpp, vv(h0), vv(h), fp, h0.alloc);
        }
    }
}
pub open spec fn mof(h: H, v: int) -> Map<Str, int> { vv(h).m[vv(h).ob[v]] }
proof fn fl_keep(h0: H, hp: H, h: H, v: int, fs: Map<Str, int>, done: Set<Str>, fpp: Fp, fp: Fp)
    ensures
        finite(vv(h0), v, h0.alloc) && h0.alloc > 0 && v != 0 && done.subset_of(mof(h0, v).dom()) && (forall|k: Str| #[trigger] done.contains(k) ==> copy(vv(h0), mof(h0, v)[k], vv(hp), fs[k], fpp)) && same_in(vv(hp), vv(h), fpp) && fp_sub(fpp, fp)
        ==> forall|k: Str| #[trigger] done.contains(k) ==> copy(vv(h0), mof(h0, v)[k], vv(h), fs[k], fp),
{
    if finite(vv(h0), v, h0.alloc) && h0.alloc > 0 && v != 0 && done.subset_of(mof(h0, v).dom()) && (forall|k: Str| #[trigger] done.contains(k) ==> copy(vv(h0), mof(h0, v)[k], vv(hp), fs[k], fpp)) && same_in(vv(hp), vv(h), fpp) && fp_sub(fpp, fp) {
        assert forall|k: Str| #[trigger] done.contains(k) implies copy(vv(h0), mof(h0, v)[k], vv(h), fs[k], fp) by {
            assert(mof(h0, v).dom().contains(k));
            copy_mono(vv(h0), mof(h0, v)[k], vv(hp), fs[k], fpp, vv(h0), vv(h), fp, h0.alloc);
        }
    }
}
proof fn part2(h0: H, hc: H, hr: H, h: H, fp: Fp, x: int, r: int)
    ensures
        finite(vv(h0), x, h0.alloc) && wf(h0) && same_in(vv(h0), vv(hc), below(h0.alloc)) && copy(vv(hc), x, vv(hr), r, room(hc.alloc, hr.alloc, 0, 0, 0))
        && same_in(vv(hr), vv(h), room(hc.alloc, hr.alloc, 0, 0, 0)) && fp_sub(room(hc.alloc, hr.alloc, 0, 0, 0), fp) ==> copy(vv(h0), x, vv(h), r, fp),
{
    if finite(vv(h0), x, h0.alloc) && wf(h0) && same_in(vv(h0), vv(hc), below(h0.alloc)) {
        finite_mono(vv(h0), x, h0.alloc, vv(hc), h0.alloc);
        assert(h0.alloc > 0);
        assert(finite(vv(hc), x, h0.alloc));
        assert(same_in(vv(hc), vv(h0), below(h0.alloc)));
        copy_mono(vv(hc), x, vv(hr), r, room(hc.alloc, hr.alloc, 0, 0, 0), vv(h0), vv(h), fp, h0.alloc);
    }
}
proof fn clone_end(h0: H, h: H, v: int, c: int)
    ensures
        finite(vv(h0), v, h0.alloc) && shell(h0, h, v, c) && els_done(h0, h, v, c) && flds_done(h0, h, v, c)
        && (h.event_Value_Array[c] == h0.event_Value_Array[v] ==> h0.event_Value_Array[v].r == 0) && (h.event_Value_Object[c] == h0.event_Value_Object[v] ==> h0.event_Value_Object[v] == 0)
        && vv(h).m[0] =~= Map::<Str, int>::empty() && wf(h0) && wf(h)
        ==> copy(vv(h0), v, vv(h), c, room(h0.alloc, h.alloc, 0, 0, 0)),
{
    if finite(vv(h0), v, h0.alloc) && shell(h0, h, v, c) && els_done(h0, h, v, c) && flds_done(h0, h, v, c)
        && (h.event_Value_Array[c] == h0.event_Value_Array[v] ==> h0.event_Value_Array[v].r == 0) && (h.event_Value_Object[c] == h0.event_Value_Object[v] ==> h0.event_Value_Object[v] == 0)
        && vv(h).m[0] =~= Map::<Str, int>::empty() && wf(h0) && wf(h)
    {
        let fp = room(h0.alloc, h.alloc, 0, 0, 0);
        assert(slice_wf(h0.event_Value_Array[v], h0.alloc) && slice_wf(h.event_Value_Array[c], h.alloc));
        assert(vel(vv(h0), v).len() == vel(vv(h), c).len());
        assert(vv(h0).m[vv(h0).ob[v]].dom() =~= vv(h).m[vv(h).ob[c]].dom());
        assert(inn(fp, c) && inn(fp, c + toff()));
        assert forall|j: int| #![trigger vel(vv(h0), v)[j]] 0 <= j < vel(vv(h0), v).len() implies copy(vv(h0), vel(vv(h0), v)[j], vv(h), vel(vv(h), c)[j], fp) by {
            assert(vel(vv(h), c)[j] == vel(vv(h), c)[j]);
            copy_mono(vv(h0), vel(vv(h0), v)[j], vv(h), vel(vv(h), c)[j], spot(h0, h, c), vv(h0), vv(h), fp, h0.alloc);
        }
        assert forall|k: Str| #[trigger] vv(h0).m[vv(h0).ob[v]].dom().contains(k) implies copy(vv(h0), vv(h0).m[vv(h0).ob[v]][k], vv(h), vv(h).m[vv(h).ob[c]][k], fp) by {
            assert(vv(h).m[vv(h).ob[c]].dom().contains(k));
            copy_mono(vv(h0), vv(h0).m[vv(h0).ob[v]][k], vv(h), vv(h).m[vv(h).ob[c]][k], spot(h0, h, c), vv(h0), vv(h), fp, h0.alloc);
        }
    }
}
end rust

func (*pkg/event.Value).Clone(v) (r)
  requires finite(vv(h), v, h.alloc)
  ensures @C14 [Clone makes a deep copy of new memory] copy(vv(h), v, vv(h2), r, room(h.alloc, h2.alloc, 0, 0, 0))
  prehint finite_mono(vv(h0), v, h0.alloc, vv(h), h.alloc)
  loop aelements(idx i, new els []*pkg/event.Value, fixed fx els, entry e0 els)
    invariant v != 0 && 0 <= i <= vel(vv(h0), v).len() && h0.event_Value_Array[v].r != 0 && same_in(vv(h0), vv(h), below(h0.alloc))
    invariant i < vel(vv(h0), v).len() ==> finite(vv(h0), vel(vv(h0), v)[i], h0.alloc)
    invariant els.l == (if fx { vel(vv(h0), v).len() as int } else { i }) && els.r >= h0.alloc && same_in(vv(hl), vv(h), room(0, hl.alloc, e0.r, 0, 0))
    invariant els.r == e0.r || els.r >= hl.alloc
    invariant forall|j: int| #![trigger slseq(h.A_p_event_Value, els)[j]] 0 <= j < i ==> copy(vv(h0), vel(vv(h0), v)[j], vv(h), slseq(h.A_p_event_Value, els)[j], room(hl.alloc, h.alloc, els.r, 0, 0))
    hint loop: if !established { el_keep(h0, h_p, h, v, slseq(h_p.A_p_event_Value, els_p), i_p, room(hl.alloc, h_p.alloc, els_p.r, 0, 0), room(hl.alloc, h.alloc, els.r, 0, 0)); part2(h0, Clone_h, Clone_h2, h, room(hl.alloc, h.alloc, els.r, 0, 0), Clone_v, Clone_r);
      let old = slseq(h_p.A_p_event_Value, els_p); assert(slseq(h.A_p_event_Value, els) =~= (if fx { old.update(i_p, Clone_r) } else { old.push(Clone_r) })); }
  loop afields(set done, dom all, new fm map[string]*pkg/event.Value)
    invariant v != 0 && done.subset_of(all) && all =~= mof(h0, v).dom() && h0.event_Value_Object[v] != 0 && same_in(vv(h0), vv(h), below(h0.alloc))
    invariant forall|k: Str| #[trigger] all.contains(k) ==> finite(vv(h0), mof(h0, v)[k], h0.alloc)
    invariant fm >= h0.alloc && fm < hl.alloc && same_in(vv(hl), vv(h), room(0, hl.alloc, fm, 0, 0)) && h.M_string_p_event_Value[fm].dom() =~= done
    invariant forall|k: Str| #[trigger] done.contains(k) ==> copy(vv(h0), mof(h0, v)[k], vv(h), h.M_string_p_event_Value[fm][k], room(hl.alloc, h.alloc, fm, 0, 0))
    hint loop: if !established { fl_keep(h0, h_p, h, v, h_p.M_string_p_event_Value[fm], done_p, room(hl.alloc, h_p.alloc, fm, 0, 0), room(hl.alloc, h.alloc, fm, 0, 0)); part2(h0, Clone_h, Clone_h2, h, room(hl.alloc, h.alloc, fm, 0, 0), Clone_v, Clone_r); }
  loop elements(idx i, var c *pkg/event.Value)
    invariant 0 <= i <= vel(vv(h0), v).len() && shell(h0, h, v, c)
    invariant i < vel(vv(h0), v).len() ==> finite(vv(h0), vel(vv(h0), v)[i], h0.alloc)
    invariant els_ok(h0, h, v, c, esize(h0, hl, v, c, i), i)
    invariant flds_done(h0, h, v, c)
    hint loop: if established { flds_kept(h0, h_fields, h, v, c, vv(h0).m[vv(h0).ob[v]].dom()); } else { els_kept(h0, h_p, h, v, c, esize(h0, hl, v, c, i_p), i_p); flds_kept(h0, h_p, h, v, c, vv(h0).m[vv(h0).ob[v]].dom()); part(h0, Clone_h, Clone_h2, h, v, c, Clone_v, Clone_r); }
  loop fields(set done, dom all, var c *pkg/event.Value)
    invariant done.subset_of(all) && all =~= vv(h0).m[vv(h0).ob[v]].dom() && shell(h0, h, v, c)
    invariant forall|k: Str| #[trigger] all.contains(k) ==> finite(vv(h0), vv(h0).m[vv(h0).ob[v]][k], h0.alloc)
    invariant flds_ok(h0, h, v, c, done)
    invariant els_done(h0, h, v, c)
    hint loop: if established && in_aelements { el_keep(h0, h_aelements, h, v, slseq(h_aelements.A_p_event_Value, aelements_els), aelements_i, room(hl_aelements.alloc, h_aelements.alloc, aelements_els.r, 0, 0), spot(h0, h, c)); assert(vel(vv(h), c) =~= slseq(h_aelements.A_p_event_Value, aelements_els)); }
    hint loop: if established { els_kept(h0, h_elements, h, v, c, vel(vv(h0), v).len() as int, vel(vv(h0), v).len() as int); } else { els_kept(h0, h_p, h, v, c, vel(vv(h0), v).len() as int, vel(vv(h0), v).len() as int); flds_kept(h0, h_p, h, v, c, done_p); part(h0, Clone_h, Clone_h2, h, v, c, Clone_v, Clone_r); }
  hint if in_aelements { el_keep(h, h_aelements, h2, v, slseq(h_aelements.A_p_event_Value, aelements_els), aelements_i, room(hl_aelements.alloc, h_aelements.alloc, aelements_els.r, 0, 0), spot(h, h2, r)); assert(vel(vv(h2), r) =~= slseq(h_aelements.A_p_event_Value, aelements_els)); }
  hint if in_afields { fl_keep(h, h_afields, h2, v, h_afields.M_string_p_event_Value[afields_fm], afields_done, room(hl_afields.alloc, h_afields.alloc, afields_fm, 0, 0), spot(h, h2, r)); assert(mof(h2, r) =~= h_afields.M_string_p_event_Value[afields_fm]); }
  hint clone_end(h, h2, v, r);

rust
// ---- set ----
pub open spec fn st_cfg(p: int) -> int { p + offset_of("set_Set.config") }
pub open spec fn st_val(p: int) -> int { st_cfg(p) + offset_of("set_Config.Value") }
pub open spec fn st_from(h: H, p: int) -> Str { h.set_Config_CopyFrom[st_cfg(p)] }
pub open spec fn st_to(h: H, p: int) -> Str { h.set_Config_TargetField[st_cfg(p)] }
pub open spec fn st_copies(h: H, p: int) -> bool { h.event_Value_Type[st_val(p)] == 0 && !(st_from(h, p) =~= Seq::<int>::empty()) }
// What is stored: the configured value, or else the value of the copy_from field.
pub open spec fn st_src(h: H, p: int, e: int) -> int {
    if h.event_Value_Type[st_val(p)] != 0 { st_val(p) } else if st_copies(h, p) { get_at(h, e, st_from(h, p)) } else { 0 }
}
// The copy_from field holds nothing (or null, with ignore_missing).
pub open spec fn st_missing(h: H, p: int, e: int) -> bool {
    st_copies(h, p) && (st_src(h, p, e) == 0 || h.event_Value_Type[st_src(h, p, e)] == 0 && h.set_Config_IgnoreMissing[st_cfg(p)])
}
proof fn set_end(h: H, hm: H, hc: H, h2: H, e: int, key: Str, src: int, r: int)
    ensures
        wf(h) && wf(hc) && wf(h2) && h.alloc > 0 && h.alloc <= hm.alloc <= hc.alloc <= h2.alloc && hc.event_Event_fields[e] == h.event_Event_fields[e]
        && same_in(vv(h), vv(hm), below(h.alloc)) && same_in(vv(h), vv(hc), below(h.alloc))
        && finite(vv(h), src, h.alloc) && copy(vv(hm), src, vv(hc), r, room(hm.alloc, hc.alloc, 0, 0, 0)) && kpath(key).len() > 0
        && (forall|m: int| 0 <= m < hc.alloc && offpath(hc, e, kpath(key), kpath(key).len() as int, m) ==> #[trigger] h2.M_string_p_event_Value[m] == hc.M_string_p_event_Value[m])
        && (same_in(vv(hc), VV { m: vv(hc).m, ..vv(h2) }, below(hc.alloc)))
        ==> copy(vv(h), src, vv(h2), r, room(h.alloc, h2.alloc, 0, 0, 0))
{
    if wf(h) && wf(hc) && wf(h2) && h.alloc > 0 && h.alloc <= hm.alloc <= hc.alloc <= h2.alloc && hc.event_Event_fields[e] == h.event_Event_fields[e]
        && same_in(vv(h), vv(hm), below(h.alloc)) && same_in(vv(h), vv(hc), below(h.alloc))
        && finite(vv(h), src, h.alloc) && copy(vv(hm), src, vv(hc), r, room(hm.alloc, hc.alloc, 0, 0, 0)) && kpath(key).len() > 0
        && (forall|m: int| 0 <= m < hc.alloc && offpath(hc, e, kpath(key), kpath(key).len() as int, m) ==> #[trigger] h2.M_string_p_event_Value[m] == hc.M_string_p_event_Value[m])
        && (same_in(vv(hc), VV { m: vv(hc).m, ..vv(h2) }, below(hc.alloc)))
    {
        let fp = room(hm.alloc, hc.alloc, 0, 0, 0);
        let p = kpath(key);
        finite_mono(vv(h), src, h.alloc, vv(hm), h.alloc);
        assert(same_in(vv(hm), vv(h), below(h.alloc)));
        assert forall|v: int| 0 <= v < h.alloc implies #[trigger] hc.event_Value_Object[v] == h.event_Value_Object[v] by { assert(inn(below(h.alloc), v)); }
        assert forall|v: int| 0 <= v < h.alloc implies #[trigger] hc.M_string_p_event_Value[v] == h.M_string_p_event_Value[v] by { assert(inn(below(h.alloc), v)); }
        lemma_ext(h.event_Value_Object, h.M_string_p_event_Value, hc.event_Value_Object, hc.M_string_p_event_Value, h.alloc, h.event_Event_fields[e]);
        assert forall|m: int| inn(fp, m) implies offpath(hc, e, p, p.len() as int, m) by {
            assert forall|l: int| 0 <= l < p.len() implies #[trigger] walk(hc.event_Value_Object, hc.M_string_p_event_Value, hc.event_Event_fields[e], p, l) != m by {
                lemma_walk_bound(h.event_Value_Object, h.M_string_p_event_Value, h.alloc, h.event_Event_fields[e], p, l);
            }
        }
        let b = VV { m: vv(hc).m, ..vv(h2) };
        assert forall|x: int| inn(fp, x) implies vv(h2).m[x] == vv(hc).m[x] by { assert(h2.M_string_p_event_Value[x] == hc.M_string_p_event_Value[x]); }
        assert forall|x: int| inn(fp, x) implies inn(below(hc.alloc), x) by {}
        assert(same_in(vv(hc), vv(h2), fp));
        copy_mono(vv(hm), src, vv(hc), r, fp, vv(h), vv(h2), room(h.alloc, h2.alloc, 0, 0, 0), h.alloc);
    }
}
end rust

func (*pkg/processor/set.Set).Process(p, evt) (err)
  modifies event_Event_fields M_string_p_event_Value
  requires p != 0 && isevt(h, evt) && (st_copies(h, p) ==> kpath(st_from(h, p)).len() > 0) && finite(vv(h), st_src(h, p, data(h, evt)), h.alloc)
  ensures @C14 [a missing source is named] st_missing(h, p, data(h, evt)) ==> missing(err, st_from(h, p))
  ensures @C14 [the value is stored unless the target is blocked] !st_missing(h, p, data(h, evt)) && st_src(h, p, data(h, evt)) != 0 ==> (err is Nil <==> writable(h, data(h, evt), st_to(h, p)))
  ensures @C14 [the target holds a deep copy of new memory] !st_missing(h, p, data(h, evt)) && st_src(h, p, data(h, evt)) != 0 && err is Nil && evtree(h, data(h, evt)) ==>
    copy(vv(h), st_src(h, p, data(h, evt)), vv(h2), get_at(h2, data(h, evt), st_to(h, p)), room(h.alloc, h2.alloc, 0, 0, 0))
  ensures @C14 [nothing else changes] err is Nil && st_src(h, p, data(h, evt)) != 0 && evtree(h, data(h, evt)) ==> only_field_changed(h, h2, data(h, evt), kpath(st_to(h, p)))
  ensures @C14 [a failed set changes nothing] !(err is Nil) || st_src(h, p, data(h, evt)) == 0 ==> same_fields(h, h2, data(h, evt))
  ensures @C14 [other events are not touched] forall|x: int| 0 <= x < h.alloc && x != data(h, evt) ==> #[trigger] h2.event_Event_fields[x] == h.event_Event_fields[x]
  hint lift(h, Put_h, h2, data(h, evt), st_to(h, p)); if did_Clone { finite_mono(vv(h), st_src(h, p, data(h, evt)), h.alloc, vv(Clone_h), Clone_h.alloc); set_end(h, Clone_h, Put_h, h2, data(h, evt), st_to(h, p), st_src(h, p, data(h, evt)), Clone_r); }

# The processor is built with the configuration it is given.
func pkg/processor/set.New(config) (r, err)
  ensures @C14 [the processor keeps its configuration] err is Nil && r >= h.alloc && h2.set_Config_CopyFrom[r + offset_of("set_Set.config")] == config.CopyFrom && h2.set_Config_IgnoreMissing[r + offset_of("set_Set.config")] == config.IgnoreMissing
    && h2.set_Config_IgnoreFailure[r + offset_of("set_Set.config")] == config.IgnoreFailure && h2.set_Config_TargetField[r + offset_of("set_Set.config")] == config.TargetField
    && vsame(h2, r + offset_of("set_Set.config") + offset_of("set_Config.Value"), config.Value)
func (*pkg/processor/set.Set).Config(p) (r)
  requires p != 0
  ensures @C14 [the configuration is that of the processor] r.CopyFrom == h.set_Config_CopyFrom[p + offset_of("set_Set.config")] && r.IgnoreMissing == h.set_Config_IgnoreMissing[p + offset_of("set_Set.config")]
    && r.IgnoreFailure == h.set_Config_IgnoreFailure[p + offset_of("set_Set.config")] && r.TargetField == h.set_Config_TargetField[p + offset_of("set_Set.config")]
    && vsame(h, p + offset_of("set_Set.config") + offset_of("set_Config.Value"), r.Value)
func (*pkg/processor/set.Config).InitDefaults(c) ()
  modifies set_Config_IgnoreFailure set_Config_IgnoreMissing
  requires c != 0
  ensures @C14 [the defaults are the documented ones] !h2.set_Config_IgnoreFailure[c] && !h2.set_Config_IgnoreMissing[c]

rust
pub open spec fn vsame(h: H, v: int, x: S_event_Value) -> bool {
    &&& h.event_Value_Type[v] == x.Type && h.event_Value_Bool[v] == x.Bool && h.event_Value_Integer[v] == x.Integer
    &&& h.event_Value_UnsignedInteger[v] == x.UnsignedInteger && h.event_Value_Float[v] == x.Float && h.event_Value_String[v] == x.String
    &&& h.event_Value_Array[v] == x.Array && h.event_Value_Object[v] == x.Object
    &&& h.event_Time_UnixNanos[v + offset_of("event_Value.Timestamp")] == x.Timestamp.UnixNanos
}
end rust
