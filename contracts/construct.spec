# Construction: the processors mirror the configuration, at every depth. The
# processors are read in a heap h, the configuration in the heap c before the
# construction. Configurations are finite: ork decreases from an entry's options
# to those of its on_failure entries.
needs pipeline
needs reflect

rust
// The registry built this processor for this name and these options.
pub uninterp spec fn built(proc_: Iface, name: Str, opts: int) -> bool;
pub uninterp spec fn itoa(n: int) -> Str;
pub uninterp spec fn orank(o: int) -> nat;
// above the height of every configuration
pub uninterp spec fn clim0() -> nat;
pub open spec fn clim() -> nat { clim0() + 1 }
pub open spec fn ork(o: int) -> nat { if o == 0 { 0 } else { orank(o) + 1 } }
// A field of what the processor's Config method returns.
pub open spec fn conf_field(proc_: Iface, name: Str) -> Opq { rv_field(rv_result(rv_method(rv_of(proc_), "Config"), 0), name) }
pub open spec fn conf_has(proc_: Iface, name: Str) -> bool { conf_field(proc_, name) != zero_of("reflect.Value") && rv_kind(conf_field(proc_, name)) == 1 }
// A boolean option of the processor's own configuration; false where it has none.
pub open spec fn conf_flag(proc_: Iface, name: Str) -> bool { conf_has(proc_, name) && rv_bool(conf_field(proc_, name)) }
// counters
pub uninterp spec fn counter_id(c: Iface) -> int;
pub uninterp spec fn counter_name(c: Iface) -> Str;
pub uninterp spec fn counter_labels(c: Iface) -> Map<Str, Str>;
pub open spec fn counter_ok(c: Iface, name: Str, id: Str, k: Str) -> bool {
    !(c is Nil) && counter_name(c) == name && counter_labels(c).dom().contains("component_id") && counter_labels(c)["component_id"] == id
    && counter_labels(c).dom().contains("component_type") && counter_labels(c)["component_type"] == k
}
// What makes up processors, and what makes up configurations.
pub struct NV {
    pub on: Map<int, Slice>, pub arr: Map<int, Map<int, int>>, pub proc_: Map<int, Iface>, pub im: Map<int, bool>, pub fl: Map<int, bool>, pub id: Map<int, Str>,
    pub cin: Map<int, Iface>, pub cout: Map<int, Iface>, pub cerr: Map<int, Iface>, pub cdis: Map<int, Iface>,
}
pub open spec fn nv(h: H) -> NV {
    NV {
        on: h.pipeline_pipelineProcessor_OnFailure, arr: h.A_p_pipeline_pipelineProcessor, proc_: h.pipeline_pipelineProcessor_proc,
        im: h.pipeline_pipelineProcessor_IgnoreMissing, fl: h.pipeline_pipelineProcessor_IgnoreFailure, id: h.pipeline_pipelineProcessor_ID,
        cin: h.pipeline_pipelineProcessor_metricEventsInTotal, cout: h.pipeline_pipelineProcessor_metricEventsOutTotal,
        cerr: h.pipeline_pipelineProcessor_metricErrorsTotal, cdis: h.pipeline_pipelineProcessor_metricDiscardedEventsTotal,
    }
}
pub struct CV { pub m: Map<int, Map<Str, int>>, pub a: Map<int, Map<int, int>>, pub on: Map<int, Slice>, pub opts: Map<int, int> }
pub open spec fn cv(h: H) -> CV {
    CV { m: h.M_string_p_pipeline_ProcessorOptionConfig, a: h.A_pipeline_ProcessorConfig, on: h.pipeline_ProcessorOptionConfig_OnFailure, opts: h.pipeline_ProcessorOptionConfig_Config }
}
pub open spec fn counters_ok(v: NV, p: int, id: Str, k: Str) -> bool {
    let (a, b, c, d) = (v.cin[p], v.cout[p], v.cerr[p], v.cdis[p]);
    counter_ok(a, "component_received_events_total", id, k) && counter_ok(b, "component_sent_events_total", id, k)
    && counter_ok(c, "component_errors_total", id, k) && counter_ok(d, "component_discarded_events_total", id, k)
    && counter_id(a) != counter_id(b) && counter_id(a) != counter_id(c) && counter_id(a) != counter_id(d) && counter_id(b) != counter_id(c) && counter_id(b) != counter_id(d) && counter_id(c) != counter_id(d)
}
pub open spec fn nkids(v: NV, p: int) -> Seq<int> { slseq(v.arr, v.on[p]) }
pub open spec fn onf(c: CV, o: int) -> Seq<int> { if o == 0 { Seq::empty() } else { slseq(c.a, c.on[o]) } }
pub open spec fn opts_of(c: CV, o: int) -> int { if o == 0 { 0 } else { c.opts[o] } }
pub open spec fn pid(base: Str, i: int, k: Str) -> Str { base + "[" + itoa(i) + "]." + k }
// Processor p is the one configured by the options o under the name k. It and
// its handlers were allocated from lo on, and x is not the array of one of its
// handler lists.
pub open spec fn node(c: CV, v: NV, p: int, id: Str, k: Str, o: int, lo: int, x: int) -> bool
    decreases ork(o), 1int
{
    &&& p != 0 && p >= lo
    &&& v.id[p] == id
    &&& !(v.proc_[p] is Nil) && built(v.proc_[p], k, opts_of(c, o))
    &&& v.im[p] == conf_flag(v.proc_[p], "IgnoreMissing")
    &&& v.fl[p] == conf_flag(v.proc_[p], "IgnoreFailure")
    &&& counters_ok(v, p, id, k)
    &&& nkids(v, p).len() == onf(c, o).len()
    &&& (nkids(v, p).len() > 0 ==> v.on[p].r >= lo && v.on[p].r != x)
    &&& forall|j: int| #![trigger nkids(v, p)[j]] 0 <= j < nkids(v, p).len() ==> entry(c, v, nkids(v, p)[j], id + ".on_failure", j, onf(c, o)[j], ork(o), lo, x)
}
// Processor p is the one that entry m at index i of the list at base configures.
pub open spec fn entry(c: CV, v: NV, p: int, base: Str, i: int, m: int, r: nat, lo: int, x: int) -> bool
    decreases r, 0int
{
    exists|k: Str| #[trigger] c.m[m].dom().contains(k) && c.m[m].len() == 1 && ork(c.m[m][k]) < r && node(c, v, p, pid(base, i, k), k, c.m[m][k], lo, x)
}
pub open spec fn plist(c: CV, v: NV, ps: Seq<int>, base: Str, ms: Seq<int>, n: int, r: nat, lo: int, x: int) -> bool {
    &&& ps.len() == n && n <= ms.len()
    &&& forall|j: int| #![trigger ps[j]] 0 <= j < n ==> entry(c, v, ps[j], base, j, ms[j], r, lo, x)
    &&& forall|i: int, j: int| #![trigger ps[i], ps[j]] 0 <= i < j < n ==> ps[i] != ps[j]
}
// Configurations are finite.
pub open spec fn wfo(c: CV, o: int) -> bool
    decreases ork(o)
{
    &&& onf(c, o).len() >= 0
    &&& forall|j: int, k: Str| #![trigger c.m[onf(c, o)[j]].dom().contains(k)] 0 <= j < onf(c, o).len() && c.m[onf(c, o)[j]].dom().contains(k) ==>
        ork(c.m[onf(c, o)[j]][k]) < ork(o) && wfo(c, c.m[onf(c, o)[j]][k])
}
pub open spec fn wfm(c: CV, m: int) -> bool {
    forall|k: Str| #[trigger] c.m[m].dom().contains(k) ==> ork(c.m[m][k]) < clim() && wfo(c, c.m[m][k])
}
pub open spec fn wfms(c: CV, ms: Seq<int>) -> bool {
    forall|j: int| #![trigger ms[j]] 0 <= j < ms.len() ==> wfm(c, ms[j])
}
// The processors allocated in [lo, hi) are the same in both heaps, and so are
// their handler lists other than array x.
pub open spec fn agree(v1: NV, v2: NV, lo: int, hi: int, x: int) -> bool {
    &&& forall|r: int| lo <= r < hi && r != x ==> (#[trigger] v2.arr[r]) == v1.arr[r]
    &&& forall|r: int| lo <= r < hi ==> (#[trigger] v2.id[r]) == v1.id[r]
    &&& forall|r: int| lo <= r < hi ==> (#[trigger] v2.fl[r]) == v1.fl[r]
    &&& forall|r: int| lo <= r < hi ==> (#[trigger] v2.im[r]) == v1.im[r]
    &&& forall|r: int| lo <= r < hi ==> (#[trigger] v2.on[r]) == v1.on[r]
    &&& forall|r: int| lo <= r < hi ==> (#[trigger] v2.proc_[r]) == v1.proc_[r]
    &&& forall|r: int| lo <= r < hi ==> (#[trigger] v2.cdis[r]) == v1.cdis[r]
    &&& forall|r: int| lo <= r < hi ==> (#[trigger] v2.cerr[r]) == v1.cerr[r]
    &&& forall|r: int| lo <= r < hi ==> (#[trigger] v2.cin[r]) == v1.cin[r]
    &&& forall|r: int| lo <= r < hi ==> (#[trigger] v2.cout[r]) == v1.cout[r]
}
// Everything configured before lim is the same in both heaps.
pub open spec fn cagree(c1: CV, c2: CV, lim: int) -> bool {
    &&& forall|r: int| 0 <= r < lim ==> (#[trigger] c2.m[r]) == c1.m[r]
    &&& forall|r: int| 0 <= r < lim ==> (#[trigger] c2.a[r]) == c1.a[r]
    &&& forall|r: int| 0 <= r < lim ==> (#[trigger] c2.on[r]) == c1.on[r]
    &&& forall|r: int| 0 <= r < lim ==> (#[trigger] c2.opts[r]) == c1.opts[r]
}
pub open spec fn cclosed(c: CV, lim: int) -> bool {
    &&& forall|r: int, k: Str| 0 <= r < lim && c.m[r].dom().contains(k) ==> 0 <= (#[trigger] c.m[r][k]) < lim
    &&& forall|r: int, k: int| 0 <= r < lim ==> 0 <= (#[trigger] c.a[r][k]) < lim
    &&& forall|r: int| 0 <= r < lim ==> slice_wf(#[trigger] c.on[r], lim)
}
pub open spec fn nclosed(v: NV, lim: int) -> bool {
    &&& forall|r: int, k: int| 0 <= r < lim ==> 0 <= (#[trigger] v.arr[r][k]) < lim
    &&& forall|r: int| 0 <= r < lim ==> slice_wf(#[trigger] v.on[r], lim)
}
proof fn node_frame(c1: CV, c2: CV, cl: int, v1: NV, v2: NV, hi: int, p: int, id: Str, k: Str, o: int, lo: int, lo2: int, x: int, y: int)
    requires
        node(c1, v1, p, id, k, o, lo, x), nclosed(v1, hi), 0 <= p < hi, 0 <= lo, agree(v1, v2, lo, hi, x),
        cclosed(c1, cl), 0 <= o < cl, cagree(c1, c2, cl),
        y < lo || y == x || y >= hi, lo2 <= lo,
    ensures node(c2, v2, p, id, k, o, lo2, y),
    decreases ork(o), 1int
{
    assert(slice_wf(v1.on[p], hi));
    assert(slice_wf(c1.on[o], cl));
    assert(nkids(v1, p) =~= nkids(v2, p));
    assert(onf(c1, o) =~= onf(c2, o));
    assert(counters_ok(v2, p, id, k));
    assert forall|j: int| #![trigger nkids(v2, p)[j]] 0 <= j < nkids(v2, p).len() implies entry(c2, v2, nkids(v2, p)[j], id + ".on_failure", j, onf(c2, o)[j], ork(o), lo2, y) by {
        assert(nkids(v1, p)[j] == nkids(v2, p)[j]);
        entry_frame(c1, c2, cl, v1, v2, hi, nkids(v1, p)[j], id + ".on_failure", j, onf(c1, o)[j], ork(o), ork(o), lo, lo2, x, y);
    }
}
// Options without handlers and settings are the default ones.
proof fn node_default(c: CV, v: NV, p: int, id: Str, k: Str, o: int, lo: int, x: int)
    requires node(c, v, p, id, k, o, lo, x), c.on[o] == nil_slice(), c.opts[o] == 0
    ensures node(c, v, p, id, k, 0, lo, x)
{
}
proof fn entry_frame(c1: CV, c2: CV, cl: int, v1: NV, v2: NV, hi: int, p: int, base: Str, i: int, m: int, r: nat, r2: nat, lo: int, lo2: int, x: int, y: int)
    requires
        entry(c1, v1, p, base, i, m, r, lo, x), nclosed(v1, hi), 0 <= p < hi, 0 <= lo, agree(v1, v2, lo, hi, x),
        cclosed(c1, cl), 0 <= m < cl, cagree(c1, c2, cl),
        y < lo || y == x || y >= hi, lo2 <= lo,
        r <= r2 || forall|k: Str| #[trigger] c1.m[m].dom().contains(k) ==> ork(c1.m[m][k]) < r2,
    ensures entry(c2, v2, p, base, i, m, r2, lo2, y),
    decreases r, 0int
{
    let k = choose|k: Str| #[trigger] c1.m[m].dom().contains(k) && c1.m[m].len() == 1 && ork(c1.m[m][k]) < r && node(c1, v1, p, pid(base, i, k), k, c1.m[m][k], lo, x);
    node_frame(c1, c2, cl, v1, v2, hi, p, pid(base, i, k), k, c1.m[m][k], lo, lo2, x, y);
    assert(c2.m[m].dom().contains(k));
}
proof fn plist_frame(c1: CV, c2: CV, cl: int, v1: NV, v2: NV, hi: int, ps: Seq<int>, base: Str, ms: Seq<int>, n: int, r: nat, r2: nat, lo: int, lo2: int, x: int, y: int)
    requires
        plist(c1, v1, ps, base, ms, n, r, lo, x), nclosed(v1, hi), 0 <= lo, agree(v1, v2, lo, hi, x), cclosed(c1, cl), cagree(c1, c2, cl),
        forall|j: int| 0 <= j < n ==> 0 <= #[trigger] ps[j] < hi,
        forall|j: int| 0 <= j < n ==> 0 <= #[trigger] ms[j] < cl,
        y < lo || y == x || y >= hi, lo2 <= lo,
        r <= r2 || forall|j: int, k: Str| 0 <= j < n && #[trigger] c1.m[ms[j]].dom().contains(k) ==> ork(c1.m[ms[j]][k]) < r2,
    ensures plist(c2, v2, ps, base, ms, n, r2, lo2, y),
{
    assert forall|j: int| #![trigger ps[j]] 0 <= j < n implies entry(c2, v2, ps[j], base, j, ms[j], r2, lo2, y) by {
        assert(0 <= ms[j] < cl);
        entry_frame(c1, c2, cl, v1, v2, hi, ps[j], base, j, ms[j], r, r2, lo, lo2, x, y);
    }
}
proof fn wfo_frame(c1: CV, c2: CV, cl: int, o: int)
    requires wfo(c1, o), cclosed(c1, cl), 0 <= o < cl, cagree(c1, c2, cl)
    ensures wfo(c2, o)
    decreases ork(o)
{
    assert(slice_wf(c1.on[o], cl));
    assert(onf(c1, o) =~= onf(c2, o));
    assert forall|j: int, k: Str| #![trigger c2.m[onf(c2, o)[j]].dom().contains(k)] 0 <= j < onf(c2, o).len() && c2.m[onf(c2, o)[j]].dom().contains(k) implies
        ork(c2.m[onf(c2, o)[j]][k]) < ork(o) && wfo(c2, c2.m[onf(c2, o)[j]][k]) by {
        assert(c1.m[onf(c1, o)[j]].dom().contains(k));
        wfo_frame(c1, c2, cl, c1.m[onf(c1, o)[j]][k]);
    }
}
proof fn wfm_frame(c1: CV, c2: CV, cl: int, m: int)
    requires wfm(c1, m), cclosed(c1, cl), 0 <= m < cl, cagree(c1, c2, cl)
    ensures wfm(c2, m)
{
    assert forall|k: Str| #[trigger] c2.m[m].dom().contains(k) implies wfo(c2, c2.m[m][k]) by {
        assert(c1.m[m].dom().contains(k));
        wfo_frame(c1, c2, cl, c1.m[m][k]);
    }
}
proof fn wfms_frame(c1: CV, c2: CV, cl: int, ms: Seq<int>)
    requires wfms(c1, ms), cclosed(c1, cl), forall|j: int| 0 <= j < ms.len() ==> 0 <= #[trigger] ms[j] < cl, cagree(c1, c2, cl)
    ensures wfms(c2, ms)
{
    assert forall|j: int| #![trigger ms[j]] 0 <= j < ms.len() implies wfm(c2, ms[j]) by { wfm_frame(c1, c2, cl, ms[j]); }
}
end rust

extern pkg/processor/registry.NewProcessor(name, config) (proc, err)
  ensures err is Nil ==> !(proc is Nil) && built(proc, name, config)

extern strconv.Itoa(i) (s)
  pure
  ensures s == itoa(i)

extern github.com/prometheus/client_golang/prometheus.NewCounter(opts) (c)
  ensures !(c is Nil) && h.alloc <= counter_id(c) < h2.alloc && counter_name(c) == opts.Name && counter_labels(c) == h.M_string_string[opts.ConstLabels]

func (pkg/pipeline.ProcessorConfig).getProcessor(c) (name, opts, err)
  ensures @C12,C25 [an entry names exactly one processor] (err is Nil) == (cv(h).m[c].len() == 1) && (err is Nil ==> cv(h).m[c].dom().contains(name))
  ensures @C12,C25 [the entry's options are used; null options are the default ones] err is Nil ==> opts != 0 && (if cv(h).m[c][name] != 0 { opts == cv(h).m[c][name] } else {
      opts >= h.alloc && h2.pipeline_ProcessorOptionConfig_Config[opts] == 0 && h2.pipeline_ProcessorOptionConfig_OnFailure[opts] == nil_slice() })
  ensures err is Nil && wfm(cv(h), c) ==> wfo(cv(h2), opts) && (onf(cv(h2), opts).len() > 0 ==> ork(opts) < clim())
  loop pick(set done, dom all, ovar nm string = Seq::<int>::empty(), ovar op *pkg/pipeline.ProcessorOptionConfig = 0)
    invariant h == hl && done.subset_of(all) && all =~= cv(h0).m[c].dom() && (done =~= Set::<Str>::empty() || all.contains(nm) && op == cv(h0).m[c][nm])
  hint if err is Nil && wfm(cv(h), c) && cv(h).m[c][name] != 0 { wfo_frame(cv(h), cv(h2), h.alloc, opts); }

func pkg/pipeline.ignores(proc) (im, fl, err)
  modifies ct_n ct_fn ct_addr ct_conf
  ensures @C12 [the flags are those of the processor's own configuration] err is Nil ==> (im == 0 ==> !conf_has(proc, "IgnoreMissing")) && (im != 0 ==> conf_has(proc, "IgnoreMissing") && h2.C_bool[im] == conf_flag(proc, "IgnoreMissing"))
      && (fl == 0 ==> !conf_has(proc, "IgnoreFailure")) && (fl != 0 ==> conf_has(proc, "IgnoreFailure") && h2.C_bool[fl] == conf_flag(proc, "IgnoreFailure"))

func pkg/pipeline.newPipelineProcessor(baseID, i, name, config) (p, err)
  modifies ct_n ct_fn ct_addr ct_conf
  requires config != 0 && wfo(cv(h), config) && (onf(cv(h), config).len() > 0 ==> ork(config) < clim())
  hint if err is Nil && did_newPipelineProcessors { let g = newPipelineProcessors_h; let g2 = newPipelineProcessors_h2; let s = newPipelineProcessors_ps;
      assert(slseq(nv(h2).arr, s) =~= slseq(nv(g2).arr, s)); assert(onf(cv(h), config) =~= onf(cv(g), config));
      plist_frame(cv(g), cv(h), g.alloc, nv(g2), nv(h2), g2.alloc, slseq(nv(h2).arr, s), newPipelineProcessors_baseID, onf(cv(h), config), onf(cv(h), config).len() as int, clim(), ork(config), g.alloc, h.alloc, s.r, 0); }
  ensures @C12 [the processor mirrors its configuration entry] err is Nil ==> p >= h.alloc && node(cv(h), nv(h2), p, pid(baseID, i, name), name, config, h.alloc, 0)

func pkg/pipeline.newPipelineProcessors(baseID, cfgs) (ps, err)
  modifies ct_n ct_fn ct_addr ct_conf
  requires wfms(cv(h), slseq(cv(h).a, cfgs))
  prehint let ms = slseq(cv(h0).a, cfgs); if wfms(cv(h0), ms) && cagree(cv(h0), cv(h), h0.alloc) && cfgs.r < h0.alloc { assert(ms =~= slseq(cv(h).a, cfgs)); wfms_frame(cv(h0), cv(h), h0.alloc, ms); }
  ensures @C12 [one processor per entry, in order] err is Nil ==> ps.l == cfgs.l && (ps.l == 0 || ps.r >= h.alloc) && plist(cv(h), nv(h2), slseq(nv(h2).arr, ps), baseID, slseq(cv(h).a, cfgs), cfgs.l, clim(), h.alloc, ps.r)
  hint if in_build && err is Nil { assert(slseq(nv(h2).arr, ps).take(cfgs.l) =~= slseq(nv(h2).arr, ps)); }
  loop build(idx i, var ps []*pkg/pipeline.pipelineProcessor, fixed fx ps)
    invariant 0 <= i <= cfgs.l
    invariant (ps.r == 0 || ps.r >= h0.alloc) && ps.l == (if fx { cfgs.l } else { i }) && forall|r: int| 0 <= r < h0.alloc ==> (#[trigger] h.A_p_pipeline_pipelineProcessor[r]) == h0.A_p_pipeline_pipelineProcessor[r]
    invariant wfms(cv(h), slseq(cv(h0).a, cfgs)) && (i < cfgs.l ==> wfm(cv(h), slseq(cv(h0).a, cfgs)[i]))
    hint loop: if !established { wfms_frame(cv(h_p), cv(h), h_p.alloc, slseq(cv(h0).a, cfgs)); }
    invariant plist(cv(h0), nv(h), slseq(nv(h).arr, ps).take(i), baseID, slseq(cv(h0).a, cfgs), i, clim(), h0.alloc, ps.r)
    hint loop: if !established { let ms = slseq(cv(h0).a, cfgs); let q = slseq(nv(h_p).arr, ps_p).take(i_p); assert(slseq(nv(h).arr, ps).take(i) =~= q.push(newPipelineProcessor_p));
      plist_frame(cv(h0), cv(h0), h0.alloc, nv(h_p), nv(h), h_p.alloc, q, baseID, ms, i_p, clim(), clim(), h0.alloc, h0.alloc, ps_p.r, ps.r);
      let g = newPipelineProcessor_h; let g2 = newPipelineProcessor_h2; let p = newPipelineProcessor_p; let k = newPipelineProcessor_name; let id = pid(baseID, i_p, k); let o = cv(h0).m[ms[i_p]][k];
      assert(cv(h0).m[ms[i_p]].dom().contains(k)); assert(p < g2.alloc);
      if o == 0 { node_default(cv(g), nv(g2), p, id, k, newPipelineProcessor_config, g.alloc, 0); }
      node_frame(cv(g), cv(h0), h0.alloc, nv(g2), nv(h), g2.alloc, p, id, k, o, g.alloc, h0.alloc, 0, ps.r);
      assert(entry(cv(h0), nv(h), p, baseID, i_p, ms[i_p], clim(), h0.alloc, ps.r)); }

func pkg/pipeline.New(config) (pipe, err)
  modifies ct_n ct_fn ct_addr ct_conf
  requires config == 0 || (wfms(cv(h), slseq(cv(h).a, h.pipeline_Config_Processors[config])) && wfms(cv(h), slseq(cv(h).a, h.pipeline_Config_OnFailure[config])))
  hint if err is Nil { let g2 = newPipelineProcessors_1_h2; let s = newPipelineProcessors_1_ps; let ms = slseq(cv(h).a, newPipelineProcessors_1_cfgs);
      assert(slseq(nv(h2).arr, s) =~= slseq(nv(g2).arr, s));
      plist_frame(cv(h), cv(h), h.alloc, nv(g2), nv(h2), g2.alloc, slseq(nv(h2).arr, s), newPipelineProcessors_1_baseID, ms, ms.len() as int, clim(), clim(), h.alloc, h.alloc, s.r, 0); }
  hint if err is Nil { let g = newPipelineProcessors_2_h; let g2 = newPipelineProcessors_2_h2; let s = newPipelineProcessors_2_ps; let ms = slseq(cv(h).a, newPipelineProcessors_2_cfgs);
      assert(slseq(nv(h2).arr, s) =~= slseq(nv(g2).arr, s)); assert(slseq(cv(g).a, newPipelineProcessors_2_cfgs) =~= ms);
      plist_frame(cv(g), cv(h), h.alloc, nv(g2), nv(h2), g2.alloc, slseq(nv(h2).arr, s), newPipelineProcessors_2_baseID, ms, ms.len() as int, clim(), clim(), g.alloc, h.alloc, s.r, 0); }
  ensures @C12 [a pipeline needs a non-empty id] err is Nil ==> config != 0 && h.pipeline_Config_ID[config].len() > 0 && pipe != 0 && h2.pipeline_Pipeline_id[pipe] == h.pipeline_Config_ID[config]
  ensures @C12 [the processors mirror the configuration] err is Nil ==> plist(cv(h), nv(h2), slseq(nv(h2).arr, h2.pipeline_Pipeline_processors[pipe]), h.pipeline_Config_ID[config] + ".processors", slseq(cv(h).a, h.pipeline_Config_Processors[config]), h.pipeline_Config_Processors[config].l, clim(), h.alloc, 0)
  ensures @C12 [the on_failure processors mirror the configuration] err is Nil ==> plist(cv(h), nv(h2), slseq(nv(h2).arr, h2.pipeline_Pipeline_onFailure[pipe]), h.pipeline_Config_ID[config] + ".on_failure", slseq(cv(h).a, h.pipeline_Config_OnFailure[config]), h.pipeline_Config_OnFailure[config].l, clim(), h.alloc, 0)
