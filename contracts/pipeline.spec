# Pipelines. The history of processor calls is a ghost sequence; what the n-th
# call does (its error, whether it drops or cancels the event) is an arbitrary
# but fixed function oracle(n), so the contracts hold for every behaviour of the
# processors. Handler trees are finite: prank decreases from a processor to its
# handlers.

macro EVENTS event_Event_fields M_string_p_event_Value A_p_event_Value event_Value_Type event_Value_Bytes event_Value_String event_Value_Array event_Value_Object event_Value_Bool event_Value_Integer event_Value_Float event_Value_UnsignedInteger event_Value_Timestamp

ghost trace: Seq<Call>
ghost cnt: vstd::multiset::Multiset<Iface>

use vstd::multiset::group_multiset_axioms

rust
pub struct Call { pub proc_: Iface, pub evt: Iface }
pub struct Outcome { pub err: Iface, pub dropped: bool, pub cancelled: bool }
// What the n-th processor call of the history does.
pub uninterp spec fn oracle(n: int) -> Outcome;
// Height of a processor in the (finite) handler tree.
pub uninterp spec fn prank(p: int) -> nat;
pub uninterp spec fn plimit() -> nat;

// errors.Is(e, ErrorKeyMissing{}) looks through wrapped errors.
pub uninterp spec fn other_is_missing(e: Iface) -> bool;
pub open spec fn is_missing(e: Iface) -> bool
    decreases e
{
    match e {
        Iface::Nil => false,
        Iface::Err(_) => false,
        Iface::WrapErr(_, b) => is_missing(*b),
        _ => e is V_processor_ErrorKeyMissing || other_is_missing(e),
    }
}

// The part of the heap that makes up processors.
pub struct PV {
    pub on: Map<int, Slice>, pub arr: Map<int, Map<int, int>>, pub proc_: Map<int, Iface>, pub im: Map<int, bool>, pub fl: Map<int, bool>,
    pub cin: Map<int, Iface>, pub cout: Map<int, Iface>, pub cerr: Map<int, Iface>, pub cdis: Map<int, Iface>,
}
pub open spec fn pv(h: H) -> PV {
    PV {
        on: h.pipeline_pipelineProcessor_OnFailure, arr: h.A_p_pipeline_pipelineProcessor, proc_: h.pipeline_pipelineProcessor_proc,
        im: h.pipeline_pipelineProcessor_IgnoreMissing, fl: h.pipeline_pipelineProcessor_IgnoreFailure,
        cin: h.pipeline_pipelineProcessor_metricEventsInTotal, cout: h.pipeline_pipelineProcessor_metricEventsOutTotal,
        cerr: h.pipeline_pipelineProcessor_metricErrorsTotal, cdis: h.pipeline_pipelineProcessor_metricDiscardedEventsTotal,
    }
}
pub open spec fn kids(v: PV, p: int) -> Seq<int> { slseq(v.arr, v.on[p]) }
pub open spec fn wfproc(v: PV, p: int) -> bool
    decreases prank(p)
{
    &&& p != 0
    &&& !(v.proc_[p] is Nil) && !(v.cin[p] is Nil) && !(v.cout[p] is Nil) && !(v.cerr[p] is Nil) && !(v.cdis[p] is Nil)
    &&& forall|i: int| #![trigger kids(v, p)[i]] 0 <= i < kids(v, p).len() ==> prank(kids(v, p)[i]) < prank(p) && wfproc(v, kids(v, p)[i])
}
pub open spec fn wflist(v: PV, ps: Seq<int>, r: nat) -> bool {
    forall|i: int| #![trigger ps[i]] 0 <= i < ps.len() ==> prank(ps[i]) < r && wfproc(v, ps[i])
}

// Reference semantics of the error handling: the result and the calls made.
pub struct Out { pub err: Iface, pub t: Seq<Call>, pub d: bool, pub c: bool }
pub open spec fn run_p(v: PV, p: int, ev: Iface, n: int, d: bool, c: bool) -> Out
    decreases prank(p), 1int, 0int
{
    let o = oracle(n);
    let d1 = d || o.dropped;
    let c1 = c || o.cancelled;
    let t1 = seq![Call { proc_: v.proc_[p], evt: ev }];
    if d1 || (o.err is Nil) || (v.im[p] && is_missing(o.err)) {
        Out { err: Iface::Nil, t: t1, d: d1, c: c1 }
    } else {
        let l = run_list(v, kids(v, p), prank(p), 0, ev, n + 1, o.err, d1, c1);
        Out { err: if l.d || v.fl[p] { Iface::Nil } else { l.err }, t: t1 + l.t, d: l.d, c: l.c }
    }
}
pub open spec fn run_list(v: PV, ps: Seq<int>, r: nat, i: int, ev: Iface, n: int, err: Iface, d: bool, c: bool) -> Out
    decreases r, 0int, ps.len() - i
{
    if i < 0 || i >= ps.len() || d || c || prank(ps[i]) >= r {
        Out { err: err, t: Seq::empty(), d: d, c: c }
    } else {
        let o = run_p(v, ps[i], ev, n, d, c);
        if !(o.err is Nil) { o } else {
            let l = run_list(v, ps, r, i + 1, ev, n + o.t.len(), Iface::Nil, o.d, o.c);
            Out { err: l.err, t: o.t + l.t, d: l.d, c: l.c }
        }
    }
}
pub open spec fn run_pipe(v: PV, ps: Seq<int>, fs: Seq<int>, ev: Iface, n: int) -> Out {
    let m = run_list(v, ps, plimit(), 0, ev, n, Iface::Nil, false, false);
    if m.err is Nil { m } else {
        let l = run_list(v, fs, plimit(), 0, ev, n + m.t.len(), m.err, m.d, m.c);
        Out { err: l.err, t: m.t + l.t, d: l.d, c: l.c }
    }
}
pub open spec fn pev(e: int) -> Iface { Iface::V_p_pipeline_pipelineEvent(e) }
pub open spec fn stopped(h: H, e: int) -> bool { h.pipeline_pipelineEvent_dropped[e] || h.pipeline_pipelineEvent_cancelled[e] }
pub open spec fn same_flags(h: H, h2: H, e: int) -> bool {
    &&& forall|r: int| r != e ==> (#[trigger] h2.pipeline_pipelineEvent_dropped[r]) == h.pipeline_pipelineEvent_dropped[r]
    &&& forall|r: int| r != e ==> (#[trigger] h2.pipeline_pipelineEvent_cancelled[r]) == h.pipeline_pipelineEvent_cancelled[r]
}
// No call but the last one of the history from n on drops or cancels.
pub open spec fn quiet(n: int, m: int) -> bool {
    forall|j: int| n <= j < m ==> !(#[trigger] oracle(j)).dropped && !oracle(j).cancelled
}
// All calls of the history from h to h2 were made with this event.
pub open spec fn calls_with(h: H, h2: H, ev: Iface) -> bool {
    forall|i: int| h.trace.len() <= i < h2.trace.len() ==> (#[trigger] h2.trace[i]).evt == ev
}
pub open spec fn quiet_ok(h: H, h2: H, e: int) -> bool {
    quiet(h.trace.len() as int, h2.trace.len() as int) ==> !stopped(h2, e)
}
// Flags of the event are what the last call left behind.
pub open spec fn flags_from(h: H, h2: H, e: int) -> bool {
    &&& h2.trace.len() > h.trace.len()
    &&& h2.pipeline_pipelineEvent_dropped[e] == oracle(h2.trace.len() - 1).dropped
    &&& h2.pipeline_pipelineEvent_cancelled[e] == oracle(h2.trace.len() - 1).cancelled
}
pub open spec fn extends(h: H, h2: H) -> bool {
    h.trace.len() <= h2.trace.len() && forall|i: int| 0 <= i < h.trace.len() ==> (#[trigger] h2.trace[i]) == h.trace[i]
}
pub open spec fn mine(v: PV, p: int, c: Iface) -> bool { c == v.cin[p] || c == v.cout[p] || c == v.cerr[p] || c == v.cdis[p] }
// c belongs to a handler (at any depth) of p
pub open spec fn beneath(v: PV, p: int, c: Iface) -> bool
    decreases prank(p)
{
    exists|i: int| #![trigger kids(v, p)[i]] 0 <= i < kids(v, p).len() && (mine(v, kids(v, p)[i], c) || (prank(kids(v, p)[i]) < prank(p) && beneath(v, kids(v, p)[i], c)))
}
end rust

iface (pkg/processor.Processor).Process(p, event) (err)
  modifies trace pipeline_pipelineEvent_cancelled pipeline_pipelineEvent_dropped $EVENTS
  ensures h2.trace == h.trace.push(Call { proc_: p, evt: event })
  ensures err == oracle(h.trace.len() as int).err
  ensures event is V_p_pipeline_pipelineEvent ==> same_flags(h, h2, event->V_p_pipeline_pipelineEvent_0)
  ensures event is V_p_pipeline_pipelineEvent ==> h2.pipeline_pipelineEvent_dropped[event->V_p_pipeline_pipelineEvent_0] == (h.pipeline_pipelineEvent_dropped[event->V_p_pipeline_pipelineEvent_0] || oracle(h.trace.len() as int).dropped)
  ensures event is V_p_pipeline_pipelineEvent ==> h2.pipeline_pipelineEvent_cancelled[event->V_p_pipeline_pipelineEvent_0] == (h.pipeline_pipelineEvent_cancelled[event->V_p_pipeline_pipelineEvent_0] || oracle(h.trace.len() as int).cancelled)

iface (github.com/prometheus/client_golang/prometheus.Counter).Inc(c)
  noalloc
  modifies cnt
  ensures h2.cnt == h.cnt.insert(c)

extern errors.Is(err, target) (ok)
  pure
  ensures target is V_processor_ErrorKeyMissing ==> ok == is_missing(err)

func (pkg/processor.ErrorKeyMissing).Is(e, target) (r)
  ensures @C09 [a missing-key error matches missing-key errors, whatever their keys, and nothing else] r == (target is V_processor_ErrorKeyMissing)

func (*pkg/pipeline.pipelineProcessor).Process(p, event) (err)
  modifies trace cnt pipeline_pipelineEvent_cancelled pipeline_pipelineEvent_dropped $EVENTS
  requires wfproc(pv(h), p) && event != 0
  requires [a processor is only run for an event that is neither dropped nor cancelled] !stopped(h, event)
  ensures extends(h, h2) && same_flags(h, h2, event) && calls_with(h, h2, pev(event)) && h2.trace.len() > h.trace.len()
  ensures quiet_ok(h, h2, event)
  ensures @C08,C09 [handlers run in order after a failure and decide whether it is recovered] !stopped(h2, event) ==> {
      let o = run_p(pv(h), p, pev(event), h.trace.len() as int, false, false);
      err == o.err && h2.trace =~= h.trace + o.t && !o.d && !o.c }
  ensures @C11 [nothing runs after a drop or cancel] quiet(h.trace.len() as int, h2.trace.len() - 1) && flags_from(h, h2, event)
  ensures @C11 [a dropped event is no error] h2.pipeline_pipelineEvent_dropped[event] ==> err is Nil
  ensures @C11 [the error of a cancelled event is the canceller's own] stopped(h2, event) && !(err is Nil) ==> err == oracle(h2.trace.len() - 1).err
  ensures @C10 [received once, and once sent, failed or discarded] forall|c: Iface| !beneath(pv(h), p, c) ==> #[trigger] h2.cnt.count(c) == h.cnt.count(c) + (if c == pv(h).cin[p] { 1nat } else { 0 })
      + (if c == (if h2.pipeline_pipelineEvent_dropped[event] { pv(h).cdis[p] } else if err is Nil { pv(h).cout[p] } else { pv(h).cerr[p] }) { 1nat } else { 0 })
  hint @C08,C09 if in_handlers && !stopped(h2, event) {
      let b = run_list(pv(h), kids(pv(h), p), prank(p), handlers_i, pev(event), h_handlers.trace.len() as int, handlers_err, false, false);
      let a = run_list(pv(h), kids(pv(h), p), prank(p), 0, pev(event), hl_handlers.trace.len() as int, oracle(h.trace.len() as int).err, false, false);
      assert(h2.trace =~= h_handlers.trace + b.t); assert(h2.trace =~= hl_handlers.trace + a.t); assert(hl_handlers.trace =~= h.trace + seq![Call { proc_: pv(h).proc_[p], evt: pev(event) }]); }
  hint assert(oracle(h.trace.len() as int).dropped == oracle(h.trace.len() as int).dropped);
  loop handlers(idx i, var err error)
    invariant 0 <= i <= kids(pv(h0), p).len() && pv(h) == pv(h0) && !(oracle(h0.trace.len() as int).err is Nil)
    invariant i < kids(pv(h0), p).len() ==> prank(kids(pv(h0), p)[i]) < prank(p) && wfproc(pv(h0), kids(pv(h0), p)[i])
    invariant calls_with(h0, h, pev(event)) && quiet_ok(h0, h, event)
    invariant extends(hl, h) && extends(h0, h) && same_flags(hl, h, event) && h.trace.len() > h0.trace.len() && (!stopped(h, event) ==> !stopped(hl, event))
    invariant @C08,C09 !stopped(h, event) ==> {
      let a = run_list(pv(h0), kids(pv(h0), p), prank(p), 0, pev(event), hl.trace.len() as int, oracle(h0.trace.len() as int).err, false, false);
      let b = run_list(pv(h0), kids(pv(h0), p), prank(p), i, pev(event), h.trace.len() as int, err, false, false);
      a.err == b.err && a.d == b.d && a.c == b.c && hl.trace + a.t =~= h.trace + b.t }
    invariant @C11 quiet(h0.trace.len() as int, h.trace.len() - 1) && flags_from(h0, h, event)
    invariant @C11 i == 0 ==> err == oracle(h0.trace.len() as int).err && h.trace.len() == h0.trace.len() + 1
    invariant i > 0 ==> err is Nil
    invariant @C10 forall|c: Iface| !beneath(pv(h0), p, c) ==> #[trigger] h.cnt.count(c) == hl.cnt.count(c)

func (*pkg/pipeline.Pipeline).process(pipe, evt) (err)
  modifies trace cnt pipeline_pipelineEvent_cancelled pipeline_pipelineEvent_dropped $EVENTS
  requires wfpipe(h, pipe) && evt != 0 && !stopped(h, evt)
  ensures extends(h, h2) && same_flags(h, h2, evt) && calls_with(h, h2, pev(evt))
  ensures quiet_ok(h, h2, evt)
  ensures @C08 [processors, then the pipeline's on_failure processors run in order] !stopped(h2, evt) ==> {
      let o = run_pipe(pv(h), pprocs(h, pipe), pfails(h, pipe), pev(evt), h.trace.len() as int);
      err == o.err && h2.trace =~= h.trace + o.t }
  ensures @C11 [nothing runs after a drop or cancel] quiet(h.trace.len() as int, h2.trace.len() - 1) && (h2.trace.len() == h.trace.len() || flags_from(h, h2, evt))
  ensures @C11 [a dropped event is no error] h2.pipeline_pipelineEvent_dropped[evt] ==> err is Nil
  ensures @C11 [the error of a cancelled event is the canceller's own] stopped(h2, evt) && !(err is Nil) ==> err == oracle(h2.trace.len() - 1).err
  hint @C08 if in_main && !stopped(h2, evt) {
      let x = if in_failure { hl_failure } else { h2 };
      let a = run_list(pv(h), pprocs(h, pipe), plimit(), 0, pev(evt), h.trace.len() as int, Iface::Nil, false, false);
      let b = left(pv(h), pprocs(h, pipe), main_i, pev(evt), h_main.trace.len() as int, main_err);
      assert(x.trace =~= h_main.trace + b.t); assert(x.trace =~= h.trace + a.t); }
  hint @C08 if in_failure && !stopped(h2, evt) {
      let a = run_list(pv(h), pfails(h, pipe), plimit(), 0, pev(evt), hl_failure.trace.len() as int, err_first(h, pipe, evt), false, false);
      let b = run_list(pv(h), pfails(h, pipe), plimit(), failure_i, pev(evt), h_failure.trace.len() as int, failure_err, false, false);
      assert(h2.trace =~= h_failure.trace + b.t); assert(h2.trace =~= hl_failure.trace + a.t); }
  hint @C08 if !in_failure && !stopped(h2, evt) {
      let m = run_list(pv(h), pprocs(h, pipe), plimit(), 0, pev(evt), h.trace.len() as int, Iface::Nil, false, false);
      let l = run_list(pv(h), pfails(h, pipe), plimit(), 0, pev(evt), (h.trace.len() + m.t.len()) as int, m.err, m.d, m.c);
      if !(m.err is Nil) { assert(m.t + l.t =~= m.t); } }
  loop main(idx i, ovar err error = Iface::Nil, tested cond err)
    invariant !cond ==> err is Nil
    invariant !(err is Nil) ==> h.trace.len() > h0.trace.len() && i > 0
    invariant i < pprocs(h0, pipe).len() ==> prank(pprocs(h0, pipe)[i]) < plimit() && wfproc(pv(h0), pprocs(h0, pipe)[i])
    invariant 0 <= i <= pprocs(h0, pipe).len() && wfpipe(h0, pipe) && pv(h) == pv(h0)
    invariant extends(h0, h) && same_flags(h0, h, evt) && calls_with(h0, h, pev(evt)) && quiet_ok(h0, h, evt)
    invariant @C08 !stopped(h, evt) ==> {
      let a = run_list(pv(h0), pprocs(h0, pipe), plimit(), 0, pev(evt), h0.trace.len() as int, Iface::Nil, false, false);
      let b = left(pv(h0), pprocs(h0, pipe), i, pev(evt), h.trace.len() as int, err);
      a == Out { t: a.t, ..b } && h0.trace + a.t =~= h.trace + b.t }
    invariant @C11 stopped(h, evt) && !(err is Nil) ==> err == oracle(h.trace.len() - 1).err
    invariant @C11 h.pipeline_pipelineEvent_dropped[evt] ==> err is Nil
    invariant @C11 quiet(h0.trace.len() as int, h.trace.len() - 1) && (i == 0 ==> h.trace == h0.trace) && (h.trace.len() == h0.trace.len() || flags_from(h0, h, evt))
  loop failure(idx i, ovar err error = err_at(h0, hl, pipe, evt, i))
    invariant 0 <= i <= pfails(h0, pipe).len() && pv(h) == pv(h0)
    invariant extends(h0, h) && extends(hl, h) && same_flags(h0, h, evt) && calls_with(h0, h, pev(evt)) && quiet_ok(h0, h, evt) && (!stopped(h, evt) ==> !stopped(hl, evt))
    invariant i < pfails(h0, pipe).len() ==> prank(pfails(h0, pipe)[i]) < plimit() && wfproc(pv(h0), pfails(h0, pipe)[i])
    invariant @C08 !stopped(h, evt) ==> {
      let a = run_list(pv(h0), pfails(h0, pipe), plimit(), 0, pev(evt), hl.trace.len() as int, err_first(h0, pipe, evt), false, false);
      let b = run_list(pv(h0), pfails(h0, pipe), plimit(), i, pev(evt), h.trace.len() as int, err, false, false);
      a == Out { t: a.t, ..b } && hl.trace + a.t =~= h.trace + b.t }
    invariant i > 0 ==> err is Nil
    invariant @C11 quiet(h0.trace.len() as int, h.trace.len() - 1) && flags_from(h0, h, evt)
    invariant @C11 stopped(h, evt) && !(err is Nil) ==> err == oracle(h.trace.len() - 1).err
    invariant @C11 h.pipeline_pipelineEvent_dropped[evt] ==> err is Nil

rust
pub open spec fn pprocs(h: H, pipe: int) -> Seq<int> { slseq(h.A_p_pipeline_pipelineProcessor, h.pipeline_Pipeline_processors[pipe]) }
pub open spec fn pfails(h: H, pipe: int) -> Seq<int> { slseq(h.A_p_pipeline_pipelineProcessor, h.pipeline_Pipeline_onFailure[pipe]) }
pub open spec fn wfpipe(h: H, pipe: int) -> bool {
    pipe != 0 && wflist(pv(h), pprocs(h, pipe), plimit()) && wflist(pv(h), pfails(h, pipe), plimit())
}
// What the processors from i on still do when err is the error so far.
pub open spec fn left(v: PV, ps: Seq<int>, i: int, e: Iface, n: int, err: Iface) -> Out {
    if err is Nil { run_list(v, ps, plimit(), i, e, n, err, false, false) } else { Out { t: Seq::<Call>::empty(), err: err, d: false, c: false } }
}
// The error before processor i of on_failure, for a loop that keeps it in no variable.
pub open spec fn err_at(h0: H, hl: H, pipe: int, evt: int, i: int) -> Iface {
    if i > 0 || hl.pipeline_pipelineEvent_dropped[evt] { Iface::Nil }
    else if stopped(hl, evt) { oracle(hl.trace.len() - 1).err }
    else { err_first(h0, pipe, evt) }
}
pub open spec fn err_first(h: H, pipe: int, evt: int) -> Iface {
    run_list(pv(h), pprocs(h, pipe), plimit(), 0, pev(evt), h.trace.len() as int, Iface::Nil, false, false).err
}
end rust

func (*pkg/pipeline.Pipeline).Process(pipe, evt) (r, err)
  modifies trace cnt $EVENTS
  record @C23 runs h2.runs.push(Run { pipe: pipe, fed: given(h, evt), out: r, err: err, mem: evmem(h2) })
  requires wfpipe(h, pipe)
  ensures @C08 [the event is returned exactly when no failure remains] quiet(h.trace.len() as int, h2.trace.len() as int) ==> {
      let o = run_pipe(pv(h), pprocs(h, pipe), pfails(h, pipe), pev(wrapped(h, h2)), h.trace.len() as int);
      h2.trace =~= h.trace + o.t && err == o.err && r == (if o.err is Nil { evt } else { 0 }) }
  ensures @C08 [processors see the event that was passed in] forall|i: int| h.trace.len() <= i < h2.trace.len() ==> (#[trigger] h2.trace[i]).evt == pev(wrapped(h, h2)) && h2.pipeline_pipelineEvent_data[wrapped(h, h2)] == evt && wrapped(h, h2) >= h.alloc
  ensures @C11 [nothing runs after a drop or cancel] quiet(h.trace.len() as int, h2.trace.len() - 1)
  ensures @C11 [drop and cancel have the documented result] !quiet(h.trace.len() as int, h2.trace.len() as int) ==> {
      let last = oracle(h2.trace.len() - 1);
      if last.dropped { r == 0 && err is Nil } else { (err is Nil && r == evt) || (r == 0 && err == last.err) } }
  hint if h2.trace.len() > h.trace.len() { assert(h2.trace[h.trace.len() as int].evt == pev(h.alloc)); }
  hint @C08 if h2.trace.len() == h.trace.len() { run_nothing(pv(h), pprocs(h, pipe), pfails(h, pipe), pev(h.alloc), pev(wrapped(h, h2)), h.trace.len() as int); }

rust
// The event the processors saw.
pub open spec fn wrapped(h: H, h2: H) -> int { h2.trace[h.trace.len() as int].evt->V_p_pipeline_pipelineEvent_0 }
proof fn run_nothing(v: PV, ps: Seq<int>, fs: Seq<int>, e1: Iface, e2: Iface, n: int)
    requires wflist(v, ps, plimit()), run_pipe(v, ps, fs, e1, n).t.len() == 0
    ensures run_pipe(v, ps, fs, e1, n).err is Nil, run_pipe(v, ps, fs, e2, n).err is Nil, run_pipe(v, ps, fs, e2, n).t.len() == 0
{
    if ps.len() > 0 {
        assert(prank(ps[0]) < plimit());
        assert(run_p(v, ps[0], e1, n, false, false).t.len() > 0);
        assert(run_list(v, ps, plimit(), 0, e1, n, Iface::Nil, false, false).t.len() > 0);
        assert(false);
    }
}
end rust

func (*pkg/pipeline.pipelineEvent).Cancel(e)
  modifies pipeline_pipelineEvent_cancelled
  requires e != 0
  ensures @C11 [Cancel marks this event and no other] h2.pipeline_pipelineEvent_cancelled == h.pipeline_pipelineEvent_cancelled.insert(e, true)

func (*pkg/pipeline.pipelineEvent).Drop(e)
  modifies pipeline_pipelineEvent_dropped
  requires e != 0
  ensures @C11 [Drop marks this event and no other] h2.pipeline_pipelineEvent_dropped == h.pipeline_pipelineEvent_dropped.insert(e, true)
