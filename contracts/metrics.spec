# Metrics: every processor of the pipeline is visited once and contributes its
# four counters, as a bag (the order is not part of the property): for every
# collector x, the result lists x as often as the processors do.
needs pipeline

use cnt_append
use cnt_small

rust
pub open spec fn cnt(s: Seq<Iface>, x: Iface) -> int { s.to_multiset().count(x) as int }
pub open spec fn one(a: Iface, x: Iface) -> int { if a == x { 1 } else { 0 } }
pub broadcast proof fn cnt_append(a: Seq<Iface>, b: Seq<Iface>, x: Iface)
    ensures #[trigger] cnt(a + b, x) == cnt(a, x) + cnt(b, x)
{
    broadcast use vstd::multiset::group_multiset_axioms;
    vstd::seq_lib::lemma_multiset_commutative(a, b);
}
proof fn cnt_push(a: Seq<Iface>, y: Iface, x: Iface)
    ensures cnt(a.push(y), x) == cnt(a, x) + one(y, x)
{
    broadcast use vstd::multiset::group_multiset_axioms;
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
}
pub open spec fn ones(s: Seq<Iface>, n: int, x: Iface) -> int
    decreases n
{ if n <= 0 { 0 } else { ones(s, n - 1, x) + one(s[n - 1], x) } }
proof fn cnt_ones(s: Seq<Iface>, x: Iface)
    ensures cnt(s, x) == ones(s, s.len() as int, x)
    decreases s.len()
{
    broadcast use vstd::multiset::group_multiset_axioms;
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if s.len() == 0 {
        assert(s =~= Seq::<Iface>::empty());
    } else {
        let t = s.drop_last();
        assert(s =~= t.push(s.last()));
        cnt_push(t, s.last(), x);
        cnt_ones(t, x);
        ones_ext(s, t, t.len() as int, x);
    }
}
proof fn ones_ext(s: Seq<Iface>, t: Seq<Iface>, n: int, x: Iface)
    requires n <= s.len(), n <= t.len(), forall|i: int| 0 <= i < n ==> s[i] == t[i]
    ensures ones(s, n, x) == ones(t, n, x)
    decreases n
{ if n > 0 { ones_ext(s, t, n - 1, x); } }
// Counts of the short sequences that append receives.
pub broadcast proof fn cnt_small(s: Seq<Iface>, x: Iface)
    ensures
        s.len() == 0 ==> #[trigger] cnt(s, x) == 0,
        s.len() == 1 ==> cnt(s, x) == one(s[0], x),
        s.len() == 2 ==> cnt(s, x) == one(s[0], x) + one(s[1], x),
        s.len() == 3 ==> cnt(s, x) == one(s[0], x) + one(s[1], x) + one(s[2], x),
        s.len() == 4 ==> cnt(s, x) == one(s[0], x) + one(s[1], x) + one(s[2], x) + one(s[3], x),
        s.len() == 5 ==> cnt(s, x) == one(s[0], x) + one(s[1], x) + one(s[2], x) + one(s[3], x) + one(s[4], x),
{
    cnt_ones(s, x);
    reveal_with_fuel(ones, 7);
}
pub open spec fn four(v: PV, p: int, x: Iface) -> int {
    one(v.cdis[p], x) + one(v.cerr[p], x) + one(v.cin[p], x) + one(v.cout[p], x)
}
// How often x is a counter of p or of its handlers, at any depth.
pub open spec fn cnt_p(v: PV, p: int, x: Iface) -> int
    decreases prank(p), 1int, 0int
{
    four(v, p, x) + cnt_list(v, kids(v, p), prank(p), 0, x)
}
pub open spec fn cnt_list(v: PV, ps: Seq<int>, r: nat, i: int, x: Iface) -> int
    decreases r, 0int, ps.len() - i
{
    if i < 0 || i >= ps.len() || prank(ps[i]) >= r { 0 } else { cnt_p(v, ps[i], x) + cnt_list(v, ps, r, i + 1, x) }
}
pub open spec fn cnt_pipe(h: H, pipe: int, x: Iface) -> int {
    cnt_list(pv(h), pprocs(h, pipe), plimit(), 0, x) + cnt_list(pv(h), pfails(h, pipe), plimit(), 0, x)
}
pub open spec fn cnt_of(h: H, s: Slice, x: Iface) -> int { cnt(slseq(h.A_prometheus_Collector, s), x) }
end rust

func pkg/pipeline.visitProcessor(visit[cell], proc)
  modifies A_prometheus_Collector C_s_prometheus_Collector
  requires wfproc(pv(h), proc) && cell != 0 && cell < h.alloc
  ensures [a processor and its handlers contribute their counters once] forall|x: Iface| #[trigger] cnt_of(h2, h2.C_s_prometheus_Collector[cell], x) == cnt_of(h, h.C_s_prometheus_Collector[cell], x) + cnt_p(pv(h), proc, x)
  loop handlers(idx i)
    invariant 0 <= i <= kids(pv(h0), proc).len() && pv(h) == pv(h0)
    invariant i < kids(pv(h0), proc).len() ==> prank(kids(pv(h0), proc)[i]) < prank(proc) && wfproc(pv(h0), kids(pv(h0), proc)[i])
    invariant forall|x: Iface| #[trigger] cnt_of(h, h.C_s_prometheus_Collector[cell], x) + cnt_list(pv(h0), kids(pv(h0), proc), prank(proc), i, x) == cnt_of(h0, h0.C_s_prometheus_Collector[cell], x) + cnt_p(pv(h0), proc, x)

func (*pkg/pipeline.Pipeline).visitProcessors(pipe, visit[cell])
  modifies A_prometheus_Collector C_s_prometheus_Collector
  requires wfpipe(h, pipe) && cell != 0 && cell < h.alloc
  ensures [every processor of both lists is visited] forall|x: Iface| #[trigger] cnt_of(h2, h2.C_s_prometheus_Collector[cell], x) == cnt_of(h, h.C_s_prometheus_Collector[cell], x) + cnt_pipe(h, pipe, x)
  loop main(idx i)
    invariant 0 <= i <= pprocs(h0, pipe).len() && pv(h) == pv(h0)
    invariant i < pprocs(h0, pipe).len() ==> prank(pprocs(h0, pipe)[i]) < plimit() && wfproc(pv(h0), pprocs(h0, pipe)[i])
    invariant forall|x: Iface| #[trigger] cnt_of(h, h.C_s_prometheus_Collector[cell], x) + cnt_list(pv(h0), pprocs(h0, pipe), plimit(), i, x) == cnt_of(h0, h0.C_s_prometheus_Collector[cell], x) + cnt_list(pv(h0), pprocs(h0, pipe), plimit(), 0, x)
  loop failure(idx i)
    invariant 0 <= i <= pfails(h0, pipe).len() && pv(h) == pv(h0)
    invariant i < pfails(h0, pipe).len() ==> prank(pfails(h0, pipe)[i]) < plimit() && wfproc(pv(h0), pfails(h0, pipe)[i])
    invariant forall|x: Iface| #[trigger] cnt_of(h, h.C_s_prometheus_Collector[cell], x) + cnt_list(pv(h0), pfails(h0, pipe), plimit(), i, x) == cnt_of(h0, h0.C_s_prometheus_Collector[cell], x) + cnt_pipe(h0, pipe, x)

func (*pkg/pipeline.Pipeline).Metrics(pipe) (r)
  modifies A_prometheus_Collector C_s_prometheus_Collector
  requires wfpipe(h, pipe)
  ensures @C13 [every processor's four counters, once each, and nothing else] forall|x: Iface| #[trigger] cnt_of(h2, r, x) == cnt_pipe(h, pipe, x)

# ---- the registry that is served: what it is offered and what is withdrawn ----
ghost offered: vstd::multiset::Multiset<(int, Iface)>
ghost withdrawn: vstd::multiset::Multiset<(int, Iface)>

extern (*github.com/prometheus/client_golang/prometheus.Registry).Register(r, c) (err)
  noalloc
  modifies offered
  ensures h2.offered == h.offered.insert((r, c))

extern (*github.com/prometheus/client_golang/prometheus.Registry).Unregister(r, c) (ok)
  noalloc
  modifies withdrawn
  ensures h2.withdrawn == h.withdrawn.insert((r, c))

func pkg/metrics.Register(c)
  modifies offered
  ensures @C13 [the registry is offered every collector, as often as it is listed] forall|x: Iface| #[trigger] h2.offered.count((glob_metrics_reg(), x)) == h.offered.count((glob_metrics_reg(), x)) + cnt_of(h, c, x)
  hint assert forall|x: Iface| #[trigger] cnt_of(h, c, x) == ones(slseq(h.A_prometheus_Collector, c), c.l, x) by { cnt_ones(slseq(h.A_prometheus_Collector, c), x); }
  loop reslice(pvar rest []github.com/prometheus/client_golang/prometheus.Collector)
    invariant 0 <= rest.l <= c.l && (rest.l > 0 ==> rest.r == c.r && rest.o == c.o + c.l - rest.l) && forall|x: Iface| #[trigger] h.offered.count((glob_metrics_reg(), x)) == h0.offered.count((glob_metrics_reg(), x)) + ones(slseq(h0.A_prometheus_Collector, c), c.l - rest.l, x)
    hint loop: if rest_p.l > 0 { assert(slseq(h0.A_prometheus_Collector, rest_p)[0] == slseq(h0.A_prometheus_Collector, c)[c.l - rest_p.l]); }
  loop each(idx i)
    invariant 0 <= i <= c.l && forall|x: Iface| #[trigger] h.offered.count((glob_metrics_reg(), x)) == h0.offered.count((glob_metrics_reg(), x)) + ones(slseq(h0.A_prometheus_Collector, c), i, x)

func pkg/metrics.Unregister(c)
  modifies withdrawn
  ensures @C13 [every collector is withdrawn] forall|x: Iface| #[trigger] h2.withdrawn.count((glob_metrics_reg(), x)) == h.withdrawn.count((glob_metrics_reg(), x)) + cnt_of(h, c, x)
  hint assert forall|x: Iface| #[trigger] cnt_of(h, c, x) == ones(slseq(h.A_prometheus_Collector, c), c.l, x) by { cnt_ones(slseq(h.A_prometheus_Collector, c), x); }
  loop reslice(pvar rest []github.com/prometheus/client_golang/prometheus.Collector)
    invariant 0 <= rest.l <= c.l && (rest.l > 0 ==> rest.r == c.r && rest.o == c.o + c.l - rest.l) && forall|x: Iface| #[trigger] h.withdrawn.count((glob_metrics_reg(), x)) == h0.withdrawn.count((glob_metrics_reg(), x)) + ones(slseq(h0.A_prometheus_Collector, c), c.l - rest.l, x)
    hint loop: if rest_p.l > 0 { assert(slseq(h0.A_prometheus_Collector, rest_p)[0] == slseq(h0.A_prometheus_Collector, c)[c.l - rest_p.l]); }
  loop each(idx i)
    invariant 0 <= i <= c.l && forall|x: Iface| #[trigger] h.withdrawn.count((glob_metrics_reg(), x)) == h0.withdrawn.count((glob_metrics_reg(), x)) + ones(slseq(h0.A_prometheus_Collector, c), i, x)
