# The command line: one line of input, one event, at most one line of output.
# The history of runs of the pipeline and of values handed to the encoder is
# kept in ghost sequences; what the pipeline does with an event is arbitrary.
needs pipeline
needs clone
import keys
builds_on C23 C01 C02 C05

ghost runs: Seq<Run>
ghost sent: Seq<Sent>
ghost scan_at: Map<Iface, int>

rust
// What an event and its values hold.
pub struct EvMem { pub fields: Map<int, int>, pub vals: VV }
pub open spec fn evmem(h: H) -> EvMem { EvMem { fields: h.event_Event_fields, vals: vv(h) } }
// A line given to the pipeline: ok says that the event holds number and text and nothing else.
pub struct Fed { pub ok: bool, pub number: int, pub text: Str }
// A run of the pipeline: what it was given, what it returned, the memory then.
pub struct Run { pub pipe: int, pub fed: Fed, pub out: int, pub err: Iface, pub mem: EvMem }
// A value handed to an encoder that writes to w.
pub struct Sent { pub w: Iface, pub v: Iface, pub mem: EvMem }

pub open spec fn pnum() -> Seq<Str> { seq!["@metadata", "line_number"] }
pub open spec fn porig() -> Seq<Str> { seq!["event", "original"] }
pub open spec fn only_these(h: H, e: int) -> bool {
    forall|q: Seq<Str>, l: int| 1 <= l <= q.len() && #[trigger] lookup(h.event_Value_Object, h.M_string_p_event_Value, h.event_Event_fields[e], q, l) != 0
        ==> l <= 2 && (same_prefix(pnum(), q, l) || same_prefix(porig(), q, l))
}
pub open spec fn given(h: H, e: int) -> Fed {
    let n = look(h, e, pnum(), 2);
    let o = look(h, e, porig(), 2);
    Fed { ok: e != 0 && n != 0 && o != 0 && h.event_Value_Type[n] == 8 && h.event_Value_Type[o] == 6 && only_these(h, e),
        number: h.event_Value_UnsignedInteger[n], text: h.event_Value_String[o] }
}
// The lines a scanner finds in r, the error it ends with.
pub uninterp spec fn scan_lines(r: Iface) -> Seq<Str>;
pub uninterp spec fn scan_err(r: Iface) -> Iface;
pub uninterp spec fn scan_src(s: int) -> Iface;
pub uninterp spec fn enc_dst(e: int) -> Iface;
// strings.TrimSpace
pub uninterp spec fn trim(s: Str) -> Str;
// What the first n lines give to the pipeline.
pub open spec fn fed(ls: Seq<Str>, n: int) -> Seq<Fed>
    decreases n
{
    if n <= 0 { Seq::empty() }
    else if trim(ls[n - 1]).len() == 0 { fed(ls, n - 1) }
    else { fed(ls, n - 1).push(Fed { ok: true, number: n, text: trim(ls[n - 1]) }) }
}
// What the runs from b to n give to an encoder that writes to w.
pub open spec fn wanted(w: Iface, rs: Seq<Run>, b: int, n: int) -> Seq<Sent>
    decreases n
{
    if n <= b || n <= 0 { Seq::empty() }
    else {
        let r = rs[n - 1];
        if r.err is Nil && r.out != 0 { wanted(w, rs, b, n - 1).push(Sent { w: w, v: Iface::V_p_event_Event(r.out), mem: r.mem }) }
        else { wanted(w, rs, b, n - 1) }
    }
}
proof fn wanted_same(w: Iface, rs: Seq<Run>, rs2: Seq<Run>, b: int, n: int)
    ensures n <= rs.len() <= rs2.len() && (forall|i: int| 0 <= i < rs.len() ==> #[trigger] rs2[i] == rs[i]) ==> wanted(w, rs2, b, n) == wanted(w, rs, b, n)
    decreases n
{
    if n > b && n > 0 { wanted_same(w, rs, rs2, b, n - 1); }
}
// From heap h on, the pipeline was given these lines, in this order.
pub open spec fn fed_from(h: H, h2: H, pipe: int, f: Seq<Fed>) -> bool {
    &&& h2.runs.len() == h.runs.len() + f.len()
    &&& forall|i: int| #![trigger f[i]] 0 <= i < f.len() ==> h2.runs[h.runs.len() + i].fed == f[i] && h2.runs[h.runs.len() + i].pipe == pipe
}
pub open spec fn written(h: H, h2: H, w: Iface) -> bool { h2.sent =~= h.sent + wanted(w, h2.runs, h.runs.len() as int, h2.runs.len() as int) }

proof fn two_segments(key: Str, a: Str, b: Str)
    ensures a.len() > 0 && b.len() > 0 && no_byte(a, bs()) && no_byte(b, bs()) && no_byte(a, dot()) && no_byte(b, dot()) && key =~= a + seq![dot()] + b ==> kpath(key) =~= seq![a, b]
{
    if a.len() > 0 && b.len() > 0 && no_byte(a, bs()) && no_byte(b, bs()) && no_byte(a, dot()) && no_byte(b, dot()) && key =~= a + seq![dot()] + b {
        let n = a.len() as int;
        plain_seg(key, 0, n);
        assert(key.subrange(0, n) =~= a);
        assert(kseg(key, 0).1 =~= Seq::<int>::empty());
        assert(kseg(key, n).1 =~= a);
        assert(key[n - 1] == a[n - 1]);
        assert(kseg(key, n + 1) == (kseg(key, n).0.push(kseg(key, n).1), Seq::<int>::empty()));
        assert forall|j: int| n + 1 <= j < key.len() implies key[j] != dot() && key[j] != bs() by { assert(key[j] == b[j - n - 1]); }
        plain_seg(key, n + 1, key.len() as int);
        assert(key.subrange(n + 1, key.len() as int) =~= b);
        assert(kseg(key, key.len() as int).1 =~= b);
    }
}
proof fn plain_seg(key: Str, i: int, n: int)
    requires 0 <= i <= n <= key.len(), forall|j: int| i <= j < n ==> key[j] != dot() && key[j] != bs()
    ensures kseg(key, n).0 == kseg(key, i).0, kseg(key, n).1 =~= kseg(key, i).1 + key.subrange(i, n)
    decreases n
{
    if n > i {
        plain_seg(key, i, n - 1);
        assert(key.subrange(i, n) =~= key.subrange(i, n - 1).push(key[n - 1]));
    }
}
proof fn literal_paths(key: Str)
    ensures
        key =~= "@metadata.line_number" ==> kpath(key) =~= pnum(),
        key =~= "event.original" ==> kpath(key) =~= porig(),
        pnum()[0] != porig()[0],
{
    assert("@metadata.line_number" =~= "@metadata" + seq![dot()] + "line_number");
    assert("event.original" =~= "event" + seq![dot()] + "original");
    two_segments("@metadata.line_number", "@metadata", "line_number");
    two_segments("event.original", "event", "original");
    assert(pnum()[0].len() != porig()[0].len());
}
// Two Puts into an empty event.
pub open spec fn first_put(ha: H, hb: H, hc: H, e: int, p1: Seq<Str>, v1: int) -> bool {
    &&& wf(ha) && wf(hb) && wf(hc) && 0 < e < ha.alloc && hb.alloc <= hc.alloc && p1.len() == 2 && 0 < v1 < hb.alloc
    &&& ha.event_Event_fields[e] == 0
    &&& evtree(hb, e) && look(hb, e, p1, 2) == v1 && only_field_changed(ha, hb, e, p1) && hb.event_Value_Object[v1] == 0
    &&& hc.event_Event_fields[e] == hb.event_Event_fields[e] && 0 <= hb.event_Event_fields[e] < hb.alloc
    &&& forall|v: int| 0 <= v < hb.alloc ==> #[trigger] hc.event_Value_Object[v] == hb.event_Value_Object[v]
    &&& forall|m: int| 0 <= m < hb.alloc ==> #[trigger] hc.M_string_p_event_Value[m] == hb.M_string_p_event_Value[m]
}
pub open spec fn alone(h: H, e: int, p1: Seq<Str>, v1: int) -> bool {
    forall|q: Seq<Str>, l: int| 1 <= l <= q.len() && #[trigger] lookup(h.event_Value_Object, h.M_string_p_event_Value, h.event_Event_fields[e], q, l) != 0 ==> l <= 2 && same_prefix(p1, q, l)
}
proof fn after_first(ha: H, hb: H, hc: H, e: int, p1: Seq<Str>, v1: int, p2: Seq<Str>)
    ensures first_put(ha, hb, hc, e, p1, v1) && p2.len() == 2 && p1[0] != p2[0] ==> evtree(hc, e) && alone(hc, e, p1, v1) && look(hc, e, p1, 2) == v1 && !blocked(hc, e, p2)
{
    if first_put(ha, hb, hc, e, p1, v1) && p2.len() == 2 && p1[0] != p2[0] {
        put_start(ha, e);
        wf_closed(hb);
        lemma_ext(hb.event_Value_Object, hb.M_string_p_event_Value, hc.event_Value_Object, hc.M_string_p_event_Value, hb.alloc, hb.event_Event_fields[e]);
        nothing_below(hb, e, p1, v1);
        assert forall|q: Seq<Str>, l: int| 1 <= l <= q.len() && #[trigger] lookup(hc.event_Value_Object, hc.M_string_p_event_Value, hc.event_Event_fields[e], q, l) != 0 implies l <= 2 && same_prefix(p1, q, l) by {
            assert(lookup(hb.event_Value_Object, hb.M_string_p_event_Value, hb.event_Event_fields[e], q, l) != 0);
            if !under(p1, 2, q, l) { assert(lookup(ha.event_Value_Object, ha.M_string_p_event_Value, ha.event_Event_fields[e], q, l) == 0); }
        }
        assert(lookup(hc.event_Value_Object, hc.M_string_p_event_Value, hc.event_Event_fields[e], p1, 2) == v1);
        assert forall|j: int| 1 <= j < p2.len() implies #[trigger] lookup(hc.event_Value_Object, hc.M_string_p_event_Value, hc.event_Event_fields[e], p2, j) == 0 by { assert(p1[0] != p2[0]); }
    }
}
proof fn nothing_below(h: H, e: int, p: Seq<Str>, v: int)
    ensures p.len() == 2 && look(h, e, p, 2) == v && h.event_Value_Object[v] == 0 ==>
        forall|q: Seq<Str>, l: int| l > 2 && same_prefix(p, q, 2) ==> #[trigger] lookup(h.event_Value_Object, h.M_string_p_event_Value, h.event_Event_fields[e], q, l) == 0
{
    if p.len() == 2 && look(h, e, p, 2) == v && h.event_Value_Object[v] == 0 {
        assert(walk(h.event_Value_Object, h.M_string_p_event_Value, h.event_Event_fields[e], p, 2) == 0);
        lemma_dead_below(h.event_Value_Object, h.M_string_p_event_Value, h.event_Event_fields[e], p, 2);
    }
}
proof fn after_second(hc: H, hd: H, e: int, p1: Seq<Str>, v1: int, p2: Seq<Str>, v2: int)
    ensures p1.len() == 2 && p2.len() == 2 && p1[0] != p2[0] && alone(hc, e, p1, v1) && look(hc, e, p1, 2) == v1 && look(hd, e, p2, 2) == v2 && hd.event_Value_Object[v2] == 0 && only_field_changed(hc, hd, e, p2) ==> {
        &&& look(hd, e, p1, 2) == v1
        &&& forall|q: Seq<Str>, l: int| 1 <= l <= q.len() && #[trigger] lookup(hd.event_Value_Object, hd.M_string_p_event_Value, hd.event_Event_fields[e], q, l) != 0 ==> l <= 2 && (same_prefix(p1, q, l) || same_prefix(p2, q, l))
    }
{
    if p1.len() == 2 && p2.len() == 2 && p1[0] != p2[0] && alone(hc, e, p1, v1) && look(hc, e, p1, 2) == v1 && look(hd, e, p2, 2) == v2 && hd.event_Value_Object[v2] == 0 && only_field_changed(hc, hd, e, p2) {
        nothing_below(hd, e, p2, v2);
        assert(!under(p2, 2, p1, 2));
        assert(lookup(hd.event_Value_Object, hd.M_string_p_event_Value, hd.event_Event_fields[e], p1, 2) == v1);
        assert forall|q: Seq<Str>, l: int| 1 <= l <= q.len() && #[trigger] lookup(hd.event_Value_Object, hd.M_string_p_event_Value, hd.event_Event_fields[e], q, l) != 0 implies l <= 2 && (same_prefix(p1, q, l) || same_prefix(p2, q, l)) by {
            if !under(p2, 2, q, l) { assert(lookup(hc.event_Value_Object, hc.M_string_p_event_Value, hc.event_Event_fields[e], q, l) == look(hc, e, q, l)); }
        }
    }
}
end rust

extern bufio.NewScanner(r) (s)
  ensures s != 0 && scan_src(s) == r
extern (*bufio.Scanner).Scan(s) (ok)
  noalloc
  modifies scan_at
  requires s != 0
  ensures ok == (h.scan_at[scan_src(s)] < scan_lines(scan_src(s)).len())
  ensures h2.scan_at == (if ok { h.scan_at.insert(scan_src(s), h.scan_at[scan_src(s)] + 1) } else { h.scan_at })
extern (*bufio.Scanner).Text(s) (t)
  pure
  requires s != 0
  ensures 0 < h.scan_at[scan_src(s)] <= scan_lines(scan_src(s)).len() ==> t == scan_lines(scan_src(s))[h.scan_at[scan_src(s)] - 1]
extern (*bufio.Scanner).Err(s) (err)
  pure
  requires s != 0
  ensures h.scan_at[scan_src(s)] >= scan_lines(scan_src(s)).len() ==> err == scan_err(scan_src(s))
extern strings.TrimSpace(s) (r)
  pure
  ensures r == trim(s)
extern encoding/json.NewEncoder(w) (e)
  ensures e != 0 && enc_dst(e) == w
extern (*encoding/json.Encoder).SetEscapeHTML(e, on)
  pure
  requires e != 0
extern (*encoding/json.Encoder).Encode(e, v) (err)
  noalloc
  modifies sent
  requires e != 0
  ensures h2.sent == h.sent.push(Sent { w: enc_dst(e), v: v, mem: evmem(h) })
extern log.Printf(format, v)
  noalloc

func cmd/sawmill.processInput(in_, out, pipe) (err)
  modifies trace cnt runs sent scan_at $EVENTS
  requires wfpipe(h, pipe) && h.scan_at[in_] == 0 && scan_lines(in_).len() < 0x1_0000_0000_0000_0000
  ensures @C23 [the pipeline gets every line that is not blank, in order, with its number] fed_from(h, h2, pipe, fed(scan_lines(in_), scan_lines(in_).len() as int))
  ensures @C23 [what the pipeline returns is written, in order, and nothing else] written(h, h2, out)
  ensures @C23 [an error in reading is reported] err is Nil <==> scan_err(in_) is Nil
  loop lines(ovar n uint64 = h.scan_at[in_], ovar m int = h.scan_at[in_], entry n0 n, entry m0 m)
    invariant 0 <= h.scan_at[in_] <= scan_lines(in_).len() && n - n0 == h.scan_at[in_] && m - m0 == h.scan_at[in_] && (n0 == 0 || n0 == 1) && (m0 == 0 || m0 == 1) && wfpipe(h, pipe)
    invariant @C23 fed_from(h0, h, pipe, fed(scan_lines(in_), h.scan_at[in_])) && written(h0, h, out)
    hint loop: if !established && did_Put_2 {
        literal_paths(Put_1_key); literal_paths(Put_2_key);
        put_start(Put_1_h, Put_1_e);
        after_first(Put_1_h, Put_1_h2, Put_2_h, Put_2_e, kpath(Put_1_key), Put_1_val, kpath(Put_2_key));
        after_second(Put_2_h, Put_2_h2, Put_2_e, kpath(Put_1_key), Put_1_val, kpath(Put_2_key), Put_2_val);
        if h.runs.len() > h_p.runs.len() {
          let k = h_p.scan_at[in_] + 1;
          assert(h.runs.last().fed.ok && h.runs.last().fed.number == k && h.runs.last().fed.text == trim(scan_lines(in_)[k - 1]));
          assert(trim(scan_lines(in_)[k - 1]).len() != 0 && h.scan_at[in_] == k && h.runs.len() == h_p.runs.len() + 1);
        }
      }
      if !established { wanted_same(out, h_p.runs, h.runs, h0.runs.len() as int, h_p.runs.len() as int); }
