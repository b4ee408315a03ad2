# Processors that read and write single fields of an event.
needs event
import keys process
builds_on C15 C01 C02 C05
builds_on C16 C01 C02 C05
builds_on C17 C04
builds_on C24 C01 C02 C05

rust
// Processors receive an event wrapped for the pipeline.
pub open spec fn isevt(h: H, evt: Iface) -> bool {
    evt is V_p_pipeline_pipelineEvent && evt->V_p_pipeline_pipelineEvent_0 != 0 && data(h, evt) != 0
}
pub open spec fn data(h: H, evt: Iface) -> int { h.pipeline_pipelineEvent_data[evt->V_p_pipeline_pipelineEvent_0] }
pub open spec fn missing(e: Iface, key: Str) -> bool { e is V_processor_ErrorKeyMissing && e->V_processor_ErrorKeyMissing_0.Key == key }
// An error other than a missing key.
pub open spec fn failed(e: Iface) -> bool { !(e is Nil) && !(e is V_processor_ErrorKeyMissing) }
// Only objects hold fields.
pub open spec fn valok(h: H) -> bool { forall|v: int| #[trigger] h.event_Value_Type[v] != 5 ==> h.event_Value_Object[v] == 0 }
pub open spec fn elems(h: H, v: int) -> Seq<int> { slseq(h.A_p_event_Value, h.event_Value_Array[v]) }
// Between h and hp only new values were made.
pub open spec fn grown(h: H, hp: H, e: int) -> bool {
    &&& wf(h) && 0 < h.alloc <= hp.alloc && hp.event_Event_fields[e] == h.event_Event_fields[e]
    &&& forall|v: int| 0 <= v < h.alloc ==> #[trigger] hp.event_Value_Object[v] == h.event_Value_Object[v]
    &&& forall|v: int| 0 <= v < h.alloc ==> #[trigger] hp.event_Value_Type[v] == h.event_Value_Type[v]
    &&& forall|m: int| 0 <= m < h.alloc ==> #[trigger] hp.M_string_p_event_Value[m] == h.M_string_p_event_Value[m]
}
proof fn lift(h: H, hp: H, h2: H, e: int, key: Str)
    ensures grown(h, hp, e) ==> {
        &&& same_fields(h, hp, e)
        &&& evtree(h, e) ==> evtree(hp, e)
        &&& blocked(h, e, kpath(key)) == blocked(hp, e, kpath(key))
        &&& kpath(key).len() > 0 ==> get_at(hp, e, key) == get_at(h, e, key)
        &&& only_field_changed(hp, h2, e, kpath(key)) ==> only_field_changed(h, h2, e, kpath(key))
        &&& same_fields(hp, h2, e) ==> same_fields(h, h2, e)
    }
{
    if grown(h, hp, e) {
        let p = kpath(key);
        lemma_ext(h.event_Value_Object, h.M_string_p_event_Value, hp.event_Value_Object, hp.M_string_p_event_Value, h.alloc, h.event_Event_fields[e]);
        assert(same_fields(h, hp, e));
        if p.len() > 0 { assert(look(hp, e, p, p.len() as int) == lookup(hp.event_Value_Object, hp.M_string_p_event_Value, hp.event_Event_fields[e], p, p.len() as int)); }
        assert forall|j: int| 1 <= j < p.len() implies 0 <= #[trigger] lookup(h.event_Value_Object, h.M_string_p_event_Value, h.event_Event_fields[e], p, j) < h.alloc by {
            lemma_walk_bound(h.event_Value_Object, h.M_string_p_event_Value, h.alloc, h.event_Event_fields[e], p, j - 1);
            assert(0 <= mget(h.M_string_p_event_Value, walk(h.event_Value_Object, h.M_string_p_event_Value, h.event_Event_fields[e], p, j - 1), p[j - 1]) < h.alloc);
        }
        if blocked(h, e, p) {
            let j = choose|j: int| 1 <= j < p.len() && #[trigger] lookup(h.event_Value_Object, h.M_string_p_event_Value, h.event_Event_fields[e], p, j) != 0 && h.event_Value_Type[look(h, e, p, j)] != 5;
            assert(lookup(hp.event_Value_Object, hp.M_string_p_event_Value, hp.event_Event_fields[e], p, j) != 0);
        }
        if blocked(hp, e, p) {
            let j = choose|j: int| 1 <= j < p.len() && #[trigger] lookup(hp.event_Value_Object, hp.M_string_p_event_Value, hp.event_Event_fields[e], p, j) != 0 && hp.event_Value_Type[look(hp, e, p, j)] != 5;
            assert(lookup(h.event_Value_Object, h.M_string_p_event_Value, h.event_Event_fields[e], p, j) != 0);
        }
        if only_field_changed(hp, h2, e, p) {
            assert forall|q: Seq<Str>, l: int| 1 <= l <= q.len() && !under(p, p.len() as int, q, l) implies
        ((#[trigger] lookup(h2.event_Value_Object, h2.M_string_p_event_Value, h2.event_Event_fields[e], q, l)) == look(h, e, q, l)) || (l < p.len() && same_prefix(p, q, l) && objat(h, e, q, l) == 0
            && look(h2, e, q, l) >= h.alloc && h2.event_Value_Type[look(h2, e, q, l)] == 5 && objat(h2, e, q, l) != 0) by {
                assert(lookup(hp.event_Value_Object, hp.M_string_p_event_Value, hp.event_Event_fields[e], q, l) == look(h, e, q, l));
                assert(walk(hp.event_Value_Object, hp.M_string_p_event_Value, hp.event_Event_fields[e], q, l) == objat(h, e, q, l));
            }
        }
        if same_fields(hp, h2, e) {
            assert forall|q: Seq<Str>, l: int| 1 <= l <= q.len() implies #[trigger] lookup(h2.event_Value_Object, h2.M_string_p_event_Value, h2.event_Event_fields[e], q, l) == look(h, e, q, l) by {
                assert(lookup(hp.event_Value_Object, hp.M_string_p_event_Value, hp.event_Event_fields[e], q, l) == look(h, e, q, l));
            }
        }
    }
}
// ---- remove ----
pub open spec fn rm_fields(h: H, p: int) -> Seq<Str> { slseq(h.A_string, h.remove_Config_Fields[p + offset_of("remove_Remove.config")]) }
pub open spec fn rm_ignore(h: H, p: int) -> bool { h.remove_Config_IgnoreMissing[p + offset_of("remove_Remove.config")] }
// q[0..l] lies at or below one of the first n keys
pub open spec fn covered(fs: Seq<Str>, n: int, q: Seq<Str>, l: int) -> bool {
    exists|j: int| 0 <= j < n && kpath(#[trigger] fs[j]).len() > 0 && under(kpath(fs[j]), kpath(fs[j]).len() as int, q, l)
}
// The fields at the first n keys are gone, every other field is as before.
pub open spec fn removed(h: H, h2: H, e: int, fs: Seq<Str>, n: int) -> bool {
    forall|q: Seq<Str>, l: int| 1 <= l <= q.len() ==>
        #[trigger] lookup(h2.event_Value_Object, h2.M_string_p_event_Value, h2.event_Event_fields[e], q, l) == (if covered(fs, n, q, l) { 0 } else { look(h, e, q, l) })
}
// The n-th key holds a value once the fields before it are gone.
pub open spec fn present(h: H, e: int, fs: Seq<Str>, n: int) -> bool {
    kpath(fs[n]).len() > 0 && get_at(h, e, fs[n]) != 0 && !covered(fs, n, kpath(fs[n]), kpath(fs[n]).len() as int)
}
proof fn rm_step(h0: H, hp: H, h: H, e: int, fs: Seq<Str>, n: int)
    ensures 0 <= n < fs.len() ==> {
        &&& removed(h0, hp, e, fs, n) && same_fields(hp, h, e) && evtree(hp, e) && (kpath(fs[n]).len() > 0 ==> get_at(hp, e, fs[n]) == 0) ==> removed(h0, h, e, fs, n + 1)
        &&& removed(h0, hp, e, fs, n) && kpath(fs[n]).len() > 0 && only_field_removed(hp, h, e, kpath(fs[n])) && get_at(h, e, fs[n]) == 0 ==> removed(h0, h, e, fs, n + 1)
        &&& kpath(fs[n]).len() > 0 && evtree(hp, e) && wf(hp) && only_field_removed(hp, h, e, kpath(fs[n])) && get_at(h, e, fs[n]) == 0 && same_objects(hp, h, e) ==> evtree(h, e)
        &&& evtree(hp, e) && wf(hp) && same_fields(hp, h, e) && same_objects(hp, h, e) ==> evtree(h, e)
        &&& removed(h0, hp, e, fs, n) && kpath(fs[n]).len() > 0 ==> (present(h0, e, fs, n) <==> get_at(hp, e, fs[n]) != 0)
    }
{
  if 0 <= n < fs.len() {
    let p = kpath(fs[n]);
    let pl = p.len() as int;
    if p.len() > 0 {
        assert(look(hp, e, p, pl) == lookup(hp.event_Value_Object, hp.M_string_p_event_Value, hp.event_Event_fields[e], p, pl));
    }
    assert forall|q: Seq<Str>, l: int| 1 <= l <= q.len() implies covered(fs, n + 1, q, l) == (covered(fs, n, q, l) || (p.len() > 0 && under(p, pl, q, l))) by {
        if p.len() > 0 && under(p, pl, q, l) { assert(fs[n] == fs[n]); assert(covered(fs, n + 1, q, l)); }
        if covered(fs, n, q, l) {
            let j = choose|j: int| 0 <= j < n && kpath(#[trigger] fs[j]).len() > 0 && under(kpath(fs[j]), kpath(fs[j]).len() as int, q, l);
            assert(0 <= j < n + 1 && kpath(fs[j]).len() > 0);
        }
    }
    if p.len() > 0 {
        lemma_gone(hp.event_Value_Object, hp.M_string_p_event_Value, hp.event_Event_fields[e], p, pl);
        lemma_gone(h.event_Value_Object, h.M_string_p_event_Value, h.event_Event_fields[e], p, pl);
    }
    if evtree(hp, e) && wf(hp) && same_objects(hp, h, e) {
        lemma_subtree(hp.event_Value_Object, hp.M_string_p_event_Value, h.event_Value_Object, h.M_string_p_event_Value, hp.alloc, hp.event_Event_fields[e]);
    }
  }
}
// The i-th field is the first missing one: it is named, the fields before it are gone.
pub open spec fn rm_stopped(h: H, h2: H, e: int, fs: Seq<Str>, i: int, err: Iface) -> bool {
    &&& 0 <= i < fs.len() && missing(err, fs[i])
    &&& evtree(h, e) ==> !present(h, e, fs, i) && removed(h, h2, e, fs, i)
    &&& evtree(h, e) ==> forall|j: int| 0 <= j < i ==> #[trigger] present(h, e, fs, j)
}
// the objects of values are not exchanged
pub open spec fn same_objects(h: H, h2: H, e: int) -> bool {
    &&& h.event_Event_fields[e] == h2.event_Event_fields[e]
    &&& forall|v: int| 0 <= v < h.alloc ==> #[trigger] h2.event_Value_Object[v] == h.event_Value_Object[v]
}
end rust

func (*pkg/processor/remove.Remove).Process(p, evt) (err)
  modifies M_string_p_event_Value
  requires p != 0 && isevt(h, evt)
  ensures @C17 [on success all present fields are removed and nothing else] err is Nil && evtree(h, data(h, evt)) ==> removed(h, h2, data(h, evt), rm_fields(h, p), rm_fields(h, p).len() as int)
  ensures @C17 [missing fields are ignored on request] rm_ignore(h, p) ==> err is Nil
  ensures @C17 [success means that no field was missing] err is Nil && !rm_ignore(h, p) && evtree(h, data(h, evt)) ==> forall|i: int| 0 <= i < rm_fields(h, p).len() ==> #[trigger] present(h, data(h, evt), rm_fields(h, p), i)
  ensures @C17 [the first missing field is named and stops the removal] !(err is Nil) ==> exists|i: int| #[trigger] rm_stopped(h, h2, data(h, evt), rm_fields(h, p), i, err)
  loop fields(idx i)
    invariant 0 <= i <= rm_fields(h0, p).len()
    invariant evtree(h0, data(h0, evt)) ==> evtree(h, data(h0, evt)) && removed(h0, h, data(h0, evt), rm_fields(h0, p), i)
    invariant evtree(h0, data(h0, evt)) && !rm_ignore(h0, p) ==> forall|j: int| 0 <= j < i ==> #[trigger] present(h0, data(h0, evt), rm_fields(h0, p), j)
    hint loop: if !established { rm_step(h0, h_p, h, data(h0, evt), rm_fields(h0, p), i_p); }
  hint rm_step(h, h_fields, h2, data(h, evt), rm_fields(h, p), fields_i); assert(in_fields && !(err is Nil) ==> rm_stopped(h, h2, data(h, evt), rm_fields(h, p), fields_i, err)); rm_step(h, h_fields, h2, data(h, evt), rm_fields(h, p), fields_i);

rust
// ---- lowercase, uppercase ----
pub open spec fn up_src(h: H, p: int) -> Str { h.uppercase_Config_Field[p + offset_of("uppercase_Uppercase.config")] }
pub open spec fn up_dst(h: H, p: int) -> Str { target(h.uppercase_Config_TargetField[p + offset_of("uppercase_Uppercase.config")], up_src(h, p)) }
pub open spec fn lo_src(h: H, p: int) -> Str { h.lowercase_Config_Field[p + offset_of("lowercase_Lowercase.config")] }
pub open spec fn lo_dst(h: H, p: int) -> Str { target(h.lowercase_Config_TargetField[p + offset_of("lowercase_Lowercase.config")], lo_src(h, p)) }
pub open spec fn target(t: Str, f: Str) -> Str { if t =~= Seq::<int>::empty() { f } else { t } }
pub open spec fn writable(h: H, e: int, key: Str) -> bool { kpath(key).len() > 0 && !blocked(h, e, kpath(key)) }
pub open spec fn is_str(h: H, v: int, s: Str) -> bool { v != 0 && h.event_Value_Type[v] == 6 && h.event_Value_String[v] == s }
pub open spec fn has_str(h: H, e: int, key: Str) -> bool { kpath(key).len() > 0 && get_at(h, e, key) != 0 && h.event_Value_Type[get_at(h, e, key)] == 6 }
// The key addresses nothing, or null.
pub open spec fn no_value(h: H, e: int, key: Str) -> bool {
    if kpath(key).len() > 0 { get_at(h, e, key) == 0 || h.event_Value_Type[get_at(h, e, key)] == 0 }
    else { h.M_string_p_event_Value[h.event_Event_fields[e]] =~= Map::<Str, int>::empty() }
}
end rust

extern strings.ToUpper(s) (r)
  pure
  ensures r == to_upper(s)
extern strings.ToLower(s) (r)
  pure
  ensures r == to_lower(s)

func (*pkg/processor/uppercase.Uppercase).Process(p, evt) (err)
  modifies event_Event_fields M_string_p_event_Value
  requires p != 0 && isevt(h, evt)
  ensures @C16 [a string is stored in upper case] has_str(h, data(h, evt), up_src(h, p)) && writable(h, data(h, evt), up_dst(h, p)) ==> err is Nil
  ensures @C16 [a string is stored in upper case] err is Nil && evtree(h, data(h, evt)) ==> is_str(h2, get_at(h2, data(h, evt), up_dst(h, p)), to_upper(h.event_Value_String[get_at(h, data(h, evt), up_src(h, p))]))
  ensures @C16 [success needs a string and a target] err is Nil ==> has_str(h, data(h, evt), up_src(h, p)) && writable(h, data(h, evt), up_dst(h, p))
  ensures @C16 [nothing else changes] err is Nil && evtree(h, data(h, evt)) ==> only_field_changed(h, h2, data(h, evt), kpath(up_dst(h, p)))
  ensures @C16 [a missing field is named] no_value(h, data(h, evt), up_src(h, p)) <==> err is V_processor_ErrorKeyMissing
  ensures @C16 [a missing field is named] no_value(h, data(h, evt), up_src(h, p)) ==> missing(err, up_src(h, p))
  ensures @C16 [on error the event is unchanged] !(err is Nil) ==> same_fields(h, h2, data(h, evt))
  hint lift(h, Put_h, h2, data(h, evt), up_dst(h, p));

func (*pkg/processor/lowercase.Lowercase).Process(p, evt) (err)
  modifies event_Event_fields M_string_p_event_Value
  requires p != 0 && isevt(h, evt)
  ensures @C16 [a string is stored in lower case] has_str(h, data(h, evt), lo_src(h, p)) && writable(h, data(h, evt), lo_dst(h, p)) ==> err is Nil
  ensures @C16 [a string is stored in lower case] err is Nil && evtree(h, data(h, evt)) ==> is_str(h2, get_at(h2, data(h, evt), lo_dst(h, p)), to_lower(h.event_Value_String[get_at(h, data(h, evt), lo_src(h, p))]))
  ensures @C16 [success needs a string and a target] err is Nil ==> has_str(h, data(h, evt), lo_src(h, p)) && writable(h, data(h, evt), lo_dst(h, p))
  ensures @C16 [nothing else changes] err is Nil && evtree(h, data(h, evt)) ==> only_field_changed(h, h2, data(h, evt), kpath(lo_dst(h, p)))
  ensures @C16 [a missing field is named] no_value(h, data(h, evt), lo_src(h, p)) <==> err is V_processor_ErrorKeyMissing
  ensures @C16 [a missing field is named] no_value(h, data(h, evt), lo_src(h, p)) ==> missing(err, lo_src(h, p))
  ensures @C16 [on error the event is unchanged] !(err is Nil) ==> same_fields(h, h2, data(h, evt))
  hint lift(h, Put_h, h2, data(h, evt), lo_dst(h, p));

rust
// ---- append ----
pub open spec fn ap_field(h: H, p: int) -> Str { h.append_Config_Field[p + offset_of("append_Append.config")] }
pub open spec fn ap_value(h: H, p: int) -> Str { h.append_Config_Value[p + offset_of("append_Append.config")] }
pub open spec fn ap_dups(h: H, p: int) -> bool { h.append_Config_AllowDuplicates[p + offset_of("append_Append.config")] }
pub open spec fn ap_ignore(h: H, p: int) -> bool { h.append_Config_IgnoreMissing[p + offset_of("append_Append.config")] }
pub open spec fn has_object(h: H, e: int, key: Str) -> bool {
    if kpath(key).len() > 0 { get_at(h, e, key) != 0 && h.event_Value_Type[get_at(h, e, key)] == 5 } else { !no_value(h, e, key) }
}
// What is at the key, as a list.
pub open spec fn before(h: H, e: int, key: Str) -> Seq<int> {
    if no_value(h, e, key) { Seq::<int>::empty() }
    else if h.event_Value_Type[get_at(h, e, key)] == 1 { elems(h, get_at(h, e, key)) }
    else { seq![get_at(h, e, key)] }
}
pub open spec fn str_in(h: H, vs: Seq<int>, s: Str) -> bool { exists|i: int| 0 <= i < vs.len() && is_str(h, #[trigger] vs[i], s) }
// r lists vs and then, if more, the string s in a new value.
pub open spec fn extended(h: H, h2: H, r: int, vs: Seq<int>, more: bool, s: Str) -> bool {
    &&& r != 0 && h2.event_Value_Type[r] == 1
    &&& !more ==> elems(h2, r) =~= vs
    &&& more ==> elems(h2, r).len() == vs.len() + 1 && elems(h2, r) =~= vs.push(elems(h2, r)[vs.len() as int]) && elems(h2, r)[vs.len() as int] >= h.alloc && is_str(h2, elems(h2, r)[vs.len() as int], s)
}
// No array other than that of v is changed, and that one only past its end.
pub open spec fn only_extended(h: H, h2: H, v: int) -> bool {
    &&& forall|x: int| 0 <= x < h.alloc && (x != v || h.event_Value_Type[v] != 1) ==> #[trigger] h2.event_Value_Array[x] == h.event_Value_Array[x]
    &&& forall|r: int| 0 <= r < h.alloc && (r != h.event_Value_Array[v].r || h.event_Value_Type[v] != 1) ==> #[trigger] h2.A_p_event_Value[r] == h.A_p_event_Value[r]
    &&& forall|j: int| (j < h.event_Value_Array[v].o + h.event_Value_Array[v].l || j > h.event_Value_Array[v].o + h.event_Value_Array[v].l) && h.event_Value_Array[v].r != 0 ==>
        #[trigger] h2.A_p_event_Value[h.event_Value_Array[v].r][j] == h.A_p_event_Value[h.event_Value_Array[v].r][j]
}
// What can be read can be written.
proof fn readable(h: H, e: int, key: Str)
    ensures valok(h) && kpath(key).len() > 0 && get_at(h, e, key) != 0 ==> !blocked(h, e, kpath(key))
{
    let p = kpath(key);
    if valok(h) && p.len() > 0 && get_at(h, e, key) != 0 {
        assert forall|j: int| 1 <= j < p.len() && #[trigger] lookup(h.event_Value_Object, h.M_string_p_event_Value, h.event_Event_fields[e], p, j) != 0 implies h.event_Value_Type[look(h, e, p, j)] == 5 by {
            lemma_alive(h.event_Value_Object, h.M_string_p_event_Value, h.event_Event_fields[e], p, j, p.len() - 1);
            assert(walk(h.event_Value_Object, h.M_string_p_event_Value, h.event_Event_fields[e], p, j) != 0);
        }
    }
}
pub open spec fn same_arrays(h: H, h2: H) -> bool {
    &&& forall|x: int| 0 <= x < h.alloc ==> #[trigger] h2.event_Value_Array[x] == h.event_Value_Array[x]
    &&& forall|r: int| 0 <= r < h.alloc ==> #[trigger] h2.A_p_event_Value[r] == h.A_p_event_Value[r]
}
end rust

func (*pkg/processor/append.Append).Process(p, evt) (err)
  modifies event_Event_fields M_string_p_event_Value event_Value_Array A_p_event_Value
  requires p != 0 && isevt(h, evt) && valok(h)
  ensures @C15 [a missing field is left alone on request] no_value(h, data(h, evt), ap_field(h, p)) && ap_ignore(h, p) ==> err is Nil && same_fields(h, h2, data(h, evt)) && same_arrays(h, h2)
  ensures @C15 [append fails exactly for objects and blocked fields] !(no_value(h, data(h, evt), ap_field(h, p)) && ap_ignore(h, p)) ==>
    (err is Nil <==> !has_object(h, data(h, evt), ap_field(h, p)) && writable(h, data(h, evt), ap_field(h, p)))
  ensures @C15 [the field holds what it held before and then the value] !(no_value(h, data(h, evt), ap_field(h, p)) && ap_ignore(h, p)) && err is Nil && evtree(h, data(h, evt)) ==>
    extended(h, h2, get_at(h2, data(h, evt), ap_field(h, p)), before(h, data(h, evt), ap_field(h, p)), ap_dups(h, p) || !str_in(h, before(h, data(h, evt), ap_field(h, p)), ap_value(h, p)), ap_value(h, p))
  ensures @C15 [nothing else changes] err is Nil && evtree(h, data(h, evt)) ==> only_field_changed(h, h2, data(h, evt), kpath(ap_field(h, p)))
  ensures @C15 [no other array changes] only_extended(h, h2, get_at(h, data(h, evt), ap_field(h, p)))
  ensures @C15 [on error the event is unchanged] !(err is Nil) ==> same_fields(h, h2, data(h, evt)) && same_arrays(h, h2)
  loop scan(idx i, var vs []*pkg/event.Value)
    invariant 0 <= i <= vs.l
    invariant forall|j: int| 0 <= j < i ==> !is_str(h, #[trigger] slseq(h.A_p_event_Value, vs)[j], ap_value(h0, p))
  hint lift(h, Put_h, h2, data(h, evt), ap_field(h, p)); readable(h, data(h, evt), ap_field(h, p));
    if in_scan && scan_i < scan_vs.l { let b = before(h, data(h, evt), ap_field(h, p)); let s = slseq(h_scan.A_p_event_Value, scan_vs); assert(is_str(h_scan, s[scan_i], ap_value(h, p)) || !is_str(h_scan, s[scan_i], ap_value(h, p)));
      if b =~= s && is_str(h_scan, s[scan_i], ap_value(h, p)) { assert(is_str(h, b[scan_i], ap_value(h, p))); assert(str_in(h, b, ap_value(h, p))); } }

func pkg/processor/append.contains(values, s) (r)
  ensures @C15 [contains finds an equal string] r == str_in(h, slseq(h.A_p_event_Value, values), s)
  loop scan(idx i, ovar found bool = false)
    invariant 0 <= i <= values.l
    invariant found ==> i > 0 && is_str(h, slseq(h.A_p_event_Value, values)[i - 1], s)
    invariant !found ==> forall|j: int| 0 <= j < i ==> !is_str(h, #[trigger] slseq(h.A_p_event_Value, values)[j], s)
  loop back(down i, ovar found bool = false)
    invariant -1 <= i < values.l && !found
    invariant forall|j: int| i < j < values.l ==> !is_str(h, #[trigger] slseq(h.A_p_event_Value, values)[j], s)
  hint if in_back && r { assert(is_str(h, slseq(h.A_p_event_Value, values)[back_i], s)); }
  hint if in_scan && scan_found { assert(is_str(h, slseq(h.A_p_event_Value, values)[scan_i - 1], s)); }
  hint if in_scan && !scan_found { assert(r ==> is_str(h, slseq(h.A_p_event_Value, values)[scan_i], s)); }

rust
// ---- eventutil.Append ----
pub open spec fn prior(h: H, e: int, key: Str) -> Seq<int> {
    if get_at(h, e, key) == 0 { Seq::<int>::empty() }
    else if h.event_Value_Type[get_at(h, e, key)] == 1 { elems(h, get_at(h, e, key)) }
    else { seq![get_at(h, e, key)] }
}
pub open spec fn added(h: H, item: int) -> Seq<int> { if h.event_Value_Type[item] == 1 { elems(h, item) } else { seq![item] } }
// The elements of b do not lie in the unused part of the array of a.
pub open spec fn apart(h: H, a: int, b: int) -> bool {
    let (x, y) = (h.event_Value_Array[a], h.event_Value_Array[b]);
    a == 0 || x.r == 0 || x.r != y.r || y.o + y.l <= x.o + x.l || x.o + x.c <= y.o
}
// y is x with i more elements in the same array.
pub open spec fn same_room(x: Slice, y: Slice, i: int) -> bool { y.r == x.r && y.o == x.o && y.c == x.c && y.l == x.l + i }
// Of the array of x only the unused part is changed.
pub open spec fn only_room(h: H, h2: H, x: Slice) -> bool {
    forall|j: int| j < x.o + x.l || j >= x.o + x.c ==> #[trigger] h2.A_p_event_Value[x.r][j] == h.A_p_event_Value[x.r][j]
}
end rust

func pkg/eventutil.Append(evt, key, item) (err)
  modifies event_Event_fields M_string_p_event_Value event_Value_Array A_p_event_Value
  requires evt != 0 && valok(h) && (item != 0 && kpath(key).len() > 0 ==> apart(h, get_at(h, evt, key), item))
  ensures @C24 [a nil item changes nothing] item == 0 ==> err is Nil && same_fields(h, h2, evt) && same_arrays(h, h2)
  ensures @C24 [Append fails exactly where nothing can be stored] item != 0 ==> (err is Nil <==> writable(h, evt, key))
  ensures @C24 [the field holds what it held before and then the items] item != 0 && err is Nil && evtree(h, evt) ==>
    get_at(h2, evt, key) != 0 && h2.event_Value_Type[get_at(h2, evt, key)] == 1 && elems(h2, get_at(h2, evt, key)) =~= prior(h, evt, key) + added(h, item)
  ensures @C24 [nothing else changes] item != 0 && err is Nil && evtree(h, evt) ==> only_field_changed(h, h2, evt, kpath(key))
  ensures @C24 [on error the event is unchanged] !(err is Nil) ==> same_fields(h, h2, evt) && same_arrays(h, h2)
  loop items(idx i, var targetValue *pkg/event.Value, var items []*pkg/event.Value)
    invariant 0 <= i <= items.l
    invariant items.r < hl.alloc && (items == h0.event_Value_Array[item] || items.r >= h0.alloc && items.r != hl.event_Value_Array[targetValue].r)
    invariant targetValue != 0 && targetValue < h.alloc && h.event_Value_Type[targetValue] == 1
    invariant elems(h, targetValue) =~= prior(h0, evt, key) + added(h0, item).take(i) || kpath(key).len() == 0
    invariant slseq(h.A_p_event_Value, items) =~= added(h0, item)
    invariant h.event_Value_Array[targetValue].r >= hl.alloc || same_room(hl.event_Value_Array[targetValue], h.event_Value_Array[targetValue], i)
    invariant targetValue >= h0.alloc || (targetValue == get_at(h0, evt, key) && h0.event_Value_Type[targetValue] == 1 && kpath(key).len() > 0)
    invariant h.event_Value_Array[targetValue].r >= h0.alloc || h.event_Value_Array[targetValue].r == 0 || (targetValue == get_at(h0, evt, key) && same_room(h0.event_Value_Array[targetValue], h.event_Value_Array[targetValue], i))
    invariant forall|x: int| 0 <= x < h0.alloc && x != targetValue ==> #[trigger] h.event_Value_Array[x] == h0.event_Value_Array[x]
    invariant forall|r: int| 0 <= r < h0.alloc && (r != h0.event_Value_Array[targetValue].r || targetValue >= h0.alloc) ==> #[trigger] h.A_p_event_Value[r] == h0.A_p_event_Value[r]
    invariant targetValue < h0.alloc ==> only_room(h0, h, h0.event_Value_Array[targetValue])
  hint lift(h, Put_h, h2, evt, key); readable(h, evt, key);

# The processors are built with the configuration they are given.

func pkg/processor/append.New(config) (r, err)
  ensures @C15 [the processor keeps its configuration] err is Nil && r >= h.alloc && h2.append_Config_AllowDuplicates[r + offset_of("append_Append.config")] == config.AllowDuplicates && h2.append_Config_Field[r + offset_of("append_Append.config")] == config.Field && h2.append_Config_IgnoreMissing[r + offset_of("append_Append.config")] == config.IgnoreMissing && h2.append_Config_Value[r + offset_of("append_Append.config")] == config.Value
func (*pkg/processor/append.Append).Config(p) (r)
  requires p != 0
  ensures @C15 [the configuration is that of the processor] r.AllowDuplicates == h.append_Config_AllowDuplicates[p + offset_of("append_Append.config")] && r.Field == h.append_Config_Field[p + offset_of("append_Append.config")] && r.IgnoreMissing == h.append_Config_IgnoreMissing[p + offset_of("append_Append.config")] && r.Value == h.append_Config_Value[p + offset_of("append_Append.config")]
func (*pkg/processor/append.Config).InitDefaults(c) ()
  modifies append_Config_AllowDuplicates append_Config_IgnoreMissing
  requires c != 0
  ensures @C15 [the defaults are the documented ones] !h2.append_Config_AllowDuplicates[c] && !h2.append_Config_IgnoreMissing[c]

func pkg/processor/lowercase.New(config) (r, err)
  ensures @C16 [the processor keeps its configuration] err is Nil && r >= h.alloc && h2.lowercase_Config_Field[r + offset_of("lowercase_Lowercase.config")] == config.Field && h2.lowercase_Config_IgnoreMissing[r + offset_of("lowercase_Lowercase.config")] == config.IgnoreMissing && h2.lowercase_Config_TargetField[r + offset_of("lowercase_Lowercase.config")] == config.TargetField
func (*pkg/processor/lowercase.Lowercase).Config(p) (r)
  requires p != 0
  ensures @C16 [the configuration is that of the processor] r.Field == h.lowercase_Config_Field[p + offset_of("lowercase_Lowercase.config")] && r.IgnoreMissing == h.lowercase_Config_IgnoreMissing[p + offset_of("lowercase_Lowercase.config")] && r.TargetField == h.lowercase_Config_TargetField[p + offset_of("lowercase_Lowercase.config")]
func (*pkg/processor/lowercase.Config).InitDefaults(c) ()
  modifies lowercase_Config_IgnoreMissing
  requires c != 0
  ensures @C16 [the defaults are the documented ones] !h2.lowercase_Config_IgnoreMissing[c]

func pkg/processor/uppercase.New(config) (r, err)
  ensures @C16 [the processor keeps its configuration] err is Nil && r >= h.alloc && h2.uppercase_Config_Field[r + offset_of("uppercase_Uppercase.config")] == config.Field && h2.uppercase_Config_IgnoreMissing[r + offset_of("uppercase_Uppercase.config")] == config.IgnoreMissing && h2.uppercase_Config_TargetField[r + offset_of("uppercase_Uppercase.config")] == config.TargetField
func (*pkg/processor/uppercase.Uppercase).Config(p) (r)
  requires p != 0
  ensures @C16 [the configuration is that of the processor] r.Field == h.uppercase_Config_Field[p + offset_of("uppercase_Uppercase.config")] && r.IgnoreMissing == h.uppercase_Config_IgnoreMissing[p + offset_of("uppercase_Uppercase.config")] && r.TargetField == h.uppercase_Config_TargetField[p + offset_of("uppercase_Uppercase.config")]
func (*pkg/processor/uppercase.Config).InitDefaults(c) ()
  modifies uppercase_Config_IgnoreMissing
  requires c != 0
  ensures @C16 [the defaults are the documented ones] !h2.uppercase_Config_IgnoreMissing[c]

func pkg/processor/remove.New(config) (r, err)
  ensures @C17 [the processor keeps its configuration] err is Nil && r >= h.alloc && h2.remove_Config_Fields[r + offset_of("remove_Remove.config")] == config.Fields && h2.remove_Config_IgnoreMissing[r + offset_of("remove_Remove.config")] == config.IgnoreMissing
func (*pkg/processor/remove.Remove).Config(p) (r)
  requires p != 0
  ensures @C17 [the configuration is that of the processor] r.Fields == h.remove_Config_Fields[p + offset_of("remove_Remove.config")] && r.IgnoreMissing == h.remove_Config_IgnoreMissing[p + offset_of("remove_Remove.config")]
func (*pkg/processor/remove.Config).InitDefaults(c) ()
  modifies remove_Config_IgnoreMissing
  requires c != 0
  ensures @C17 [the defaults are the documented ones] !h2.remove_Config_IgnoreMissing[c]
