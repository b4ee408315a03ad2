import event

func pkg/event.keyToPath(key) (paths)
  props @C06
  ensures [the path is the key split at unescaped dots] slseq(h2.A_string, paths) =~= kpath(key)
  ensures [the path is a fresh slice] paths.r == 0 || paths.r >= h.alloc
  loop scan(idx i, var paths []string, var pathScratch []byte, var escape bool)
    invariant 0 <= i <= key.len()
    invariant slseq(h.A_uint8, pathScratch) =~= kseg(key, i).1
    invariant slseq(h.A_string, paths) =~= kseg(key, i).0
    invariant escape == (i > 0 && key[i - 1] == bs())
    invariant (paths.r == 0 || paths.r >= h0.alloc) && forall|r: int| 0 <= r < h0.alloc ==> #[trigger] h.A_string[r] == h0.A_string[r]
    invariant (pathScratch.r == 0 || pathScratch.r >= hl.alloc) && forall|r: int| 0 <= r < hl.alloc ==> #[trigger] h.A_uint8[r] == hl.A_uint8[r]

func (*pkg/event.Event).get(e, path) (v)
  requires e != 0
  ensures [get of the empty path returns the root object] path.l == 0 ==> root_object(h, h2, e, v)
  ensures [get of a non-empty path only reads] path.l > 0 ==> h2 == h
  ensures [get returns the value at the path] path.l > 0 ==> v == lookup(h.event_Value_Object, h.M_string_p_event_Value, h.event_Event_fields[e], slseq(h.A_string, path), path.l)
  loop descend(idx i, var m map[string]*pkg/event.Value)
    invariant m != 0 && 0 <= i < path.l
    invariant m == walk(h0.event_Value_Object, h0.M_string_p_event_Value, h0.event_Event_fields[e], slseq(h0.A_string, path), i)
  loop reslice(pvar rest []string, var m map[string]*pkg/event.Value)
    invariant m != 0 && 1 <= rest.l <= path.l && rest.r == path.r && rest.o + rest.l == path.o + path.l
    invariant m == walk(h0.event_Value_Object, h0.M_string_p_event_Value, h0.event_Event_fields[e], slseq(h0.A_string, path), path.l - rest.l)
  hint lemma_dead_all(h.event_Value_Object, h.M_string_p_event_Value, h.event_Event_fields[e], slseq(h.A_string, path), path.l); assert(walk(h.event_Value_Object, h.M_string_p_event_Value, h.event_Event_fields[e], slseq(h.A_string, path), 0) == h.event_Event_fields[e]);

rust
pub open spec fn root_object(h: H, h2: H, e: int, v: int) -> bool {
    if h.M_string_p_event_Value[h.event_Event_fields[e]] =~= Map::<Str, int>::empty() { v == 0 }
    else { v >= h.alloc && h2.event_Value_Type[v] == 5 && h2.event_Value_Object[v] == h.event_Event_fields[e] }
}
end rust

func pkg/event.pathString(path) (s)
  loop render(idx i)

extern (*strings.Builder).WriteByte(b, c) (err)
  noalloc
extern (*strings.Builder).WriteString(b, s) (n, err)
  noalloc
extern (*strings.Builder).String(b) (s)
  noalloc

rust
// the value at q[0..l] of event e
pub open spec fn look(h: H, e: int, q: Seq<Str>, l: int) -> int {
    lookup(h.event_Value_Object, h.M_string_p_event_Value, h.event_Event_fields[e], q, l)
}
pub open spec fn objat(h: H, e: int, q: Seq<Str>, l: int) -> int {
    walk(h.event_Value_Object, h.M_string_p_event_Value, h.event_Event_fields[e], q, l)
}
pub open spec fn evtree(h: H, e: int) -> bool {
    tree(h.event_Value_Object, h.M_string_p_event_Value, h.event_Event_fields[e])
}
// something on the way to p is not an object
pub open spec fn blocked(h: H, e: int, p: Seq<Str>) -> bool {
    exists|j: int| 1 <= j < p.len() && #[trigger] lookup(h.event_Value_Object, h.M_string_p_event_Value, h.event_Event_fields[e], p, j) != 0 && h.event_Value_Type[look(h, e, p, j)] != 5
}
pub open spec fn same_fields(h: H, h2: H, e: int) -> bool {
    forall|q: Seq<Str>, l: int| 1 <= l <= q.len() ==> #[trigger] lookup(h2.event_Value_Object, h2.M_string_p_event_Value, h2.event_Event_fields[e], q, l) == look(h, e, q, l)
}
// every field not at or below p reads back as before; missing parents of p
// (or parents without an object map) are new objects
pub open spec fn only_field_changed(h: H, h2: H, e: int, p: Seq<Str>) -> bool {
    forall|q: Seq<Str>, l: int| 1 <= l <= q.len() && !under(p, p.len() as int, q, l) ==>
        ((#[trigger] lookup(h2.event_Value_Object, h2.M_string_p_event_Value, h2.event_Event_fields[e], q, l)) == look(h, e, q, l)) || (l < p.len() && same_prefix(p, q, l) && objat(h, e, q, l) == 0
            && look(h2, e, q, l) >= h.alloc && h2.event_Value_Type[look(h2, e, q, l)] == 5 && objat(h2, e, q, l) != 0)
}
// the object m is not one of those on the way to p
pub open spec fn offpath(h: H, e: int, p: Seq<Str>, n: int, m: int) -> bool {
    forall|l: int| 0 <= l < n ==> #[trigger] walk(h.event_Value_Object, h.M_string_p_event_Value, h.event_Event_fields[e], p, l) != m
}
end rust

rust
pub open spec fn root_kept(h: H, h2: H, e: int) -> bool { h2.event_Event_fields[e] == h.event_Event_fields[e] || h.event_Event_fields[e] == 0 && h2.event_Event_fields[e] >= h.alloc }
// Exactly the root field k of e is set to val.
pub open spec fn sets_root(h: H, h2: H, e: int, k: Str, val: int) -> bool {
    let (f, f2) = (h.event_Event_fields[e], h2.event_Event_fields[e]);
    &&& f2 != 0 && (f2 == f || f == 0 && f2 >= h.alloc)
    &&& h2.M_string_p_event_Value[f2] =~= h.M_string_p_event_Value[f].insert(k, val)
    &&& forall|m: int| 0 <= m < h.alloc && m != f2 ==> #[trigger] h2.M_string_p_event_Value[m] == h.M_string_p_event_Value[m]
}
end rust

func (*pkg/event.Event).put(e, path, val, overwrite) (old, err)
  modifies event_Event_fields M_string_p_event_Value
  requires e != 0
  ensures @C01,C03,C05 [an empty path is rejected] path.l == 0 ==> old == 0 && err_is(err, glob_event_ErrEmptyKey())
  ensures @C01 [a nil value is not stored] path.l > 0 && val == 0 ==> old == 0 && err is Nil
  ensures @C03 [TryPut returns the existing value and ErrKeyExists] path.l > 0 && val != 0 && !overwrite && look(h, e, slseq(h.A_string, path), path.l) != 0
    ==> old == look(h, e, slseq(h.A_string, path), path.l) && err_is(err, glob_event_ErrKeyExists())
  ensures @C01,C03 [a blocked path is rejected] path.l > 0 && val != 0 && (overwrite || look(h, e, slseq(h.A_string, path), path.l) == 0) && blocked(h, e, slseq(h.A_string, path))
    ==> err_is(err, glob_event_ErrTargetKeyNotObject())
  ensures @C01,C03 [otherwise put succeeds and returns the previous value] path.l > 0 && val != 0 && (overwrite || look(h, e, slseq(h.A_string, path), path.l) == 0) && !blocked(h, e, slseq(h.A_string, path))
    ==> err is Nil && old == look(h, e, slseq(h.A_string, path), path.l)
  ensures @C01,C03 [the value is read back] path.l > 0 && val != 0 && err is Nil && evtree(h, e)
    ==> look(h2, e, slseq(h.A_string, path), path.l) == val
  ensures @C02,C03 [only the addressed field changes] path.l > 0 && val != 0 && err is Nil && evtree(h, e)
    ==> only_field_changed(h, h2, e, slseq(h.A_string, path))
  ensures @C01,C02,C03 [nothing changes on error] !(err is Nil) || val == 0 ==> same_fields(h, h2, e)
  ensures @C02,C18,C19 [other events are not touched] forall|x: int| 0 <= x < h.alloc && x != e ==> #[trigger] h2.event_Event_fields[x] == h.event_Event_fields[x]
  ensures @C23 [a value that is no object leaves a tree] path.l > 0 && val != 0 && err is Nil && evtree(h, e) && h.event_Value_Object[val] == 0 ==> evtree(h2, e)
  ensures @C02,C14 [objects off the path are untouched] forall|m: int| 0 <= m < h.alloc && offpath(h, e, slseq(h.A_string, path), path.l, m) ==> #[trigger] h2.M_string_p_event_Value[m] == h.M_string_p_event_Value[m]
  ensures @C18,C19 [the root map stays the same or is new] root_kept(h, h2, e)
  ensures @C18,C19 [a one-segment path sets a root field] path.l == 1 && val != 0 ==> (err is Nil ==> sets_root(h, h2, e, slseq(h.A_string, path)[0], val)) && (overwrite ==> err is Nil)
  loop descend(idx i, var m map[string]*pkg/event.Value)
    invariant @C18,C19 root_kept(h0, h, e) && forall|x: int| 0 <= x < h0.alloc && x != h.event_Event_fields[e] && path.l == 1 ==> #[trigger] h.M_string_p_event_Value[x] == h0.M_string_p_event_Value[x]
    invariant @C18,C19 i == 0 ==> m == h.event_Event_fields[e]
    invariant @C02,C14 forall|x: int| 0 <= x < h0.alloc && offpath(h0, e, slseq(h0.A_string, path), i, x) ==> #[trigger] h.M_string_p_event_Value[x] == h0.M_string_p_event_Value[x]
    invariant 0 <= i < path.l && m != 0 && val != 0 && (overwrite || look(h0, e, slseq(h0.A_string, path), path.l) == 0)
    invariant h.event_Event_fields[e] != 0 && forall|r: int| 0 <= r < h0.alloc && r != e ==> #[trigger] h.event_Event_fields[r] == h0.event_Event_fields[r]
    invariant h0.event_Event_fields[e] == 0 || h.event_Event_fields[e] == h0.event_Event_fields[e]
    invariant evtree(h0, e) ==> m == objat(h, e, slseq(h0.A_string, path), i)
    invariant evtree(h0, e) ==> evtree(h, e)
    invariant (h.M_string_p_event_Value == h0.M_string_p_event_Value && h.event_Value_Object == h0.event_Value_Object && h.alloc == h0.alloc && h.event_Event_fields == h0.event_Event_fields && m == objat(h, e, slseq(h0.A_string, path), i))
      || (h.M_string_p_event_Value[m] =~= Map::<Str, int>::empty() && m >= h0.alloc && objat(h0, e, slseq(h0.A_string, path), i) == 0)
    invariant forall|j: int| 1 <= j <= i ==> #[trigger] look(h0, e, slseq(h0.A_string, path), j) == 0 || h0.event_Value_Type[look(h0, e, slseq(h0.A_string, path), j)] == 5
    invariant @C02,C03 evtree(h0, e) ==> forall|q: Seq<Str>, l: int| 1 <= l <= q.len() && !under(slseq(h0.A_string, path), path.l, q, l) ==>
        ((#[trigger] lookup(h.event_Value_Object, h.M_string_p_event_Value, h.event_Event_fields[e], q, l)) == look(h0, e, q, l)) || (l <= i && same_prefix(slseq(h0.A_string, path), q, l) && objat(h0, e, q, l) == 0
            && look(h, e, q, l) >= h0.alloc && h.event_Value_Type[look(h, e, q, l)] == 5 && objat(h, e, q, l) != 0)
    hint loop: put_start(h0, e); put_start(h, e); if !established { put_step(h_p, h, e, slseq(h0.A_string, path), i_p, m_p, m); if objat(h0, e, slseq(h0.A_string, path), i) == 0 { lemma_dead_below(h0.event_Value_Object, h0.M_string_p_event_Value, h0.event_Event_fields[e], slseq(h0.A_string, path), i); } }
  hint put_start(h, e); put_start(h2, e); put_start(hl_descend, e); assert(look(h, e, slseq(h.A_string, path), descend_i + 1) == lookup(h.event_Value_Object, h.M_string_p_event_Value, h.event_Event_fields[e], slseq(h.A_string, path), descend_i + 1)); put_end(h_descend, h2, e, slseq(h.A_string, path), descend_m, val);
  hint @C23 put_leaf(h_descend, h2, e, slseq(h.A_string, path), descend_m, val);
rust
proof fn put_start(h: H, e: int)
    ensures
        h.event_Event_fields[e] == 0 || h.M_string_p_event_Value[h.event_Event_fields[e]] =~= Map::<Str, int>::empty() ==> {
            &&& forall|q: Seq<Str>, l: int| l >= 1 ==> #[trigger] walk(h.event_Value_Object, h.M_string_p_event_Value, h.event_Event_fields[e], q, l) == 0
            &&& forall|q: Seq<Str>, l: int| l >= 1 ==> #[trigger] lookup(h.event_Value_Object, h.M_string_p_event_Value, h.event_Event_fields[e], q, l) == 0
            &&& evtree(h, e)
        }
{
    if h.event_Event_fields[e] == 0 || h.M_string_p_event_Value[h.event_Event_fields[e]] =~= Map::<Str, int>::empty() {
        lemma_empty_root(h.event_Value_Object, h.M_string_p_event_Value, h.event_Event_fields[e]);
    }
}
proof fn wf_closed(h: H)
    requires wf(h)
    ensures closed(h.event_Value_Object, h.M_string_p_event_Value, h.alloc)
{}
pub open spec fn put_step_pre(hp: H, h: H, e: int, p: Seq<Str>, i: int, mp: int, m: int) -> bool {
    wf(hp) && mp == objat(hp, e, p, i) && mp != 0 && 0 <= i < p.len() && hp.event_Event_fields[e] != 0 && h.event_Event_fields[e] == hp.event_Event_fields[e]
            && upd_at(hp.event_Value_Object, hp.M_string_p_event_Value, h.event_Value_Object, h.M_string_p_event_Value, hp.alloc, mp, p[i])
            && mget(h.M_string_p_event_Value, mp, p[i]) >= hp.alloc && m >= hp.alloc
            && h.event_Value_Object[mget(h.M_string_p_event_Value, mp, p[i])] == m && h.M_string_p_event_Value[m] =~= Map::<Str, int>::empty()
}
proof fn put_step(hp: H, h: H, e: int, p: Seq<Str>, i: int, mp: int, m: int)
    ensures put_step_pre(hp, h, e, p, i, mp, m) && evtree(hp, e) ==> {
        &&& evtree(h, e)
        &&& objat(h, e, p, i + 1) == m
        &&& forall|q: Seq<Str>, l: int| 0 <= l <= q.len() && !under(p, i + 1, q, l) ==> #[trigger] walk(h.event_Value_Object, h.M_string_p_event_Value, h.event_Event_fields[e], q, l) == objat(hp, e, q, l)
        &&& forall|q: Seq<Str>, l: int| 1 <= l <= q.len() && !under(p, i + 1, q, l) ==> #[trigger] lookup(h.event_Value_Object, h.M_string_p_event_Value, h.event_Event_fields[e], q, l) == look(hp, e, q, l)
        &&& forall|q: Seq<Str>, l: int| i + 1 <= l <= q.len() && same_prefix(p, q, i + 1) ==> #[trigger] walk(h.event_Value_Object, h.M_string_p_event_Value, h.event_Event_fields[e], q, l) == (if l == i + 1 { m } else { 0 })
        &&& forall|q: Seq<Str>, l: int| i + 1 < l <= q.len() && same_prefix(p, q, i + 1) ==> #[trigger] lookup(h.event_Value_Object, h.M_string_p_event_Value, h.event_Event_fields[e], q, l) == 0
        &&& forall|q: Seq<Str>| i < q.len() && same_prefix(p, q, i + 1) ==> #[trigger] lookup(h.event_Value_Object, h.M_string_p_event_Value, h.event_Event_fields[e], q, i + 1) == mget(h.M_string_p_event_Value, mp, p[i])
    }
{
        if put_step_pre(hp, h, e, p, i, mp, m) {
            lemma_create(hp.event_Value_Object, hp.M_string_p_event_Value, h.event_Value_Object, h.M_string_p_event_Value, hp.alloc,
                hp.event_Event_fields[e], p, i, mget(h.M_string_p_event_Value, mp, p[i]), m);
        }
}
proof fn put_end(h: H, h2: H, e: int, p: Seq<Str>, m: int, val: int)
    ensures evtree(h, e) && put_end_pre(h, h2, e, p, m, val) ==> {
        &&& look(h2, e, p, p.len() as int) == val
        &&& forall|q: Seq<Str>, l: int| 0 <= l <= q.len() && !under(p, p.len() as int, q, l) ==> #[trigger] walk(h2.event_Value_Object, h2.M_string_p_event_Value, h2.event_Event_fields[e], q, l) == objat(h, e, q, l)
        &&& forall|q: Seq<Str>, l: int| 1 <= l <= q.len() && !under(p, p.len() as int, q, l) ==> #[trigger] lookup(h2.event_Value_Object, h2.M_string_p_event_Value, h2.event_Event_fields[e], q, l) == look(h, e, q, l)
    }
{
    if put_end_pre(h, h2, e, p, m, val) {
        lemma_put(h.event_Value_Object, h.M_string_p_event_Value, h2.event_Value_Object, h2.M_string_p_event_Value, h.alloc,
            h.event_Event_fields[e], p, p.len() as int, val);
    }
}
proof fn put_leaf(h: H, h2: H, e: int, p: Seq<Str>, m: int, val: int)
    ensures evtree(h, e) && put_end_pre(h, h2, e, p, m, val) && h2.event_Value_Object[val] == 0 ==> evtree(h2, e)
{
    if evtree(h, e) && put_end_pre(h, h2, e, p, m, val) && h2.event_Value_Object[val] == 0 {
        lemma_leaf(h.event_Value_Object, h.M_string_p_event_Value, h2.event_Value_Object, h2.M_string_p_event_Value, h.alloc, h.event_Event_fields[e], p, p.len() as int, val);
    }
}
pub open spec fn put_end_pre(h: H, h2: H, e: int, p: Seq<Str>, m: int, val: int) -> bool {
    &&& wf(h) && m == objat(h, e, p, p.len() - 1) && m != 0 && p.len() >= 1
    &&& h.event_Event_fields[e] != 0 && h2.event_Event_fields[e] == h.event_Event_fields[e]
    &&& upd_at(h.event_Value_Object, h.M_string_p_event_Value, h2.event_Value_Object, h2.M_string_p_event_Value, h.alloc, m, p[p.len() - 1])
    &&& mget(h2.M_string_p_event_Value, m, p[p.len() - 1]) == val
}
end rust

func (*pkg/event.Event).delete(e, path) (v)
  modifies M_string_p_event_Value
  requires e != 0
  ensures @C04 [delete returns what was at the path] v == (if path.l > 0 { look(h, e, slseq(h.A_string, path), path.l) } else { 0 })
  ensures @C04 [deleting nothing changes nothing] v == 0 ==> same_fields(h, h2, e)
  ensures @C04 [the field is gone] v != 0 && evtree(h, e) ==> look(h2, e, slseq(h.A_string, path), path.l) == 0
  ensures @C04 [every other field reads back as before] v != 0 && evtree(h, e) ==> only_field_removed(h, h2, e, slseq(h.A_string, path))
  loop descend(idx i, var m map[string]*pkg/event.Value)
    invariant 0 <= i < path.l && m != 0
    invariant m == objat(h0, e, slseq(h0.A_string, path), i) && look(h0, e, slseq(h0.A_string, path), path.l) != 0
    invariant i + 1 < path.l ==> objat(h0, e, slseq(h0.A_string, path), i + 1) != 0
    hint loop: lemma_alive(h0.event_Value_Object, h0.M_string_p_event_Value, h0.event_Event_fields[e], slseq(h0.A_string, path), i, path.l - 1);
      if i + 1 < path.l { lemma_alive(h0.event_Value_Object, h0.M_string_p_event_Value, h0.event_Event_fields[e], slseq(h0.A_string, path), i + 1, path.l - 1); }
  hint put_start(h, e); put_end(h, h2, e, slseq(h.A_string, path), descend_m, 0);

rust
// every field not at or below p reads back as before
pub open spec fn only_field_removed(h: H, h2: H, e: int, p: Seq<Str>) -> bool {
    forall|q: Seq<Str>, l: int| 1 <= l <= q.len() && !under(p, p.len() as int, q, l) ==> #[trigger] lookup(h2.event_Value_Object, h2.M_string_p_event_Value, h2.event_Event_fields[e], q, l) == look(h, e, q, l)
}
end rust

func (*pkg/event.Event).Put(e, key, val) (old, err)
  props @C07
  modifies event_Event_fields M_string_p_event_Value
  requires e != 0
  ensures @C01,C05 [an empty key is rejected] kpath(key).len() == 0 ==> old == 0 && err_is(err, glob_event_ErrEmptyKey())
  ensures @C01 [a nil value is not stored] kpath(key).len() > 0 && val == 0 ==> old == 0 && err is Nil
  ensures @C01 [a blocked path is rejected] kpath(key).len() > 0 && val != 0 && blocked(h, e, kpath(key)) ==> err_is(err, glob_event_ErrTargetKeyNotObject())
  ensures @C01 [otherwise Put succeeds and returns what Get returned] kpath(key).len() > 0 && val != 0 && !blocked(h, e, kpath(key)) ==> err is Nil && old == get_at(h, e, key)
  ensures @C01 [the value is read back] kpath(key).len() > 0 && val != 0 && err is Nil && evtree(h, e) ==> get_at(h2, e, key) == val
  ensures @C02 [only the addressed field changes] err is Nil && val != 0 && evtree(h, e) ==> only_field_changed(h, h2, e, kpath(key))
  ensures @C02 [nothing changes on error] !(err is Nil) || val == 0 ==> same_fields(h, h2, e)
  ensures @C02,C18,C19 [other events are not touched] forall|x: int| 0 <= x < h.alloc && x != e ==> #[trigger] h2.event_Event_fields[x] == h.event_Event_fields[x]
  ensures @C23 [a value that is no object leaves a tree] val != 0 && err is Nil && evtree(h, e) && h.event_Value_Object[val] == 0 ==> evtree(h2, e)
  ensures @C02,C14 [objects off the path are untouched] forall|m: int| 0 <= m < h.alloc && offpath(h, e, kpath(key), kpath(key).len() as int, m) ==> #[trigger] h2.M_string_p_event_Value[m] == h.M_string_p_event_Value[m]
  ensures @C18,C19 [the root map stays the same or is new] root_kept(h, h2, e)
  ensures @C18,C19 [a one-segment key sets a root field] kpath(key).len() == 1 && val != 0 ==> err is Nil && sets_root(h, h2, e, kpath(key)[0], val)

func (*pkg/event.Event).TryPut(e, key, val) (old, err)
  props @C07
  modifies event_Event_fields M_string_p_event_Value
  requires e != 0
  ensures @C03,C05 [an empty key is rejected] kpath(key).len() == 0 ==> old == 0 && err_is(err, glob_event_ErrEmptyKey())
  ensures @C03 [an empty key changes nothing] kpath(key).len() == 0 ==> same_fields(h, h2, e)
  ensures @C03 [an existing value is returned and kept] kpath(key).len() > 0 && val != 0 && get_at(h, e, key) != 0
    ==> old == get_at(h, e, key) && err_is(err, glob_event_ErrKeyExists()) && same_fields(h, h2, e)
  ensures @C03 [a blocked path is rejected] kpath(key).len() > 0 && val != 0 && get_at(h, e, key) == 0 && blocked(h, e, kpath(key))
    ==> err_is(err, glob_event_ErrTargetKeyNotObject()) && same_fields(h, h2, e)
  ensures @C03 [otherwise TryPut behaves like Put] kpath(key).len() > 0 && val != 0 && get_at(h, e, key) == 0 && !blocked(h, e, kpath(key))
    ==> err is Nil && old == 0 && (evtree(h, e) ==> get_at(h2, e, key) == val)
  ensures @C02,C03 [only the addressed field changes] err is Nil && val != 0 && evtree(h, e) ==> only_field_changed(h, h2, e, kpath(key))
  ensures @C02 [nothing changes on error] !(err is Nil) || val == 0 ==> same_fields(h, h2, e)

rust
pub open spec fn get_at(h: H, e: int, key: Str) -> int { look(h, e, kpath(key), kpath(key).len() as int) }
end rust

func (*pkg/event.Event).Get(e, key) (v)
  props @C07
  requires e != 0
  ensures @C05 [a key without segments returns the root object] kpath(key).len() == 0 ==> root_object(h, h2, e, v)
  ensures [Get returns the value at the key's path] kpath(key).len() > 0 ==> v == get_at(h, e, key)
  ensures @C05,C18,C19,C21 [the root has no segments] key =~= "." ==> kpath(key).len() == 0
  ensures @C14,C15,C16,C24 [Get changes no field] same_fields(h, h2, e)
  ensures @C14,C15,C16,C24 [Get changes no field] evtree(h, e) ==> evtree(h2, e)
  hint lemma_root_key(key); lemma_ext(h.event_Value_Object, h.M_string_p_event_Value, h2.event_Value_Object, h2.M_string_p_event_Value, h.alloc, h.event_Event_fields[e]);

func (*pkg/event.Event).Delete(e, key) (v)
  props @C07
  modifies M_string_p_event_Value
  requires e != 0
  ensures @C04 [Delete returns what Get would have returned] kpath(key).len() > 0 ==> v == get_at(h, e, key)
  ensures @C04 [a key without segments deletes nothing] kpath(key).len() == 0 ==> v == 0
  ensures @C04 [deleting nothing changes nothing] v == 0 ==> same_fields(h, h2, e)
  ensures @C04 [the field is gone] v != 0 && evtree(h, e) ==> get_at(h2, e, key) == 0
  ensures @C04 [every other field reads back as before] v != 0 && evtree(h, e) ==> only_field_removed(h, h2, e, kpath(key))
