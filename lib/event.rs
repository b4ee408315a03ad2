// Paths, lookups and keys of events.
//
// vo is the Object field of every value, mm the contents of every
// map[string]*Value, root the map holding an event's root fields.

pub type MM = Map<int, Map<Str, int>>;
pub type VO = Map<int, int>;

pub open spec fn child(vo: VO, mm: MM, m: int, k: Str) -> int {
    if m == 0 { 0 } else { let v = mget(mm, m, k); if v == 0 { 0 } else { vo[v] } }
}

// The object map reached from root after n segments of p; 0 if there is none.
pub open spec fn walk(vo: VO, mm: MM, root: int, p: Seq<Str>, n: int) -> int
    decreases n
{
    if n <= 0 { root } else { child(vo, mm, walk(vo, mm, root, p, n - 1), p[n - 1]) }
}

// The value at the path p[0..n]; 0 if there is none.
pub open spec fn lookup(vo: VO, mm: MM, root: int, p: Seq<Str>, n: int) -> int {
    let m = walk(vo, mm, root, p, n - 1);
    if m == 0 { 0 } else { mget(mm, m, p[n - 1]) }
}

pub open spec fn same_prefix(p: Seq<Str>, q: Seq<Str>, n: int) -> bool {
    forall|j: int| #![trigger p[j]] #![trigger q[j]] 0 <= j < n ==> p[j] == q[j]
}

// q[0..l] addresses p[0..n] or something below it
pub open spec fn under(p: Seq<Str>, n: int, q: Seq<Str>, l: int) -> bool {
    l >= n && same_prefix(p, q, n)
}

pub open spec fn closed(vo: VO, mm: MM, al: int) -> bool {
    &&& forall|r: int, k: Str| 0 <= #[trigger] mget(mm, r, k) < al
    &&& forall|v: int| 0 <= v < al ==> 0 <= #[trigger] vo[v] < al
    &&& al > 0
}

// No object is reachable from root along two different paths.
pub open spec fn tree(vo: VO, mm: MM, root: int) -> bool {
    forall|p: Seq<Str>, n: int, q: Seq<Str>, l: int|
        0 <= n <= p.len() && 0 <= l <= q.len() && #[trigger] walk(vo, mm, root, p, n) != 0
        && walk(vo, mm, root, p, n) == #[trigger] walk(vo, mm, root, q, l)
        ==> n == l && same_prefix(p, q, n)
}

// The existing objects are unchanged except for key k of map m.
pub open spec fn upd_at(vo: VO, mm: MM, vo2: VO, mm2: MM, al: int, m: int, k: Str) -> bool {
    &&& forall|v: int| 0 <= v < al ==> #[trigger] vo2[v] == vo[v]
    &&& forall|r: int, kk: Str| 0 <= r < al && (r != m || kk != k) ==> #[trigger] mget(mm2, r, kk) == mget(mm, r, kk)
}

// p[0..i] is the only path to m
pub open spec fn only_path(vo: VO, mm: MM, root: int, p: Seq<Str>, i: int, m: int) -> bool {
    forall|q: Seq<Str>, l: int| 0 <= l <= q.len() && #[trigger] walk(vo, mm, root, q, l) == m ==> l == i && same_prefix(p, q, i)
}

pub proof fn lemma_walk_bound(vo: VO, mm: MM, al: int, root: int, q: Seq<Str>, l: int)
    requires closed(vo, mm, al), 0 <= root < al
    ensures 0 <= walk(vo, mm, root, q, l) < al
    decreases l
{
    if l > 0 { lemma_walk_bound(vo, mm, al, root, q, l - 1); }
}

pub proof fn lemma_walk_upd1(vo: VO, mm: MM, vo2: VO, mm2: MM, al: int, root: int, p: Seq<Str>, i: int, q: Seq<Str>, l: int)
    requires
        closed(vo, mm, al), 0 <= root < al, 0 <= i < p.len(), 0 <= l <= q.len(),
        upd_at(vo, mm, vo2, mm2, al, walk(vo, mm, root, p, i), p[i]),
        only_path(vo, mm, root, p, i, walk(vo, mm, root, p, i)),
        !under(p, i + 1, q, l),
    ensures
        walk(vo2, mm2, root, q, l) == walk(vo, mm, root, q, l),
    decreases l
{
    if l > 0 {
        lemma_walk_upd1(vo, mm, vo2, mm2, al, root, p, i, q, l - 1);
        lemma_walk_bound(vo, mm, al, root, q, l - 1);
        let w = walk(vo, mm, root, q, l - 1);
        if w != 0 {
            if w == walk(vo, mm, root, p, i) && q[l - 1] == p[i] {
                assert(under(p, i + 1, q, l));
            }
            assert(mget(mm2, w, q[l - 1]) == mget(mm, w, q[l - 1]));
        }
    }
}

// Updating the map at the end of a path changes nothing outside that path.
pub proof fn lemma_upd(vo: VO, mm: MM, vo2: VO, mm2: MM, al: int, root: int, p: Seq<Str>, i: int)
    requires
        closed(vo, mm, al), 0 <= root < al, 0 <= i < p.len(),
        upd_at(vo, mm, vo2, mm2, al, walk(vo, mm, root, p, i), p[i]),
        only_path(vo, mm, root, p, i, walk(vo, mm, root, p, i)),
    ensures
        forall|q: Seq<Str>, l: int| 0 <= l <= q.len() && !under(p, i + 1, q, l) ==> #[trigger] walk(vo2, mm2, root, q, l) == walk(vo, mm, root, q, l),
        forall|q: Seq<Str>, l: int| 1 <= l <= q.len() && !under(p, i + 1, q, l) ==> #[trigger] lookup(vo2, mm2, root, q, l) == lookup(vo, mm, root, q, l),
{
    assert forall|q: Seq<Str>, l: int| 0 <= l <= q.len() && !under(p, i + 1, q, l) implies #[trigger] walk(vo2, mm2, root, q, l) == walk(vo, mm, root, q, l) by {
        lemma_walk_upd1(vo, mm, vo2, mm2, al, root, p, i, q, l);
    }
    assert forall|q: Seq<Str>, l: int| 1 <= l <= q.len() && !under(p, i + 1, q, l) implies #[trigger] lookup(vo2, mm2, root, q, l) == lookup(vo, mm, root, q, l) by {
        lemma_walk_upd1(vo, mm, vo2, mm2, al, root, p, i, q, l - 1);
        lemma_walk_bound(vo, mm, al, root, q, l - 1);
        let w = walk(vo, mm, root, q, l - 1);
        if w != 0 {
            if w == walk(vo, mm, root, p, i) && q[l - 1] == p[i] {
                assert(under(p, i + 1, q, l));
            }
            assert(mget(mm2, w, q[l - 1]) == mget(mm, w, q[l - 1]));
        }
    }
}

// Once the walk has ended nothing is found any further.
pub proof fn lemma_dead(vo: VO, mm: MM, root: int, p: Seq<Str>, j: int, n: int)
    requires 0 <= j < n, walk(vo, mm, root, p, j) == 0 || mget(mm, walk(vo, mm, root, p, j), p[j]) == 0 || vo[mget(mm, walk(vo, mm, root, p, j), p[j])] == 0
    ensures walk(vo, mm, root, p, n) == 0
    decreases n
{
    if n > j + 1 { lemma_dead(vo, mm, root, p, j, n - 1); }
}

// Everything before the end of a walk exists.
pub proof fn lemma_alive(vo: VO, mm: MM, root: int, p: Seq<Str>, j: int, n: int)
    requires 0 <= j <= n, walk(vo, mm, root, p, n) != 0
    ensures walk(vo, mm, root, p, j) != 0
    decreases n
{
    if n > j { lemma_alive(vo, mm, root, p, j, n - 1); }
}

pub proof fn lemma_walk_prefix(vo: VO, mm: MM, root: int, p: Seq<Str>, q: Seq<Str>, n: int)
    requires same_prefix(p, q, n)
    ensures walk(vo, mm, root, p, n) == walk(vo, mm, root, q, n)
    decreases n
{
    if n > 0 {
        assert(same_prefix(p, q, n - 1));
        lemma_walk_prefix(vo, mm, root, p, q, n - 1);
        assert(p[n - 1] == q[n - 1]);
    }
}

// ---- keys ----

pub open spec fn bs() -> int { 92 }
pub open spec fn dot() -> int { 46 }

// The segment being read after the first i bytes of the key, and the segments
// completed before it.
pub open spec fn kseg(key: Str, i: int) -> (Seq<Str>, Str)
    decreases i
{
    if i <= 0 { (Seq::<Str>::empty(), Seq::<int>::empty()) } else {
        let (done, cur) = kseg(key, i - 1);
        let c = key[i - 1];
        if c == bs() { (done, cur) }
        else if c == dot() {
            if i >= 2 && key[i - 2] == bs() { (done, cur.push(dot())) }
            else if cur.len() > 0 { (done.push(cur), Seq::<int>::empty()) }
            else { (done, cur) }
        } else { (done, cur.push(c)) }
    }
}

// The path a key addresses.
pub open spec fn kpath(key: Str) -> Seq<Str> {
    let (done, cur) = kseg(key, key.len() as int);
    if cur.len() > 0 { done.push(cur) } else { done }
}

pub proof fn lemma_root_key(key: Str)
    ensures key =~= seq![dot()] ==> kpath(key).len() == 0
{
    if key =~= seq![dot()] { reveal_with_fuel(kseg, 3); }
}

pub proof fn lemma_dead_all(vo: VO, mm: MM, root: int, p: Seq<Str>, n: int)
    ensures
        forall|j: int| 0 <= j < n - 1 && (#[trigger] walk(vo, mm, root, p, j) == 0 || mget(mm, walk(vo, mm, root, p, j), p[j]) == 0
            || vo[mget(mm, walk(vo, mm, root, p, j), p[j])] == 0
            || mm[vo[mget(mm, walk(vo, mm, root, p, j), p[j])]] =~= Map::<Str, int>::empty()) ==> lookup(vo, mm, root, p, n) == 0
{
    assert forall|j: int| 0 <= j < n - 1 && (#[trigger] walk(vo, mm, root, p, j) == 0 || mget(mm, walk(vo, mm, root, p, j), p[j]) == 0
            || vo[mget(mm, walk(vo, mm, root, p, j), p[j])] == 0
            || mm[vo[mget(mm, walk(vo, mm, root, p, j), p[j])]] =~= Map::<Str, int>::empty()) implies lookup(vo, mm, root, p, n) == 0 by {
        if walk(vo, mm, root, p, j + 1) == 0 {
            lemma_dead(vo, mm, root, p, j, n - 1);
        } else {
            assert(mget(mm, walk(vo, mm, root, p, j + 1), p[j + 1]) == 0);
            if j + 1 < n - 1 { lemma_dead(vo, mm, root, p, j + 1, n - 1); }
        }
    }
}

// A new empty object o (in value v) is stored at key p[i] of the map at the
// end of p[0..i], where the walk used to end.
pub proof fn lemma_create(vo: VO, mm: MM, vo2: VO, mm2: MM, al: int, root: int, p: Seq<Str>, i: int, v: int, o: int)
    requires
        closed(vo, mm, al), 0 < root < al, 0 <= i < p.len(),
        walk(vo, mm, root, p, i) != 0,
        upd_at(vo, mm, vo2, mm2, al, walk(vo, mm, root, p, i), p[i]),
        mget(mm2, walk(vo, mm, root, p, i), p[i]) == v,
        v >= al, vo2[v] == o, o >= al, mm2[o] =~= Map::<Str, int>::empty(),
    ensures
        tree(vo, mm, root) ==> tree(vo2, mm2, root),
        tree(vo, mm, root) ==> walk(vo2, mm2, root, p, i + 1) == o,
        tree(vo, mm, root) ==> forall|q: Seq<Str>, l: int| i + 1 <= l <= q.len() && same_prefix(p, q, i + 1) ==>
            #[trigger] walk(vo2, mm2, root, q, l) == (if l == i + 1 { o } else { 0 }),
        tree(vo, mm, root) ==> forall|q: Seq<Str>, l: int| i + 1 < l <= q.len() && same_prefix(p, q, i + 1) ==> #[trigger] lookup(vo2, mm2, root, q, l) == 0,
        tree(vo, mm, root) ==> forall|q: Seq<Str>| i < q.len() && same_prefix(p, q, i + 1) ==> #[trigger] lookup(vo2, mm2, root, q, i + 1) == v,
        tree(vo, mm, root) ==> forall|q: Seq<Str>, l: int| 0 <= l <= q.len() && !under(p, i + 1, q, l) ==> #[trigger] walk(vo2, mm2, root, q, l) == walk(vo, mm, root, q, l),
        tree(vo, mm, root) ==> forall|q: Seq<Str>, l: int| 1 <= l <= q.len() && !under(p, i + 1, q, l) ==> #[trigger] lookup(vo2, mm2, root, q, l) == lookup(vo, mm, root, q, l),
{
    if tree(vo, mm, root) {
        let m = walk(vo, mm, root, p, i);
        lemma_walk_bound(vo, mm, al, root, p, i);
        assert(only_path(vo, mm, root, p, i, m)) by {
            assert forall|q: Seq<Str>, l: int| 0 <= l <= q.len() && #[trigger] walk(vo, mm, root, q, l) == m implies l == i && same_prefix(p, q, i) by {
                assert(walk(vo, mm, root, p, i) == walk(vo, mm, root, q, l));
            }
        }
        lemma_upd(vo, mm, vo2, mm2, al, root, p, i);
        assert(!under(p, i + 1, p, i));
        assert(walk(vo2, mm2, root, p, i) == m);
        assert(walk(vo2, mm2, root, p, i + 1) == o);
        // below the new object nothing exists
        assert forall|q: Seq<Str>, l: int| i + 1 <= l <= q.len() && same_prefix(p, q, i + 1) implies
            #[trigger] walk(vo2, mm2, root, q, l) == (if l == i + 1 { o } else { 0 }) by {
            lemma_walk_prefix(vo2, mm2, root, p, q, i + 1);
            if l > i + 1 {
                assert(mget(mm2, o, q[i + 1]) == 0);
                lemma_dead(vo2, mm2, root, q, i + 1, l);
            }
        }
        assert forall|q: Seq<Str>, l: int| i + 1 < l <= q.len() && same_prefix(p, q, i + 1) implies #[trigger] lookup(vo2, mm2, root, q, l) == 0 by {
            let w = walk(vo2, mm2, root, q, l - 1);
            if l - 1 == i + 1 { assert(mget(mm2, o, q[l - 1]) == 0); }
        }
        assert forall|q: Seq<Str>| i < q.len() && same_prefix(p, q, i + 1) implies #[trigger] lookup(vo2, mm2, root, q, i + 1) == v by {
            assert(same_prefix(p, q, i));
            lemma_walk_prefix(vo2, mm2, root, p, q, i);
            assert(p[i] == q[i]);
        }
        assert forall|a: Seq<Str>, n: int, q: Seq<Str>, l: int|
            0 <= n <= a.len() && 0 <= l <= q.len() && #[trigger] walk(vo2, mm2, root, a, n) != 0
            && walk(vo2, mm2, root, a, n) == #[trigger] walk(vo2, mm2, root, q, l)
            implies n == l && same_prefix(a, q, n) by {
            lemma_walk_bound(vo, mm, al, root, a, n);
            lemma_walk_bound(vo, mm, al, root, q, l);
            if under(p, i + 1, a, n) {
                assert(n == i + 1);
                if !under(p, i + 1, q, l) {
                    assert(walk(vo2, mm2, root, q, l) == walk(vo, mm, root, q, l));
                }
            } else {
                assert(walk(vo2, mm2, root, a, n) == walk(vo, mm, root, a, n));
                if under(p, i + 1, q, l) {
                    assert(l == i + 1);
                } else {
                    assert(walk(vo2, mm2, root, q, l) == walk(vo, mm, root, q, l));
                }
            }
        }
    }
}

// An event without fields has nothing at any path.
pub proof fn lemma_empty_root(vo: VO, mm: MM, root: int)
    requires root == 0 || mm[root] =~= Map::<Str, int>::empty()
    ensures
        forall|q: Seq<Str>, l: int| l >= 1 ==> #[trigger] walk(vo, mm, root, q, l) == 0,
        forall|q: Seq<Str>, l: int| l >= 1 ==> #[trigger] lookup(vo, mm, root, q, l) == 0,
        tree(vo, mm, root),
{
    assert forall|q: Seq<Str>, l: int| l >= 1 implies #[trigger] walk(vo, mm, root, q, l) == 0 by {
        assert(walk(vo, mm, root, q, 0) == root);
        lemma_dead(vo, mm, root, q, 0, l);
    }
    assert forall|q: Seq<Str>, l: int| l >= 1 implies #[trigger] lookup(vo, mm, root, q, l) == 0 by {
        if l > 1 { assert(walk(vo, mm, root, q, l - 1) == 0); } else { assert(walk(vo, mm, root, q, 0) == root); }
    }
    assert(tree(vo, mm, root)) by {
        assert forall|p: Seq<Str>, n: int, q: Seq<Str>, l: int|
        0 <= n <= p.len() && 0 <= l <= q.len() && #[trigger] walk(vo, mm, root, p, n) != 0
        && walk(vo, mm, root, p, n) == #[trigger] walk(vo, mm, root, q, l)
        implies n == l && same_prefix(p, q, n) by {
            if n >= 1 { assert(walk(vo, mm, root, p, n) == 0); }
            if l >= 1 { assert(walk(vo, mm, root, q, l) == 0); }
        }
    }
}

// The final write of put.
pub proof fn lemma_put(vo: VO, mm: MM, vo2: VO, mm2: MM, al: int, root: int, p: Seq<Str>, n: int, val: int)
    requires
        closed(vo, mm, al), 0 < root < al, 1 <= n <= p.len(),
        walk(vo, mm, root, p, n - 1) != 0,
        upd_at(vo, mm, vo2, mm2, al, walk(vo, mm, root, p, n - 1), p[n - 1]),
        mget(mm2, walk(vo, mm, root, p, n - 1), p[n - 1]) == val,
    ensures
        tree(vo, mm, root) ==> lookup(vo2, mm2, root, p, n) == val,
        tree(vo, mm, root) ==> forall|q: Seq<Str>, l: int| 0 <= l <= q.len() && !under(p, n, q, l) ==> #[trigger] walk(vo2, mm2, root, q, l) == walk(vo, mm, root, q, l),
        tree(vo, mm, root) ==> forall|q: Seq<Str>, l: int| 1 <= l <= q.len() && !under(p, n, q, l) ==> #[trigger] lookup(vo2, mm2, root, q, l) == lookup(vo, mm, root, q, l),
{
    if tree(vo, mm, root) {
        let m = walk(vo, mm, root, p, n - 1);
        lemma_walk_bound(vo, mm, al, root, p, n - 1);
        assert(only_path(vo, mm, root, p, n - 1, m)) by {
            assert forall|q: Seq<Str>, l: int| 0 <= l <= q.len() && #[trigger] walk(vo, mm, root, q, l) == m implies l == n - 1 && same_prefix(p, q, n - 1) by {
                assert(walk(vo, mm, root, p, n - 1) == walk(vo, mm, root, q, l));
            }
        }
        lemma_upd(vo, mm, vo2, mm2, al, root, p, n - 1);
        assert(!under(p, n, p, n - 1));
        assert(walk(vo2, mm2, root, p, n - 1) == m);
    }
}

// The final write of put, of a value without fields: the event remains a tree.
pub proof fn lemma_leaf(vo: VO, mm: MM, vo2: VO, mm2: MM, al: int, root: int, p: Seq<Str>, n: int, val: int)
    requires
        closed(vo, mm, al), 0 < root < al, 1 <= n <= p.len(), tree(vo, mm, root),
        walk(vo, mm, root, p, n - 1) != 0,
        upd_at(vo, mm, vo2, mm2, al, walk(vo, mm, root, p, n - 1), p[n - 1]),
        mget(mm2, walk(vo, mm, root, p, n - 1), p[n - 1]) == val, vo2[val] == 0,
    ensures tree(vo2, mm2, root)
{
    lemma_put(vo, mm, vo2, mm2, al, root, p, n, val);
    assert(lookup(vo2, mm2, root, p, n) == val);
    assert(walk(vo2, mm2, root, p, n) == 0) by {
        assert(!under(p, n, p, n - 1));
        assert(walk(vo2, mm2, root, p, n - 1) == walk(vo, mm, root, p, n - 1));
    }
    lemma_dead_below(vo2, mm2, root, p, n);
    assert forall|a: Seq<Str>, i: int, q: Seq<Str>, l: int|
        0 <= i <= a.len() && 0 <= l <= q.len() && #[trigger] walk(vo2, mm2, root, a, i) != 0
        && walk(vo2, mm2, root, a, i) == #[trigger] walk(vo2, mm2, root, q, l)
        implies i == l && same_prefix(a, q, i) by {
        assert(!under(p, n, a, i));
        assert(!under(p, n, q, l));
        assert(walk(vo, mm, root, a, i) == walk(vo, mm, root, q, l));
    }
}

// Below a path where the walk has ended nothing is found.
pub proof fn lemma_dead_below(vo: VO, mm: MM, root: int, p: Seq<Str>, i: int)
    requires walk(vo, mm, root, p, i) == 0, i >= 0
    ensures
        forall|q: Seq<Str>, l: int| l >= i && same_prefix(p, q, i) ==> #[trigger] walk(vo, mm, root, q, l) == 0,
        forall|q: Seq<Str>, l: int| l > i && same_prefix(p, q, i) ==> #[trigger] lookup(vo, mm, root, q, l) == 0,
{
    assert forall|q: Seq<Str>, l: int| l >= i && same_prefix(p, q, i) implies #[trigger] walk(vo, mm, root, q, l) == 0 by {
        lemma_walk_prefix(vo, mm, root, p, q, i);
        if l > i { lemma_dead(vo, mm, root, q, i, l); }
    }
    assert forall|q: Seq<Str>, l: int| l > i && same_prefix(p, q, i) implies #[trigger] lookup(vo, mm, root, q, l) == 0 by {
        assert(walk(vo, mm, root, q, l - 1) == 0);
    }
}

// Allocating new values changes nothing in an event.
pub proof fn lemma_ext(vo: VO, mm: MM, vo2: VO, mm2: MM, al: int, root: int)
    ensures
        closed(vo, mm, al) && 0 <= root < al && (forall|v: int| 0 <= v < al ==> #[trigger] vo2[v] == vo[v]) && (forall|r: int| 0 <= r < al ==> #[trigger] mm2[r] == mm[r]) ==> {
            &&& forall|q: Seq<Str>, l: int| 0 <= l <= q.len() ==> #[trigger] walk(vo2, mm2, root, q, l) == walk(vo, mm, root, q, l)
            &&& forall|q: Seq<Str>, l: int| 1 <= l <= q.len() ==> #[trigger] lookup(vo2, mm2, root, q, l) == lookup(vo, mm, root, q, l)
            &&& tree(vo, mm, root) ==> tree(vo2, mm2, root)
        }
{
    if closed(vo, mm, al) && 0 <= root < al && (forall|v: int| 0 <= v < al ==> #[trigger] vo2[v] == vo[v]) && (forall|r: int| 0 <= r < al ==> #[trigger] mm2[r] == mm[r]) {
        assert forall|q: Seq<Str>, l: int| 0 <= l <= q.len() implies #[trigger] walk(vo2, mm2, root, q, l) == walk(vo, mm, root, q, l) by {
            lemma_ext1(vo, mm, vo2, mm2, al, root, q, l);
        }
        assert forall|q: Seq<Str>, l: int| 1 <= l <= q.len() implies #[trigger] lookup(vo2, mm2, root, q, l) == lookup(vo, mm, root, q, l) by {
            assert(walk(vo2, mm2, root, q, l - 1) == walk(vo, mm, root, q, l - 1));
            lemma_walk_bound(vo, mm, al, root, q, l - 1);
        }
        if tree(vo, mm, root) {
            assert forall|p: Seq<Str>, n: int, q: Seq<Str>, l: int|
                0 <= n <= p.len() && 0 <= l <= q.len() && #[trigger] walk(vo2, mm2, root, p, n) != 0
                && walk(vo2, mm2, root, p, n) == #[trigger] walk(vo2, mm2, root, q, l)
                implies n == l && same_prefix(p, q, n) by {
                assert(walk(vo, mm, root, p, n) == walk(vo, mm, root, q, l));
            }
        }
    }
}

proof fn lemma_ext1(vo: VO, mm: MM, vo2: VO, mm2: MM, al: int, root: int, q: Seq<Str>, l: int)
    requires
        closed(vo, mm, al), 0 <= root < al, 0 <= l <= q.len(),
        forall|v: int| 0 <= v < al ==> #[trigger] vo2[v] == vo[v], forall|r: int| 0 <= r < al ==> #[trigger] mm2[r] == mm[r],
    ensures walk(vo2, mm2, root, q, l) == walk(vo, mm, root, q, l)
    decreases l
{
    if l > 0 {
        lemma_ext1(vo, mm, vo2, mm2, al, root, q, l - 1);
        lemma_walk_bound(vo, mm, al, root, q, l - 1);
        assert(0 <= mget(mm, walk(vo, mm, root, q, l - 1), q[l - 1]) < al);
    }
}
