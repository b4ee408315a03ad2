// Consequences of removing and adding fields.

// Nothing is found at or below a path where nothing is found.
pub proof fn lemma_gone(vo: VO, mm: MM, root: int, p: Seq<Str>, n: int)
    requires n >= 1
    ensures lookup(vo, mm, root, p, n) == 0 ==> forall|q: Seq<Str>, l: int| l >= n && same_prefix(p, q, n) ==> #[trigger] lookup(vo, mm, root, q, l) == 0
{
    if lookup(vo, mm, root, p, n) == 0 {
        assert(walk(vo, mm, root, p, n) == 0);
        lemma_dead_below(vo, mm, root, p, n);
        assert forall|q: Seq<Str>, l: int| l >= n && same_prefix(p, q, n) implies #[trigger] lookup(vo, mm, root, q, l) == 0 by {
            if l == n {
                assert(same_prefix(p, q, n - 1));
                lemma_walk_prefix(vo, mm, root, p, q, n - 1);
                assert(p[n - 1] == q[n - 1]);
            }
        }
    }
}

// If every field holds what it held before, or nothing, the event remains a tree.
pub proof fn lemma_subtree(vo: VO, mm: MM, vo2: VO, mm2: MM, al: int, root: int)
    ensures
        closed(vo, mm, al) && 0 <= root < al && tree(vo, mm, root)
        && (forall|v: int| 0 <= v < al ==> #[trigger] vo2[v] == vo[v])
        && (forall|q: Seq<Str>, l: int| 1 <= l <= q.len() ==> (#[trigger] lookup(vo2, mm2, root, q, l)) == 0 || lookup(vo2, mm2, root, q, l) == lookup(vo, mm, root, q, l))
        ==> tree(vo2, mm2, root)
{
    if closed(vo, mm, al) && 0 <= root < al && tree(vo, mm, root)
        && (forall|v: int| 0 <= v < al ==> #[trigger] vo2[v] == vo[v])
        && (forall|q: Seq<Str>, l: int| 1 <= l <= q.len() ==> (#[trigger] lookup(vo2, mm2, root, q, l)) == 0 || lookup(vo2, mm2, root, q, l) == lookup(vo, mm, root, q, l))
    {
        assert forall|p: Seq<Str>, n: int| 0 <= n <= p.len() && (#[trigger] walk(vo2, mm2, root, p, n)) != 0 implies walk(vo2, mm2, root, p, n) == walk(vo, mm, root, p, n) by {
            lemma_sub1(vo, mm, vo2, mm2, al, root, p, n);
        }
        assert forall|p: Seq<Str>, n: int, q: Seq<Str>, l: int|
            0 <= n <= p.len() && 0 <= l <= q.len() && #[trigger] walk(vo2, mm2, root, p, n) != 0
            && walk(vo2, mm2, root, p, n) == #[trigger] walk(vo2, mm2, root, q, l)
            implies n == l && same_prefix(p, q, n) by {
            assert(walk(vo, mm, root, p, n) == walk(vo, mm, root, q, l));
        }
    }
}

proof fn lemma_sub1(vo: VO, mm: MM, vo2: VO, mm2: MM, al: int, root: int, p: Seq<Str>, n: int)
    requires
        closed(vo, mm, al), 0 <= root < al, 0 <= n <= p.len(), walk(vo2, mm2, root, p, n) != 0,
        forall|v: int| 0 <= v < al ==> #[trigger] vo2[v] == vo[v],
        forall|q: Seq<Str>, l: int| 1 <= l <= q.len() ==> (#[trigger] lookup(vo2, mm2, root, q, l)) == 0 || lookup(vo2, mm2, root, q, l) == lookup(vo, mm, root, q, l),
    ensures walk(vo2, mm2, root, p, n) == walk(vo, mm, root, p, n)
{
    if n > 0 {
        lemma_walk_bound(vo, mm, al, root, p, n - 1);
        assert(lookup(vo2, mm2, root, p, n) == lookup(vo, mm, root, p, n));
        assert(0 <= mget(mm, walk(vo, mm, root, p, n - 1), p[n - 1]) < al);
    }
}
