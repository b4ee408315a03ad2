// Escaping of field names.

pub open spec fn no_byte(s: Str, c: int) -> bool { forall|j: int| 0 <= j < s.len() ==> s[j] != c }

// s with every byte c replaced by new
pub open spec fn replace_byte(s: Str, c: int, new: Str) -> Str
    decreases s.len()
{
    if s.len() == 0 { Seq::<int>::empty() }
    else { replace_byte(s.drop_last(), c, new) + (if s.last() == c { new } else { seq![s.last()] }) }
}

pub open spec fn escaped(s: Str) -> Str { replace_byte(s, dot(), seq![bs(), dot()]) }

pub proof fn lemma_kseg_prefix(a: Str, b: Str, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), forall|j: int| 0 <= j < n ==> a[j] == b[j]
    ensures kseg(a, n) == kseg(b, n)
    decreases n
{
    if n > 0 { lemma_kseg_prefix(a, b, n - 1); }
}

pub proof fn lemma_esc_kseg(s: Str)
    requires no_byte(s, bs())
    ensures
        kseg(escaped(s), escaped(s).len() as int).0 =~= Seq::<Str>::empty(),
        kseg(escaped(s), escaped(s).len() as int).1 =~= s,
        escaped(s).len() > 0 ==> escaped(s).last() != bs(),
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_esc_kseg(t);
        let a = escaped(t);
        let b = escaped(s);
        let n = a.len() as int;
        lemma_kseg_prefix(a, b, n);
        assert(t.push(s.last()) =~= s);
        if s.last() == dot() {
            assert(b =~= a.push(bs()).push(dot()));
            assert(kseg(b, n + 1) == kseg(b, n));
            assert(kseg(b, n + 2).1 =~= kseg(b, n + 1).1.push(dot()));
        } else {
            assert(b =~= a.push(s.last()));
            assert(kseg(b, n + 1).1 =~= kseg(b, n).1.push(s.last()));
        }
    }
}

pub proof fn lemma_replace_none(s: Str, c: int, new: Str)
    requires no_byte(s, c)
    ensures replace_byte(s, c, new) =~= s
    decreases s.len()
{
    if s.len() > 0 {
        lemma_replace_none(s.drop_last(), c, new);
        assert(s.drop_last().push(s.last()) =~= s);
    }
}

pub proof fn lemma_escape(s: Str)
    ensures no_byte(s, bs()) && s.len() > 0 ==> kpath(escaped(s)) =~= seq![s]
{
    if no_byte(s, bs()) && s.len() > 0 { lemma_esc_kseg(s); }
}

pub proof fn lemma_plain(s: Str)
    ensures no_byte(s, dot()) ==> escaped(s) =~= s
{
    if no_byte(s, dot()) { lemma_replace_none(s, dot(), seq![bs(), dot()]); }
}

// Letter case (strings.ToUpper, strings.ToLower).
pub uninterp spec fn to_upper(s: Str) -> Str;
pub uninterp spec fn to_lower(s: Str) -> Str;
