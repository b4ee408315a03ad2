// Base theory of the generated verification conditions: Go values and memory.

pub type Str = Seq<int>;

pub struct Slice { pub r: int, pub o: int, pub l: int, pub c: int }
pub struct Opq { pub id: int }
pub struct Flt { pub id: int }

pub open spec fn nil_slice() -> Slice { Slice { r: 0, o: 0, l: 0, c: 0 } }

// Facts every Go slice value satisfies.
pub open spec fn slice_wf(s: Slice, alloc: int) -> bool {
    &&& 0 <= s.r < alloc
    &&& 0 <= s.o
    &&& 0 <= s.l <= s.c
    &&& (s.r == 0 ==> s == nil_slice())
}

pub open spec fn arrseq<T>(arr: Map<int, T>, o: int, l: int) -> Seq<T> {
    Seq::new(l as nat, |j: int| arr[o + j])
}

// Contents of a slice.
pub open spec fn slseq<T>(a: Map<int, Map<int, T>>, s: Slice) -> Seq<T> {
    arrseq(a[s.r], s.o, s.l)
}

// Effect of append(s, ts...): the contents are extended; the new elements are
// written into the old backing array (beyond the old length) or a fresh one.
pub open spec fn append_post<T>(a: Map<int, Map<int, T>>, a2: Map<int, Map<int, T>>, s: Slice, ts: Seq<T>, r: Slice, al: int) -> bool {
    &&& r.l == s.l + ts.len()
    &&& 0 <= r.o && r.l <= r.c
    &&& slseq(a2, r) == slseq(a, s) + ts
    &&& (ts.len() == 0 ==> r == s && a2 == a)
    &&& ((r.r == s.r && r.o == s.o && r.c == s.c && s.r != 0) || r.r == al || ts.len() == 0)
    &&& (forall|q: int| q != r.r ==> (#[trigger] a2[q]) == a[q])
    &&& (r.r == s.r ==> forall|j: int| (j < s.o + s.l || j >= r.o + r.l) ==> (#[trigger] a2[s.r][j]) == a[s.r][j])
}

pub uninterp spec fn str_lt(a: Str, b: Str) -> bool;
pub uninterp spec fn go_div(a: int, b: int) -> int;
pub uninterp spec fn go_rem(a: int, b: int) -> int;
pub uninterp spec fn bitop_and(a: int, b: int) -> int;
pub uninterp spec fn bitop_or(a: int, b: int) -> int;
pub uninterp spec fn bitop_xor(a: int, b: int) -> int;
pub uninterp spec fn bitop_shl(a: int, b: int) -> int;
pub uninterp spec fn bitop_shr(a: int, b: int) -> int;
pub uninterp spec fn bitop_andnot(a: int, b: int) -> int;
pub uninterp spec fn flt_lt(a: Flt, b: Flt) -> bool;
pub uninterp spec fn flt_gt(a: Flt, b: Flt) -> bool;
pub uninterp spec fn flt_le(a: Flt, b: Flt) -> bool;
pub uninterp spec fn flt_ge(a: Flt, b: Flt) -> bool;
pub uninterp spec fn flt_eq(a: Flt, b: Flt) -> bool;
pub uninterp spec fn flt_neg(a: Flt) -> Flt;
pub uninterp spec fn flt_op(o: int, a: Flt, b: Flt) -> Flt;
pub uninterp spec fn flt_zero() -> Flt;
pub uninterp spec fn flt_const(n: int) -> Flt;
pub uninterp spec fn flt_of_int(a: int) -> Flt;
pub uninterp spec fn flt_to_int(a: Flt) -> int;
pub uninterp spec fn flt_narrow(a: Flt) -> Flt;
// float32 values are a subset of the float64 values: widening is exact.
pub open spec fn flt_widen(a: Flt) -> Flt { a }
pub uninterp spec fn opq_zero(t: int) -> Opq;
pub uninterp spec fn rune_str(a: int) -> Str;
pub uninterp spec fn fn_id(n: int) -> int;
// which function a function value is
pub uninterp spec fn fn_code(n: int) -> int;
pub uninterp spec fn glob_limit() -> int;

pub open spec fn wrap_u8(x: int) -> int { x % 256 }
pub open spec fn wrap_u16(x: int) -> int { x % 65536 }
pub open spec fn wrap_u32(x: int) -> int { x % 0x100000000 }
pub open spec fn wrap_u64(x: int) -> int { x % 0x10000000000000000 }
pub open spec fn wrap_i8(x: int) -> int { let y = x % 256; if y >= 128 { y - 256 } else { y } }
pub open spec fn wrap_i16(x: int) -> int { let y = x % 65536; if y >= 32768 { y - 65536 } else { y } }
pub open spec fn wrap_i32(x: int) -> int { let y = x % 0x100000000; if y >= 0x80000000 { y - 0x100000000 } else { y } }
pub open spec fn wrap_i64(x: int) -> int { let y = x % 0x10000000000000000; if y >= 0x8000000000000000 { y - 0x10000000000000000 } else { y } }

// A map read with Go's default for absent keys.
pub open spec fn mgets<K>(m: Map<K, int>, k: K) -> int { if m.dom().contains(k) { m[k] } else { 0 } }
pub open spec fn mget<K>(mm: Map<int, Map<K, int>>, r: int, k: K) -> int { mgets(mm[r], k) }

// errors.Is for the error values of the model.
pub open spec fn err_is(e: Iface, t: Iface) -> bool
    decreases e
{
    e == t || match e { Iface::WrapErr(_, b) => err_is(*b, t), _ => false }
}
