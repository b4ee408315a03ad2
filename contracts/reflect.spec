# What package reflect shows of Go values. Reflected values are opaque; what they
# show is described by uninterpreted functions (reflection is trusted), except
# for values of basic types and []interface{}, whose content is the content of
# the value itself. No code under contract changes values through reflection.
needs times

rust
pub uninterp spec fn rv_of(i: Iface) -> Opq;
// the value v was made from by reflect.ValueOf
pub uninterp spec fn rv_dyn(v: Opq) -> Iface;
pub uninterp spec fn rv_method(v: Opq, name: Str) -> Opq;
pub uninterp spec fn rv_field(v: Opq, name: Str) -> Opq;
pub uninterp spec fn rv_result(v: Opq, i: int) -> Opq;
pub uninterp spec fn rv_type(v: Opq) -> Iface;
pub uninterp spec fn rv_kind0(v: Opq) -> int;
pub uninterp spec fn rv_bool0(v: Opq) -> bool;
pub uninterp spec fn rv_int0(v: Opq) -> int;
pub uninterp spec fn rv_uint0(v: Opq) -> int;
pub uninterp spec fn rv_float0(v: Opq) -> Flt;
pub uninterp spec fn rv_string0(v: Opq) -> Str;
pub uninterp spec fn rv_len0(v: Opq) -> int;
pub uninterp spec fn ty_kind(t: Iface) -> int;
pub uninterp spec fn ty_numout(t: Iface) -> int;
pub uninterp spec fn ty_nf(t: Iface) -> int;
pub open spec fn rv_kind(v: Opq) -> int {
    match rv_dyn(v) {
        Iface::V_bool(x) => 1, Iface::V_int(x) => 2, Iface::V_int8(x) => 3, Iface::V_int16(x) => 4, Iface::V_int32(x) => 5, Iface::V_int64(x) => 6,
        Iface::V_uint(x) => 7, Iface::V_uint8(x) => 8, Iface::V_uint16(x) => 9, Iface::V_uint32(x) => 10, Iface::V_uint64(x) => 11, Iface::V_uintptr(x) => 12,
        Iface::V_float32(x) => 13, Iface::V_float64(x) => 14, Iface::V_string(x) => 24, Iface::V_s_any(x) => 23, _ => rv_kind0(v),
    }
}
pub open spec fn rv_bool(v: Opq) -> bool { match rv_dyn(v) { Iface::V_bool(x) => x, _ => rv_bool0(v) } }
pub open spec fn rv_int(v: Opq) -> int {
    match rv_dyn(v) { Iface::V_int(x) => x, Iface::V_int8(x) => x, Iface::V_int16(x) => x, Iface::V_int32(x) => x, Iface::V_int64(x) => x, _ => rv_int0(v) }
}
pub open spec fn rv_uint(v: Opq) -> int {
    match rv_dyn(v) { Iface::V_uint(x) => x, Iface::V_uint8(x) => x, Iface::V_uint16(x) => x, Iface::V_uint32(x) => x, Iface::V_uint64(x) => x, Iface::V_uintptr(x) => x, _ => rv_uint0(v) }
}
pub open spec fn rv_float(v: Opq) -> Flt { match rv_dyn(v) { Iface::V_float32(x) => x, Iface::V_float64(x) => x, _ => rv_float0(v) } }
pub open spec fn rv_string(v: Opq) -> Str { match rv_dyn(v) { Iface::V_string(x) => x, _ => rv_string0(v) } }
pub open spec fn rv_len(v: Opq) -> int { match rv_dyn(v) { Iface::V_s_any(x) => x.l, _ => rv_len0(v) } }
// the type implements error; it can be converted to time.Time
pub uninterp spec fn rv_err0(v: Opq) -> bool;
pub open spec fn basic(x: Iface) -> bool {
    x is V_bool || x is V_int || x is V_int8 || x is V_int16 || x is V_int32 || x is V_int64 || x is V_uint || x is V_uint8 || x is V_uint16 || x is V_uint32 || x is V_uint64 || x is V_uintptr
    || x is V_float32 || x is V_float64 || x is V_string || x is V_s_any
}
pub open spec fn rv_err(v: Opq) -> bool { !basic(rv_dyn(v)) && rv_err0(v) }
pub uninterp spec fn rv_time(v: Opq) -> bool;
pub uninterp spec fn rv_as_time(v: Opq) -> Opq;
pub uninterp spec fn rv_isnil(v: Opq) -> bool;
pub uninterp spec fn rv_elem(v: Opq) -> Opq;
pub uninterp spec fn rv_index(v: Opq, i: int) -> Opq;
pub uninterp spec fn rv_mkey(v: Opq, i: int) -> Opq;
pub uninterp spec fn rv_mval(v: Opq, i: int) -> Opq;
pub uninterp spec fn rv_zero(t: Iface) -> Opq;
pub uninterp spec fn rv_ok(v: Opq) -> bool;
// element rv_pos(v) of rv_seq(v), where v was made by Index
pub uninterp spec fn rv_seq(v: Opq) -> Opq;
pub uninterp spec fn rv_pos(v: Opq) -> int;
pub uninterp spec fn rv_any(v: Opq) -> Iface;
// what Interface returns: elements of an []interface{} are read from memory
pub open spec fn rv_iface(aa: Map<int, Map<int, Iface>>, v: Opq) -> Iface {
    match rv_dyn(rv_seq(v)) { Iface::V_s_any(s) => aa[s.r][s.o + rv_pos(v)], _ => rv_any(v) }
}
pub uninterp spec fn ty_field(t: Iface, i: int) -> S_reflect_StructField;
pub uninterp spec fn tag_get(tag: Str, key: Str) -> Str;
pub uninterp spec fn split(s: Str, sep: Str) -> Seq<Str>;
pub uninterp spec fn err_text(e: Iface) -> Str;
pub uninterp spec fn str_text(e: Iface) -> Str;
pub uninterp spec fn fmt_text(e: Iface) -> Str;
pub uninterp spec fn deep_eq(a: Iface, b: Iface) -> bool;
// What reflect.ValueOf and Index show (assumed, as in their contracts below).
pub open spec fn rv_facts(i: Iface) -> bool {
    let v = rv_of(i);
    rv_dyn(v) == i && rv_any(v) == i && !(rv_dyn(rv_seq(v)) is V_s_any) && (!(i is Nil) ==> rv_ok(v)) && rv_kind(v) != 20
}
pub open spec fn reflect_facts() -> bool {
    forall|i: Iface| #![trigger rv_of(i)] rv_facts(i) && forall|j: int| #![trigger rv_index(rv_of(i), j)] rv_seq(rv_index(rv_of(i), j)) == rv_of(i) && rv_pos(rv_index(rv_of(i), j)) == j
}
end rust

ghost mapiter_of: Map<int, Opq>
ghost mapiter_pos: Map<int, int>

extern reflect.ValueOf(i) (v)
  pure
  ensures v == rv_of(i)
  ensures @C18,C20 rv_facts(i)
extern (reflect.Value).MethodByName(v, name) (m)
  pure
  ensures m == rv_method(v, name)
extern (reflect.Value).FieldByName(v, name) (f)
  pure
  requires @C20 rv_ok(v) && rv_kind(v) == 25
  ensures f == rv_field(v, name)
  ensures @C20 forall|i: int| 0 <= i < ty_nf(rv_type(v)) && ty_field(rv_type(v), i).Name == name ==> rv_ok(f)
extern (reflect.Value).Type(v) (t)
  pure
  requires @C20,C22 rv_ok(v)
  ensures t == rv_type(v) && !(t is Nil)
  ensures @C18,C20,C22 ty_kind(t) == rv_kind(v)
extern (reflect.Value).Kind(v) (k)
  pure
  ensures k == rv_kind(v)
extern (reflect.Value).Bool(v) (b)
  pure
  requires @C20 rv_kind(v) == 1
  ensures b == rv_bool(v)
extern (reflect.Value).Int(v) (n)
  pure
  requires @C20 2 <= rv_kind(v) <= 6
  ensures n == rv_int(v)
extern (reflect.Value).Uint(v) (n)
  pure
  requires @C20 7 <= rv_kind(v) <= 12
  ensures n == rv_uint(v)
extern (reflect.Value).Float(v) (f)
  pure
  requires @C20 rv_kind(v) == 13 || rv_kind(v) == 14
  ensures f == rv_float(v)
extern (reflect.Value).String(v) (s)
  pure
  ensures rv_kind(v) == 24 ==> s == rv_string(v)
extern (reflect.Value).IsNil(v) (b)
  pure
  requires @C22 nilable(rv_kind(v))
  requires @C20 rv_kind(v) == 18 || rv_kind(v) == 19 || rv_kind(v) == 20 || rv_kind(v) == 21 || rv_kind(v) == 22 || rv_kind(v) == 23 || rv_kind(v) == 26
  ensures b == rv_isnil(v)
extern (reflect.Value).IsValid(v) (b)
  pure
  ensures b == rv_ok(v)
extern (reflect.Value).Elem(v) (r)
  pure
  requires @C20 rv_kind(v) == 20 || rv_kind(v) == 22
  ensures r == rv_elem(v) && rv_ok(r) == !rv_isnil(v)
  ensures @C22 rv_kind(v) == 22 ==> rv_ptr(r) == rv_ptr(v)
extern (reflect.Value).Len(v) (n)
  pure
  requires @C20 rv_kind(v) == 17 || rv_kind(v) == 21 || rv_kind(v) == 23 || rv_kind(v) == 24
  ensures n == rv_len(v) && n >= 0
extern (reflect.Value).Index(v, i) (r)
  pure
  requires @C20 (rv_kind(v) == 17 || rv_kind(v) == 23) && 0 <= i < rv_len(v)
  ensures r == rv_index(v, i) && rv_seq(r) == v && rv_pos(r) == i && rv_ok(r)
extern (reflect.Value).Interface(v) (i)
  pure
  requires @C20,C22 rv_ok(v)
  ensures @C22 i == rv_iface(h.A_any, v) && (rv_kind(v) == 22 ==> iface_ptr(i) == rv_ptr(v))
  ensures @C18,C20 i == rv_iface(h.A_any, v) && (rv_err(v) && !(rv_kind(v) == 20 && rv_isnil(v)) ==> impl_error(i) && !(i is Nil))
extern (reflect.Value).CanConvert(v, t) (ok)
  pure
  ensures t == glob_eventutil_timeInterface() ==> ok == rv_time(v)
extern (reflect.Value).Convert(v, t) (r)
  pure
  requires @C20 t == glob_eventutil_timeInterface() && rv_time(v)
  ensures rv_ok(r) && rv_any(r) == Iface::V_time_Time(rv_as_time(v)) && !(rv_dyn(rv_seq(r)) is V_s_any) && !rv_err(r)
extern (reflect.Value).MapRange(v) (it)
  modifies mapiter_of mapiter_pos
  requires @C20 rv_kind(v) == 21
  ensures h.alloc <= it < h2.alloc && h2.mapiter_of == h.mapiter_of.insert(it, v) && h2.mapiter_pos == h.mapiter_pos.insert(it, 0)
extern (*reflect.MapIter).Next(it) (ok)
  noalloc
  modifies mapiter_pos
  requires @C20 it != 0
  ensures ok == (h.mapiter_pos[it] < rv_len(h.mapiter_of[it])) && h2.mapiter_pos == h.mapiter_pos.insert(it, h.mapiter_pos[it] + 1)
extern (*reflect.MapIter).Key(it) (k)
  pure
  requires @C20 it != 0 && 0 < h.mapiter_pos[it] <= rv_len(h.mapiter_of[it])
  ensures k == rv_mkey(h.mapiter_of[it], h.mapiter_pos[it] - 1) && rv_ok(k)
extern (*reflect.MapIter).Value(it) (v)
  pure
  requires @C20 it != 0 && 0 < h.mapiter_pos[it] <= rv_len(h.mapiter_of[it])
  ensures v == rv_mval(h.mapiter_of[it], h.mapiter_pos[it] - 1) && rv_ok(v) && !(rv_dyn(rv_seq(v)) is V_s_any)
extern reflect.Zero(t) (v)
  pure
  ensures v == rv_zero(t) && rv_ok(v)
extern reflect.DeepEqual(a, b) (r)
  pure
  ensures r == deep_eq(a, b)
extern (reflect.StructTag).Get(tag, key) (s)
  pure
  ensures s == tag_get(tag, key)
extern (reflect.Value).Call(v, args) (out)
  requires @C22 rv_kind(v) == 19 && !rv_isnil(v) && args.l == ty_numin(rv_type(v)) && forall|i: int| 0 <= i < args.l ==> rv_type(slseq(h.A_reflect_Value, args)[i]) == ty_in(rv_type(v), i)
  ensures @C22 out.l == ty_numout(rv_type(v)) && h2.ct_n == h.ct_n + 1 && h2.ct_fn == h.ct_fn.insert(h.ct_n, v)
  ensures @C22 args.l == 1 ==> h2.ct_addr == h.ct_addr.insert(h.ct_n, rv_ptr(slseq(h.A_reflect_Value, args)[0])) && h2.ct_conf == h.ct_conf.insert(h.ct_n, h.rmem[rv_ptr(slseq(h.A_reflect_Value, args)[0])])
  ensures @C22 forall|i: int| 0 <= i < out.l ==> (#[trigger] h2.A_reflect_Value[out.r][out.o + i]) == ct_out(h.ct_n, i) && called_out(rv_type(v), ct_out(h.ct_n, i), i)
  modifies ct_n ct_fn ct_addr ct_conf
  ensures @C12 out.l == ty_numout(rv_type(v)) && forall|i: int| 0 <= i < out.l ==> (#[trigger] h2.A_reflect_Value[out.r][out.o + i]) == rv_result(v, i)

iface (reflect.Type).NumOut(t) (n)
  pure
  ensures n == ty_numout(t)
iface (reflect.Type).Kind(t) (k)
  pure
  ensures k == ty_kind(t)
iface (reflect.Type).Implements(t, u) (b)
  pure
  ensures @C22 b == ty_impl(t, u)
  ensures @C18,C20 u == glob_eventutil_errorInterface() ==> forall|v: Opq| #[trigger] rv_type(v) == t ==> b == rv_err(v)
iface (reflect.Type).NumField(t) (n)
  pure
  requires @C20 ty_kind(t) == 25
  ensures n == ty_nf(t) && n >= 0
iface (reflect.Type).Field(t, i) (f)
  pure
  requires @C20 ty_kind(t) == 25 && 0 <= i < ty_nf(t)
  ensures f == ty_field(t, i)
iface (error).Error(e) (s)
  pure
  ensures s == err_text(e)
iface (fmt.Stringer).String(e) (s)
  pure
  ensures s == str_text(e)

extern strings.Split(s, sep) (r)
  ensures slseq(h2.A_string, r) == split(s, sep) && r.l >= 1
extern fmt.Sprintf(format, args) (s)
  pure
  ensures @C18,C20 format =~= "%v" && args.l == 1 ==> s == fmt_text(slseq(h.A_any, args)[0])
