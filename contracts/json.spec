# Package encoding/json: what a JSON text denotes, what Unmarshal stores for it.
rust
// Bad stands for text that is no JSON document (or has a number that no float64
// can hold); of members with one name the last one counts. Numbers are opaque.
pub enum J { Bad, Null, Bool(bool), Num(int), Text(Str), Arr(Seq<J>), Obj(Map<Str, J>) }
// the number of an integer, of a float64; the float64 of a number
pub uninterp spec fn num_int(n: int) -> int;
pub uninterp spec fn num_flt(f: Flt) -> int;
pub uninterp spec fn flt_num(x: int) -> Flt;
// f is neither infinite nor NaN
pub uninterp spec fn flt_fin(f: Flt) -> bool;
// s is UTF-8
pub uninterp spec fn text_ok(s: Str) -> bool;
pub uninterp spec fn jparse(text: Str) -> J;
// x is what Unmarshal stores in an interface for j
pub uninterp spec fn is_any(x: Iface, j: J) -> bool;
// j is what Marshal writes for x
pub uninterp spec fn is_enc(x: Iface, j: J) -> bool;
// Unmarshal stores the processor list j in s
pub uninterp spec fn is_plist(s: Slice, j: J) -> bool;
pub uninterp spec fn plist_ok(j: J) -> bool;
pub open spec fn jtext(h: H, s: Slice) -> J { jparse(slseq(h.A_uint8, s)) }
// Unmarshal into a string.
pub open spec fn jstring(old: Str, new: Str, ok: bool, j: J) -> bool {
    match j { J::Text(s) => ok && new == s, J::Null => ok && new == old, _ => !ok }
}
pub open spec fn upd<T>(a: Map<int, T>, b: Map<int, T>, p: int) -> bool { forall|q: int| q != p ==> (#[trigger] b[q]) == a[q] }
// (assumed)
pub open spec fn json_facts() -> bool { jparse("{}") == J::Obj(Map::empty()) }
end rust

extern encoding/json.Unmarshal(data, v) (err)
  modifies @C25 C_m_string_jsontext_Value C_string C_pipeline_ConditionalExpressionConfig C_s_pipeline_ProcessorConfig C_m_string_any
  modifies @C21 C_s_p_event_Value C_m_string_p_event_Value C_any
  allocs M_string_jsontext_Value M_string_any A_uint8
  allocs A_p_event_Value M_string_p_event_Value event_Value_Type event_Value_Bool event_Value_Float event_Value_String event_Value_Array event_Value_Object event_Value_Integer event_Value_UnsignedInteger event_Time_UnixNanos
  requires @C25 v is V_p_m_string_jsontext_Value || v is V_p_string || v is V_p_pipeline_ConditionalExpressionConfig || v is V_p_s_pipeline_ProcessorConfig || v is V_p_m_string_any
  ensures @C25 [text that is no JSON document is an error] jtext(h, data) is Bad ==> !(err is Nil)
  ensures @C25 if v is V_p_m_string_jsontext_Value { upd(h.C_m_string_jsontext_Value, h2.C_m_string_jsontext_Value, v->V_p_m_string_jsontext_Value_0) } else { h2.C_m_string_jsontext_Value == h.C_m_string_jsontext_Value }
  ensures @C25 if v is V_p_string { upd(h.C_string, h2.C_string, v->V_p_string_0) } else { h2.C_string == h.C_string }
  ensures @C25 if v is V_p_pipeline_ConditionalExpressionConfig { upd(h.C_pipeline_ConditionalExpressionConfig, h2.C_pipeline_ConditionalExpressionConfig, v->V_p_pipeline_ConditionalExpressionConfig_0) } else { h2.C_pipeline_ConditionalExpressionConfig == h.C_pipeline_ConditionalExpressionConfig }
  ensures @C25 if v is V_p_s_pipeline_ProcessorConfig { upd(h.C_s_pipeline_ProcessorConfig, h2.C_s_pipeline_ProcessorConfig, v->V_p_s_pipeline_ProcessorConfig_0) } else { h2.C_s_pipeline_ProcessorConfig == h.C_s_pipeline_ProcessorConfig }
  ensures @C25 if v is V_p_m_string_any { upd(h.C_m_string_any, h2.C_m_string_any, v->V_p_m_string_any_0) } else { h2.C_m_string_any == h.C_m_string_any }
  ensures @C25 v is V_p_m_string_jsontext_Value ==> { let p = v->V_p_m_string_jsontext_Value_0; let m = h2.C_m_string_jsontext_Value[p]; h.C_m_string_jsontext_Value[p] == 0 ==> match jtext(h, data) {
      J::Obj(o) => err is Nil && m >= h.alloc && h2.M_string_jsontext_Value[m].dom() =~= o.dom() && forall|k: Str| #[trigger] o.dom().contains(k) ==> jtext(h2, h2.M_string_jsontext_Value[m][k]) == o[k],
      J::Null => err is Nil && m == 0, _ => !(err is Nil) } }
  ensures @C25 v is V_p_m_string_any ==> { let p = v->V_p_m_string_any_0; let m = h2.C_m_string_any[p]; h.C_m_string_any[p] == 0 ==> match jtext(h, data) {
      J::Obj(o) => err is Nil && m >= h.alloc && h2.M_string_any[m].dom() =~= o.dom() && forall|k: Str| #[trigger] o.dom().contains(k) ==> is_any(h2.M_string_any[m][k], o[k]),
      J::Null => err is Nil && m == 0, _ => !(err is Nil) } }
  ensures @C25 v is V_p_string ==> { let p = v->V_p_string_0; jstring(h.C_string[p], h2.C_string[p], err is Nil, jtext(h, data)) }
  ensures @C25 v is V_p_pipeline_ConditionalExpressionConfig ==> { let p = v->V_p_pipeline_ConditionalExpressionConfig_0; jstring(h.C_pipeline_ConditionalExpressionConfig[p], h2.C_pipeline_ConditionalExpressionConfig[p], err is Nil, jtext(h, data)) }
  ensures @C25 v is V_p_s_pipeline_ProcessorConfig ==> { let p = v->V_p_s_pipeline_ProcessorConfig_0; h.C_s_pipeline_ProcessorConfig[p] == nil_slice() ==> (err is Nil) == plist_ok(jtext(h, data)) && (err is Nil ==> is_plist(h2.C_s_pipeline_ProcessorConfig[p], jtext(h, data))) }

  requires @C21 nullok(h) && (v is V_p_s_p_event_Value || v is V_p_m_string_p_event_Value || v is V_p_any)
  ensures @C21 [text that is no JSON document is an error] jtext(h, data) is Bad ==> !(err is Nil)
  ensures @C21 if v is V_p_s_p_event_Value { upd(h.C_s_p_event_Value, h2.C_s_p_event_Value, v->V_p_s_p_event_Value_0) } else { h2.C_s_p_event_Value == h.C_s_p_event_Value }
  ensures @C21 if v is V_p_m_string_p_event_Value { upd(h.C_m_string_p_event_Value, h2.C_m_string_p_event_Value, v->V_p_m_string_p_event_Value_0) } else { h2.C_m_string_p_event_Value == h.C_m_string_p_event_Value }
  ensures @C21 if v is V_p_any { upd(h.C_any, h2.C_any, v->V_p_any_0) } else { h2.C_any == h.C_any }
  ensures @C21 v is V_p_any ==> match jtext(h, data) {
      J::Null => err is Nil && h2.C_any[v->V_p_any_0] is Nil, J::Bool(b) => err is Nil && h2.C_any[v->V_p_any_0] == Iface::V_bool(b), J::Text(s) => err is Nil && h2.C_any[v->V_p_any_0] == Iface::V_string(s),
      J::Num(x) => err is Nil && h2.C_any[v->V_p_any_0] == Iface::V_float64(flt_num(x)), _ => true }
  ensures @C21 v is V_p_s_p_event_Value ==> { let p = v->V_p_s_p_event_Value_0; let s = h2.C_s_p_event_Value[p]; h.C_s_p_event_Value[p] == nil_slice() ==> match jtext(h, data) {
      J::Arr(e) => err is Nil && s.r >= h.alloc && s.l == e.len() && forall|i: int| #![trigger slseq(h2.A_p_event_Value, s)[i]] #![trigger e[i]] 0 <= i < e.len() ==> jel(vv(h2), slseq(h2.A_p_event_Value, s)[i], e[i], room(h.alloc, h2.alloc, s.r, 0, 0)),
      J::Null => err is Nil && s == nil_slice(), _ => !(err is Nil) } }
  ensures @C21 v is V_p_m_string_p_event_Value ==> { let p = v->V_p_m_string_p_event_Value_0; let m = h2.C_m_string_p_event_Value[p]; h.C_m_string_p_event_Value[p] == 0 ==> match jtext(h, data) {
      J::Obj(o) => err is Nil && m >= h.alloc && h2.M_string_p_event_Value[m].dom() =~= o.dom() && forall|k: Str| #![trigger o[k]] #![trigger h2.M_string_p_event_Value[m][k]] o.dom().contains(k) ==> jel(vv(h2), h2.M_string_p_event_Value[m][k], o[k], room(h.alloc, h2.alloc, m, 0, 0)),
      J::Null => err is Nil && m == 0, _ => !(err is Nil) } }

extern encoding/json.Marshal(v) (data, err)
  allocs A_uint8
  ensures @C25 err is Nil && v is V_m_string_any ==> jtext(h2, data) is Obj && { let m = h.M_string_any[v->V_m_string_any_0]; let o = jtext(h2, data)->Obj_0; o.dom() =~= m.dom() && forall|k: Str| #![trigger m.dom().contains(k)] #![trigger o[k]] m.dom().contains(k) ==> is_enc(m[k], o[k]) }
  ensures @C21 [null, nil slices and nil maps] v is Nil || v is V_s_p_event_Value && v->V_s_p_event_Value_0.r == 0 || v is V_m_string_p_event_Value && v->V_m_string_p_event_Value_0 == 0 ==> err is Nil && jtext(h2, data) is Null
  ensures @C21 match v {
      Iface::V_bool(b) => err is Nil && jtext(h2, data) == J::Bool(b),
      Iface::V_int64(n) => err is Nil && jtext(h2, data) == J::Num(num_int(n)),
      Iface::V_uint64(n) => err is Nil && jtext(h2, data) == J::Num(num_int(n)),
      Iface::V_float64(f) => (err is Nil) == flt_fin(f) && (err is Nil ==> jtext(h2, data) == J::Num(num_flt(f))),
      Iface::V_string(s) => text_ok(s) ==> err is Nil && jtext(h2, data) == J::Text(s),
      Iface::V_event_Time(t) => err is Nil && jtext(h2, data) == J::Text(rfc3339(t.UnixNanos)),
      _ => true }
  ensures @C21 v is V_s_p_event_Value && v->V_s_p_event_Value_0.r != 0 ==> { let e = slseq(h.A_p_event_Value, v->V_s_p_event_Value_0);
      (forall|i: int| #![trigger e[i]] 0 <= i < e.len() ==> isdoc(vv(h), e[i], below(h.alloc)) && encodable(docof(vv(h), e[i], below(h.alloc)))) ==> err is Nil && jtext(h2, data) == J::Arr(Seq::new(e.len(), |i: int| enc(docof(vv(h), e[i], below(h.alloc))))) }
  ensures @C21 v is V_m_string_p_event_Value && v->V_m_string_p_event_Value_0 != 0 ==> { let f = h.M_string_p_event_Value[v->V_m_string_p_event_Value_0];
      isdocm(vv(h), f, below(h.alloc)) && encodable(Doc::Obj(docsof(vv(h), f, below(h.alloc)))) ==> err is Nil && jtext(h2, data) == enc(Doc::Obj(docsof(vv(h), f, below(h.alloc)))) }
