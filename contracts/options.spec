# Options of processors in JSON: id, if and on_failure have fields of their own,
# every other member is a setting.
needs json

rust
pub open spec fn special(k: Str) -> bool { k =~= "id" || k =~= "if" || k =~= "on_failure" }
// Member k of o: Null if there is none.
pub open spec fn member(o: Map<Str, J>, k: Str) -> J { if o.dom().contains(k) { o[k] } else { J::Null } }
pub open spec fn textual(j: J) -> bool { j is Text || j is Null }
pub open spec fn textof(j: J) -> Str { match j { J::Text(s) => s, _ => Seq::empty() } }
pub open spec fn settings_in(o: Map<Str, J>) -> bool { exists|k: Str| #[trigger] o.dom().contains(k) && !special(k) }
// Options that can be decoded.
pub open spec fn optobj(j: J) -> bool {
    j is Obj && textual(member(j->Obj_0, "id")) && textual(member(j->Obj_0, "if")) && (j->Obj_0.dom().contains("on_failure") ==> plist_ok(j->Obj_0["on_failure"]))
}
end rust

func (*pkg/pipeline.ProcessorOptionConfig).UnmarshalJSON(c, data) (err)
  requires c != 0 && h.pipeline_ProcessorOptionConfig_ID[c].len() == 0 && h.pipeline_ProcessorOptionConfig_If[c].len() == 0 && h.pipeline_ProcessorOptionConfig_OnFailure[c] == nil_slice()
  modifies pipeline_ProcessorOptionConfig_ID pipeline_ProcessorOptionConfig_If pipeline_ProcessorOptionConfig_OnFailure pipeline_ProcessorOptionConfig_Config
  ensures @C25 [options that are well-formed are decoded, others are an error] (err is Nil) == (jtext(h, data) is Null || optobj(jtext(h, data)))
  ensures @C25 [id and if have fields of their own] err is Nil && jtext(h, data) is Obj ==> h2.pipeline_ProcessorOptionConfig_ID[c] =~= textof(member(jtext(h, data)->Obj_0, "id")) && h2.pipeline_ProcessorOptionConfig_If[c] =~= textof(member(jtext(h, data)->Obj_0, "if"))
  ensures @C25 [so has on_failure] err is Nil && jtext(h, data) is Obj ==> if jtext(h, data)->Obj_0.dom().contains("on_failure") { is_plist(h2.pipeline_ProcessorOptionConfig_OnFailure[c], jtext(h, data)->Obj_0["on_failure"]) } else { h2.pipeline_ProcessorOptionConfig_OnFailure[c] == nil_slice() }
  ensures @C25 [every other member is a setting, and nothing else is] err is Nil && jtext(h, data) is Obj && (h.pipeline_ProcessorOptionConfig_Config[c] == 0 || settings_in(jtext(h, data)->Obj_0)) ==> { let o = jtext(h, data)->Obj_0; let s = h2.M_string_any[h2.pipeline_ProcessorOptionConfig_Config[c]];
      (forall|k: Str| #[trigger] s.dom().contains(k) == (o.dom().contains(k) && !special(k))) && (forall|k: Str| #[trigger] s.dom().contains(k) ==> is_any(s[k], o[k])) }
  ensures @C25 [null leaves the options as they are] err is Nil && jtext(h, data) is Null ==> h2.pipeline_ProcessorOptionConfig_Config[c] == h.pipeline_ProcessorOptionConfig_Config[c] && h2.pipeline_ProcessorOptionConfig_OnFailure[c] == nil_slice() && h2.pipeline_ProcessorOptionConfig_ID[c].len() == 0 && h2.pipeline_ProcessorOptionConfig_If[c].len() == 0
  hint assert("id"[1] != "if"[1]); assert("id".len() != "on_failure".len()); assert("if".len() != "on_failure".len());
  hint if in_settings && jtext(h, data) is Obj { let o = jtext(h, data)->Obj_0; assert forall|k: Str| #[trigger] o.dom().contains(k) && !special(k) implies settings_all.contains(k) by {}; assert forall|k: Str| #[trigger] settings_all.contains(k) && !special(k) implies o.dom().contains(k) by {}; assert(settings_all =~= Set::empty() ==> !settings_in(o)); assert(settings_all =~= Set::empty() || settings_done =~= settings_all);
    if h_settings.M_string_any[settings_to].dom() =~= Set::empty() && settings_to >= h.alloc { assert forall|k: Str| #[trigger] o.dom().contains(k) implies special(k) by { assert(h_settings.M_string_any[settings_to].dom().contains(k) == (settings_done.contains(k) && !special(k))); } } }
  hint if !in_settings && err is Nil && jtext(h, data) is Obj && did_Unmarshal && Unmarshal_v is V_p_m_string_any { let o = jtext(h, data)->Obj_0; let raw = Unmarshal_h2.C_m_string_any[Unmarshal_v->V_p_m_string_any_0];
    if h2.pipeline_ProcessorOptionConfig_Config[c] == raw || h2.pipeline_ProcessorOptionConfig_Config[c] == h.pipeline_ProcessorOptionConfig_Config[c] { assert forall|k: Str| #[trigger] h2.M_string_any[raw].dom().contains(k) == (o.dom().contains(k) && !special(k)) by {}
      if h2.M_string_any[raw] =~= Map::<Str, Iface>::empty() { assert forall|k: Str| #[trigger] o.dom().contains(k) implies special(k) by { assert(!h2.M_string_any[raw].dom().contains(k)); } assert(!settings_in(o)); } } }
  loop settings(set done, dom all, map src, mvar to map[string]interface{} = h.pipeline_ProcessorOptionConfig_Config[c])
    invariant done.subset_of(all) && h.M_string_any[src].dom() =~= all && h.M_string_any[src] == hl.M_string_any[src] && (src == 0 || src >= h0.alloc)
    invariant h.pipeline_ProcessorOptionConfig_Config[c] == hl.pipeline_ProcessorOptionConfig_Config[c] && (all =~= Set::empty() || to == 0 || to >= h0.alloc && to != src)
    invariant all =~= Set::empty() && to != 0 && to < h0.alloc || (forall|k: Str| #[trigger] h.M_string_any[to].dom().contains(k) == (done.contains(k) && !special(k))) && forall|k: Str| #[trigger] h.M_string_any[to].dom().contains(k) ==> h.M_string_any[to][k] == hl.M_string_any[src][k]

func (pkg/pipeline.ProcessorOptionConfig).MarshalJSON(c) (out, err)
  ensures @C25 [every setting and every special field that is set is written, nothing else] err is Nil ==> jtext(h2, out) is Obj && { let o = jtext(h2, out)->Obj_0; let s = h.M_string_any[c.Config];
      forall|k: Str| #[trigger] o.dom().contains(k) == (s.dom().contains(k) || k =~= "id" && c.ID.len() > 0 || k =~= "if" && c.If.len() > 0 || k =~= "on_failure" && c.OnFailure.l > 0) }
  ensures @C25 [settings keep their names and values] err is Nil ==> { let o = jtext(h2, out)->Obj_0; let s = h.M_string_any[c.Config]; forall|k: Str| #[trigger] s.dom().contains(k) ==> is_enc(s[k], o[k]) }
  ensures @C25 [id keeps its value] err is Nil && c.ID.len() > 0 && !h.M_string_any[c.Config].dom().contains("id") ==> is_enc(Iface::V_string(c.ID), jtext(h2, out)->Obj_0["id"])
  ensures @C25 [if keeps its value] err is Nil && c.If.len() > 0 && !h.M_string_any[c.Config].dom().contains("if") ==> is_enc(Iface::V_pipeline_ConditionalExpressionConfig(c.If), jtext(h2, out)->Obj_0["if"])
  ensures @C25 [on_failure keeps its value] err is Nil && c.OnFailure.l > 0 && !h.M_string_any[c.Config].dom().contains("on_failure") ==> is_enc(Iface::V_s_pipeline_ProcessorConfig(c.OnFailure), jtext(h2, out)->Obj_0["on_failure"])
  loop settings(set done, dom all, var data map[string]interface{})
    invariant done.subset_of(all) && all =~= h0.M_string_any[c.Config].dom() && data >= h0.alloc
    invariant h.M_string_any[data].dom() =~= hl.M_string_any[data].dom().union(done) && forall|k: Str| #[trigger] h.M_string_any[data].dom().contains(k) ==> h.M_string_any[data][k] == (if done.contains(k) { h0.M_string_any[c.Config][k] } else { hl.M_string_any[data][k] })
    invariant data != c.Config && (c.ID.len() > 0 && !h0.M_string_any[c.Config].dom().contains("id") ==> h.M_string_any[data].dom().contains("id") && h.M_string_any[data]["id"] == Iface::V_string(c.ID))
    invariant c.If.len() > 0 && !h0.M_string_any[c.Config].dom().contains("if") ==> h.M_string_any[data].dom().contains("if") && h.M_string_any[data]["if"] == Iface::V_pipeline_ConditionalExpressionConfig(c.If)
    invariant c.OnFailure.l > 0 && !h0.M_string_any[c.Config].dom().contains("on_failure") ==> h.M_string_any[data].dom().contains("on_failure") && h.M_string_any[data]["on_failure"] == Iface::V_s_pipeline_ProcessorConfig(c.OnFailure)
    hint loop: assert("id"[1] != "if"[1]); assert("id".len() != "on_failure".len()); assert("if".len() != "on_failure".len());
