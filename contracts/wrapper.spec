# The methods of the event that processors are given: those of the event inside.
# Properties without these contracts inline the functions.
needs event

rust
pub open spec fn inner(h: H, e: int) -> int { h.pipeline_pipelineEvent_data[e] }
end rust

func (*pkg/pipeline.pipelineEvent).Put(e, key, val) (old, err)
  only @C01 @C02
  modifies event_Event_fields M_string_p_event_Value
  requires e != 0 && inner(h, e) != 0
  ensures @C01 [a processor's Put returns the previous value or an error] kpath(key).len() > 0 && val != 0 ==> if blocked(h, inner(h, e), kpath(key)) { err_is(err, glob_event_ErrTargetKeyNotObject()) } else { err is Nil && old == get_at(h, inner(h, e), key) }
  ensures @C01 [what a processor puts is read back] kpath(key).len() > 0 && val != 0 && err is Nil && evtree(h, inner(h, e)) ==> get_at(h2, inner(h, e), key) == val
  ensures @C02 [a processor's Put touches only its field] kpath(key).len() > 0 && val != 0 && err is Nil && evtree(h, inner(h, e)) ==> only_field_changed(h, h2, inner(h, e), kpath(key))
  ensures @C02 [nothing changes on error] !(err is Nil) || val == 0 ==> same_fields(h, h2, inner(h, e))

func (*pkg/pipeline.pipelineEvent).TryPut(e, key, val) (old, err)
  only @C03
  modifies event_Event_fields M_string_p_event_Value
  requires e != 0 && inner(h, e) != 0
  ensures @C03 [an empty key is rejected] kpath(key).len() == 0 ==> old == 0 && err_is(err, glob_event_ErrEmptyKey()) && same_fields(h, h2, inner(h, e))
  ensures @C03 [a processor's TryPut returns and keeps an existing value] kpath(key).len() > 0 && val != 0 && get_at(h, inner(h, e), key) != 0
    ==> old == get_at(h, inner(h, e), key) && err_is(err, glob_event_ErrKeyExists()) && same_fields(h, h2, inner(h, e))
  ensures @C03 [a blocked path is rejected] kpath(key).len() > 0 && val != 0 && get_at(h, inner(h, e), key) == 0 && blocked(h, inner(h, e), kpath(key))
    ==> err_is(err, glob_event_ErrTargetKeyNotObject()) && same_fields(h, h2, inner(h, e))
  ensures @C03 [otherwise TryPut behaves like Put] kpath(key).len() > 0 && val != 0 && get_at(h, inner(h, e), key) == 0 && !blocked(h, inner(h, e), kpath(key))
    ==> err is Nil && old == 0 && (evtree(h, inner(h, e)) ==> get_at(h2, inner(h, e), key) == val)
  ensures @C03 [only the addressed field changes] err is Nil && val != 0 && evtree(h, inner(h, e)) ==> only_field_changed(h, h2, inner(h, e), kpath(key))

func (*pkg/pipeline.pipelineEvent).Get(e, key) (v)
  only @C01
  requires e != 0 && inner(h, e) != 0
  ensures @C01 [a processor's Get returns the value at the key's path] kpath(key).len() > 0 ==> v == get_at(h, inner(h, e), key)

func (*pkg/pipeline.pipelineEvent).Delete(e, key) (v)
  only @C04
  modifies M_string_p_event_Value
  requires e != 0 && inner(h, e) != 0
  ensures @C04 [Delete returns what Get would have returned] kpath(key).len() > 0 ==> v == get_at(h, inner(h, e), key)
  ensures @C04 [a key without segments deletes nothing] kpath(key).len() == 0 ==> v == 0
  ensures @C04 [deleting nothing changes nothing] v == 0 ==> same_fields(h, h2, inner(h, e))
  ensures @C04 [the field is gone] v != 0 && evtree(h, inner(h, e)) ==> get_at(h2, inner(h, e), key) == 0
  ensures @C04 [every other field reads back as before] v != 0 && evtree(h, inner(h, e)) ==> only_field_removed(h, h2, inner(h, e), kpath(key))
