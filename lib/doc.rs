// Values as mathematical documents, whatever represents them in memory.
// Bad stands for a Go value that no event value can represent.
pub enum Doc { Null, Bool(bool), Int(int), Uint(int), Float(Flt), Text(Str), Time(int), Arr(Seq<Doc>), Obj(Map<Str, Doc>), Bad }
// Nothing in d is Bad.
pub open spec fn clean(d: Doc) -> bool
    decreases d
{
    match d {
        Doc::Bad => false,
        Doc::Arr(s) => forall|j: int| 0 <= j < s.len() ==> clean(#[trigger] s[j]),
        Doc::Obj(m) => forall|k: Str| #[trigger] m.dom().contains(k) ==> clean(m[k]),
        _ => true,
    }
}
