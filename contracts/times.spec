# Package time.
rust
pub uninterp spec fn time_nanos(t: Opq) -> int;
pub uninterp spec fn time_at(n: int) -> Opq;
pub uninterp spec fn time_utc(t: Opq) -> Opq;
// t in the format of time.RFC3339Nano
pub uninterp spec fn time_text(t: Opq) -> Str;
pub open spec fn rfc3339(n: int) -> Str { time_text(time_utc(time_at(n))) }
end rust
extern (time.Time).UnixNano(t) (n)
  pure
  ensures n == time_nanos(t)
extern time.Unix(sec, nsec) (t)
  pure
  ensures sec == 0 ==> t == time_at(nsec)
extern (time.Time).UTC(t) (r)
  pure
  ensures r == time_utc(t)
extern (time.Time).Format(t, layout) (s)
  pure
  ensures @C21 layout =~= "2006-01-02T15:04:05.999999999Z07:00" ==> s == time_text(t)

