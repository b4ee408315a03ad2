# Small functions of the standard library that code may come to use. Those
# without a postcondition are pure functions about whose result nothing is
# known.
needs event
import keys

extern strings.Contains(s, sub) (b)
  pure
  ensures sub.len() == 1 ==> b == !no_byte(s, sub[0])
  ensures sub.len() == 0 ==> b
extern strings.ContainsRune(s, r) (b)
  pure
  ensures 0 <= r < 128 ==> b == !no_byte(s, r)
extern strings.ContainsAny(s, chars) (b)
  pure
  ensures chars.len() == 1 && chars[0] < 128 ==> b == !no_byte(s, chars[0])
extern strings.Index(s, sub) (i)
  pure
  ensures sub.len() == 1 && i == -1 ==> no_byte(s, sub[0])
  ensures sub.len() == 1 && i != -1 ==> 0 <= i < s.len() && s[i] == sub[0] && forall|j: int| 0 <= j < i ==> s[j] != sub[0]
extern strings.IndexRune(s, r) (i)
  pure
  ensures 0 <= r < 128 && i == -1 ==> no_byte(s, r)
  ensures 0 <= r < 128 && i != -1 ==> 0 <= i < s.len() && s[i] == r && forall|j: int| 0 <= j < i ==> s[j] != r
extern strings.IndexAny(s, chars) (i)
  pure
  ensures chars.len() == 1 && chars[0] < 128 && i == -1 ==> no_byte(s, chars[0])
  ensures chars.len() == 1 && chars[0] < 128 && i != -1 ==> 0 <= i < s.len() && s[i] == chars[0]
extern strings.Count(s, sub) (n)
  pure
  ensures n >= 0 && (sub.len() == 1 ==> (n == 0) == no_byte(s, sub[0]))
extern strings.Replace(s, old, new, n) (r)
  pure
  ensures old.len() == 1 && n < 0 ==> r == replace_byte(s, old[0], new)
extern strings.HasPrefix(s, p) (b)
  pure
  ensures b == (p.len() <= s.len() && s.subrange(0, p.len() as int) =~= p)
extern strings.HasSuffix(s, p) (b)
  pure
  ensures b == (p.len() <= s.len() && s.subrange(s.len() - p.len(), s.len() as int) =~= p)
extern strings.TrimPrefix(s, p) (r)
  pure
  ensures r =~= if p.len() <= s.len() && s.subrange(0, p.len() as int) =~= p { s.subrange(p.len() as int, s.len() as int) } else { s }
extern strings.TrimSuffix(s, p) (r)
  pure
  ensures r =~= if p.len() <= s.len() && s.subrange(s.len() - p.len(), s.len() as int) =~= p { s.subrange(0, s.len() - p.len()) } else { s }
extern strings.Compare(a, b) (c)
  pure
  ensures (c == 0) == (a == b)
extern strings.EqualFold(a, b) (c)
  pure
  ensures a == b ==> c
extern strings.Join(elems, sep) (s)
  pure
extern strings.Repeat(s, n) (r)
  pure
extern strings.Trim(s, cut) (r)
  pure
extern strings.TrimLeft(s, cut) (r)
  pure
extern strings.TrimRight(s, cut) (r)
  pure
extern strings.Title(s) (r)
  pure
extern strings.ToTitle(s) (r)
  pure
extern strings.ToValidUTF8(s, r) (t)
  pure
extern strings.LastIndex(s, sub) (i)
  pure
  ensures -1 <= i && (i >= 0 ==> i + sub.len() <= s.len())
extern strings.LastIndexByte(s, c) (i)
  pure
  ensures i == -1 ==> no_byte(s, c)
  ensures i != -1 ==> 0 <= i < s.len() && s[i] == c
extern (*strings.Builder).WriteRune(b, r) (n, err)
  noalloc
extern (*strings.Builder).Write(b, p) (n, err)
  noalloc
extern (*strings.Builder).Grow(b, n)
  noalloc
extern (*strings.Builder).Len(b) (n)
  noalloc
  ensures n >= 0
extern (*strings.Builder).Reset(b)
  noalloc
extern strconv.FormatInt(i, base) (s)
  pure
extern strconv.FormatUint(i, base) (s)
  pure
extern strconv.FormatBool(b) (s)
  pure
extern strconv.Quote(s) (q)
  pure
extern fmt.Sprint(a) (s)
  pure
extern fmt.Sprintln(a) (s)
  pure
extern log.Print(v)
  noalloc
extern log.Println(v)
  noalloc
extern unicode/utf8.ValidString(s) (b)
  pure
extern unicode/utf8.RuneCountInString(s) (n)
  pure
  ensures 0 <= n <= s.len()
extern unicode.IsSpace(r) (b)
  pure
extern unicode.IsUpper(r) (b)
  pure
extern unicode.IsLower(r) (b)
  pure
extern unicode.ToUpper(r) (u)
  pure
extern unicode.ToLower(r) (u)
  pure
extern math.IsNaN(f) (b)
  pure
extern math.IsInf(f, sign) (b)
  pure
extern math.Trunc(f) (g)
  pure
extern math.Floor(f) (g)
  pure
extern encoding/json.Valid(data) (b)
  pure
extern (*encoding/json.Encoder).SetIndent(e, prefix, indent)
  noalloc
extern (time.Time).Local(t) (r)
  pure
extern (time.Time).IsZero(t) (b)
  pure
extern (time.Time).Equal(t, u) (b)
  pure
extern (time.Time).Unix(t) (n)
  pure
extern (time.Time).UnixMilli(t) (n)
  pure
extern (time.Time).Nanosecond(t) (n)
  pure
