needs event
import keys

extern strings.IndexByte(s, c) (i)
  pure
  ensures i == -1 ==> forall|j: int| 0 <= j < s.len() ==> s[j] != c
  ensures i != -1 ==> 0 <= i < s.len() && s[i] == c && forall|j: int| 0 <= j < i ==> s[j] != c

extern strings.ReplaceAll(s, old, new) (r)
  pure
  ensures old.len() == 1 ==> r == replace_byte(s, old[0], new)

func pkg/eventutil.EscapeKey(key) (r)
  ensures @C06 [the escaped key addresses exactly the name] key.len() > 0 && no_byte(key, bs()) ==> kpath(r) =~= seq![key]
  ensures @C06 [names without dots are unchanged] no_byte(key, dot()) ==> r == key
  hint lemma_escape(key); lemma_plain(key);
