// ---- choice among fields with one name: sorted by depth, then tags first
ufn sl_field_index(l Int, i Int) Int
ufn sl_field_tagged(l Int, i Int) Bool
ufn sl_field_name(l Int, i Int) Bs
ufn sl_field_typ(l Int, i Int) Int
ufn sl_field_offsets(l Int, i Int) Int
ufn sl_field_nameBytes(l Int, i Int) Bs
ufn sl_field_nameBytesUpper(l Int, i Int) Bs
ufn sl_field_equalFold(l Int, i Int) Int
ufn sl_field_quoted(l Int, i Int) Bool
ufn sl_field_omitEmpty(l Int, i Int) Bool
ufn sl_field_ptrType(l Int, i Int) Int
ufn sl_int(l Int, i Int) Int
readonly field int
func dominantField(fields) (res, ok)
  props C20
  requires len(fields) >= 1
  let clash := len(fields) > 1 && slLen(sl_field_index(fields,0)) == slLen(sl_field_index(fields,1)) && sl_field_tagged(fields,0) == sl_field_tagged(fields,1)
  ensures ok == !clash
  ensures ok ==> res.name == sl_field_name(fields,0)
  ensures ok ==> res.tagged == sl_field_tagged(fields,0) && res.quoted == sl_field_quoted(fields,0) && res.omitEmpty == sl_field_omitEmpty(fields,0) && res.typ == sl_field_typ(fields,0) && listOf(res.offsets) == sl_field_offsets(fields,0)
// order of fields: their index sequences, the shorter one first where one is a prefix of the other
fn lexLt(a Int, b Int, k Int) Bool := k >= slLen(a) ? slLen(a) < slLen(b) : k >= slLen(b) ? false : sl_int(a,k) != sl_int(b,k) ? sl_int(a,k) < sl_int(b,k) : lexLt(a, b, k+1)
pool lex
  inv $k int :: lexLt(sl_field_index(x,i), sl_field_index(x,j), $k+1) == in(lexLt(sl_field_index(x,i), sl_field_index(x,j), $k+1))
  inv $k int :: lexLt(sl_field_index(x,i), sl_field_index(x,j), $k) == in(lexLt(sl_field_index(x,i), sl_field_index(x,j), $k))
  inv $k int :: $k < slLen(sl_field_index(x,i))
  inv $k int :: $k < slLen(sl_field_index(x,j))
func (x byIndex) Less(i, j) (ret)
  props C20
  pool lex
  requires 0 <= i && i < len(x) && 0 <= j && j < len(x) && 0 <= slLen(sl_field_index(x,i)) && 0 <= slLen(sl_field_index(x,j)) && slLen(sl_field_index(x,i)) < 281474976710656 && slLen(sl_field_index(x,j)) < 281474976710656
  ensures ret == lexLt(sl_field_index(x,i), sl_field_index(x,j), 0)
// the order is strict and total up to equality: what sorting needs
lemma lexIrr(a Int, k Int) trigger {lexLt(a,a,k)} induct k up {slLen(a)} := k >= 0 ==> !lexLt(a,a,k)
lemma lexAsym(a Int, b Int, k Int) trigger {lexLt(a,b,k)} induct k up {slLen(a)} := k >= 0 && k <= slLen(a) && k <= slLen(b) ==> !(lexLt(a,b,k) && lexLt(b,a,k))
// which tag names are names: not empty, and every rune a letter, a digit or allowed punctuation
ufn isLet(r Int) Bool
ufn isDig(r Int) Bool
ext unicode.IsLetter(r) (ret)
  ensures ret == isLet(r)
ext unicode.IsDigit(r) (ret)
  ensures ret == isDig(r)
ext strings.ContainsRune(s, r) (ret)
  ensures ret == runeIn(s, r)
def punct(r) := r == '!' || r == '#' || r == '$' || r == '%' || r == '&' || r == '(' || r == ')' || r == '*' || r == '+' || r == '-' || r == '.' || r == '/' || r == ':' || r == '<' || r == '=' || r == '>' || r == '?' || r == '@' || r == '[' || r == ']' || r == '^' || r == '_' || r == '{' || r == '|' || r == '}' || r == '~' || r == ' '
fn tagOk(S Bs, p Int, h Int) Bool := p >= h ? true : (punct(uval8(S,p,h)) || isLet(uval8(S,p,h)) || isDig(uval8(S,p,h))) && tagOk(S, p + ulen(S,p,h), h)
pool tagok
  inv $p int :: tagOk(bytes(s), $p, len(s)) == in(tagOk(bytes(s), $p, len(s)))
  inv $p int :: 0 <= $p && $p <= len(s)
func isValidTag(s) (ret)
  props C20
  pool tagok
  ensures ret == (len(s) > 0 && tagOk(bytes(s), 0, len(s)))
