// ---- folded comparison of a key with an ASCII name: byte by byte without case; the long s and the
// Kelvin sign count as s and k
fn letter(c Int) Bool := (65 <= c && c <= 90) || (97 <= c && c <= 122)
fn sameLow(a Int, b Int) Bool := a == b || (letter(a) && letter(b) && (a == b + 32 || b == a + 32))
fn special(a Int, r Int) Bool := (a == 's' || a == 'S') ? r == 383 : (a == 'k' || a == 'K') ? r == 8490 : false
def drop(T, k) := appR(bempty(), T, k, blen(T))
fn eqf(s Bs, i Int, T Bs) Bool := i >= blen(s) ? blen(T) == 0 : blen(T) == 0 ? false
  : bat(T,0) < 128 ? sameLow(bat(s,i), bat(T,0)) && eqf(s, i+1, drop(T,1))
  : special(bat(s,i), uval8(T,0,blen(T))) && eqf(s, i+1, drop(T,ulen(T,0,blen(T))))
fn ascii(s Bs, i Int) Bool := i >= blen(s) ? true : bat(s,i) < 128 && ascii(s, i+1)
fn plain(s Bs, i Int) Bool := i >= blen(s) ? true : bat(s,i) != 's' && bat(s,i) != 'S' && bat(s,i) != 'k' && bat(s,i) != 'K' && plain(s, i+1)
fn letters(s Bs, i Int) Bool := i >= blen(s) ? true : letter(bat(s,i)) && letters(s, i+1)
pool fold
  inv $i int, $p bytes :: eqf(bytes(s), $i+1, bytes($p)) == in(eqf(bytes(s), $i+1, bytes($p)))
  inv $i int :: ascii(bytes(s), $i+1) && $i < len(s)
func equalFoldRight(s, t) (ret)
  props C13
  pool fold
  requires ascii(bytes(s), 0)
  ensures ret == eqf(bytes(s), 0, bytes(t))
fn eqi(s Bs, t Bs, i Int) Bool := i >= blen(s) ? true : sameLow(bat(s,i), bat(t,i)) && eqi(s, t, i+1)
lemma dropSrc(O Bs, X Bs, c Int, p Int, e Int) trigger {appR(O, snoc(X,c), p, e)} induct e down {p} hint {snoc(appR(O,snoc(X,c),p,e-1), bat(snoc(X,c),e-1)), snoc(appR(O,X,p,e-1), bat(X,e-1))} := 0 <= p && e <= blen(X) ==> appR(O, snoc(X,c), p, e) == appR(O, X, p, e)
lemma dropE(T Bs, k Int, e Int, n Int) trigger {appR(bempty(), appR(bempty(),T,k,e), 1, n)} induct e down {k+1} hint {snoc(appR(bempty(),T,k,e-1), bat(T,e-1)), snoc(appR(bempty(),appR(bempty(),T,k,e),1,n-1), bat(appR(bempty(),T,k,e),n-1)), appR(bempty(),appR(bempty(),T,k,e-1),1,n-1), snoc(appR(bempty(),T,k+1,e-1), bat(T,e-1)), appR(bempty(), snoc(appR(bempty(),T,k,e-1), bat(T,e-1)), 1, n-1)} := 0 <= k && k < e && e <= blen(T) && n == e-k ==> appR(bempty(), appR(bempty(),T,k,e), 1, n) == appR(bempty(),T,k+1,e)
lemma dropNext(T Bs, k Int) trigger {drop(T,k)} := 0 <= k && k < blen(T) ==> drop(drop(T,k),1) == drop(T,k+1) && bat(drop(T,k),0) == bat(T,k)
lemma eqfEqi(s Bs, t Bs, i Int) trigger {eqf(s, i, drop(t,i))} induct i up {blen(s)} hint {eqf(s,i+1,drop(t,i+1)), drop(drop(t,i),1)} := 0 <= i && i <= blen(s) && i <= blen(t) && ascii(s,i) && plain(s,i) ==> eqf(s, i, drop(t,i)) == (blen(s) == blen(t) && eqi(s,t,i))
pool foldi
  inv $i int :: eqi(bytes(s), bytes(t), $i+1) == in(eqi(bytes(s), bytes(t), $i+1))
  inv $i int :: ascii(bytes(s), $i+1) && plain(bytes(s), $i+1) && $i < len(s)
  inv $i int :: letters(bytes(s), $i+1)
func asciiEqualFold(s, t) (ret)
  props C13
  theory fold
  pool foldi
  requires ascii(bytes(s), 0) && plain(bytes(s), 0)
  ensures ret == eqf(bytes(s), 0, drop(bytes(t), 0))
func simpleLetterEqualFold(s, t) (ret)
  props C13
  theory fold
  pool foldi
  requires ascii(bytes(s), 0) && plain(bytes(s), 0) && letters(bytes(s), 0)
  ensures ret == eqf(bytes(s), 0, drop(bytes(t), 0))
// the function picked for a name compares as eqf does with that name; names with other characters go to the library
pool foldf
  inv $i int, $n bool :: !$n && letters(bytes(s), $i+1) ==> in(letters(bytes(s), $i+1))
  inv $i int, $n bool :: !$n && plain(bytes(s), $i+1) ==> in(plain(bytes(s), $i+1))
  inv $i int :: ascii(bytes(s), $i+1) == in(ascii(bytes(s), $i+1))
  inv $i int :: $i < len(s)
func foldFunc(s) (ret)
  props C13
  theory fold
  pool foldf
  ensures isfn(ret, "bytes.EqualFold") || ascii(bytes(s), 0)
  ensures isfn(ret, "bytes.EqualFold") || isfn(ret, "equalFoldRight") || plain(bytes(s), 0)
  ensures isfn(ret, "bytes.EqualFold") || isfn(ret, "equalFoldRight") || isfn(ret, "asciiEqualFold") || (isfn(ret, "simpleLetterEqualFold") && letters(bytes(s), 0))
