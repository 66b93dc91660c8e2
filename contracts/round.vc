lemmas C05 C07
// ---- encoding then decoding a string gives it back, ill-formed bytes replaced
// acc followed by T[p..h) with every ill-formed byte replaced by U+FFFD
fn san(acc Bs, T Bs, p Int, h Int) Bs := p >= h ? acc : bat(T,p) < 128 ? san(snoc(acc, bat(T,p)), T, p+1, h)
  : ulen(T,p,h) == 1 ? san(snoc(snoc2(acc, 239, 191), 189), T, p+1, h)
  : ulen(T,p,h) == 2 ? san(snoc2(acc, bat(T,p), bat(T,p+1)), T, p+2, h)
  : ulen(T,p,h) == 3 ? san(snoc(snoc2(acc, bat(T,p), bat(T,p+1)), bat(T,p+2)), T, p+3, h)
  : san(snoc2(snoc2(acc, bat(T,p), bat(T,p+1)), bat(T,p+2), bat(T,p+3)), T, p+4, h)

// what is written is not changed by what follows
ufn cnt(n Int) Int
lemma escLenN(B Bs, T Bs, p Int, h Int, html Int, n Int) trigger {esc(B,T,p,h,html), cnt(n)} induct n down {0} hint {cnt(n-1)} := 
  h - p < n ==> blen(esc(B,T,p,h,html)) > blen(B)
lemma escLen(B Bs, T Bs, p Int, h Int, html Int) trigger {esc(B,T,p,h,html)} hint {cnt(h-p+1)} := blen(esc(B,T,p,h,html)) > blen(B)
lemma escPreN(B Bs, T Bs, p Int, h Int, html Int, i Int, n Int) trigger {bat(esc(B,T,p,h,html), i), cnt(n)} induct n down {0} hint {cnt(n-1)} := 
  h - p < n && 0 <= i && i < blen(B) ==> bat(esc(B,T,p,h,html), i) == bat(B,i)
lemma escPre(B Bs, T Bs, p Int, h Int, html Int, i Int) trigger {bat(esc(B,T,p,h,html), i)} hint {cnt(h-p+1)} := 0 <= i && i < blen(B) ==> bat(esc(B,T,p,h,html), i) == bat(B,i)
// one step of the decoder on the three kinds of output
ufn mk1(E Bs, b Int, acc Bs) Int
ufn mk2(E Bs, b Int, acc Bs) Int
ufn mk4(E Bs, b Int, acc Bs) Int
lemma dec1(E Bs, b Int, acc Bs) trigger {mk1(E,b,acc)} := 0 <= b && b < blen(E) && bat(E,b) >= 32 && bat(E,b) != '"' && bat(E,b) != '\\' ==> 
  strDec(E,b,acc) == strDec(E,b+1,snoc(acc,bat(E,b))) && strEnd(E,b) == strEnd(E,b+1)
lemma dec2(E Bs, b Int, acc Bs) trigger {mk2(E,b,acc)} hint {escDec(E,b+1,acc), escEnd(E,b+1)} := 0 <= b && b+1 < blen(E) && bat(E,b) == '\\' && isesc(bat(E,b+1)) ==> 
  strDec(E,b,acc) == strDec(E,b+2,snoc(acc,esch(bat(E,b+1)))) && strEnd(E,b) == strEnd(E,b+2)
def h4(E, q) := ((hv(bat(E,q))*16 + hv(bat(E,q+1)))*16 + hv(bat(E,q+2)))*16 + hv(bat(E,q+3))
lemma dec4(E Bs, b Int, acc Bs) trigger {mk4(E,b,acc)} hint {escDec(E,b+1,acc), escEnd(E,b+1), hexEnd(E,b+2,4), hexEnd(E,b+3,3), hexEnd(E,b+4,2), hexEnd(E,b+5,1), hexVal(E,b+2,4,0), uniDec(E,b+6,acc,h4(E,b+2))} step {hexEnd(E,b+2,4) == b+6} step {hexVal(E,b+2,4,0) == hexVal(E,b+3,3,hv(bat(E,b+2)))} step {hexVal(E,b+2,4,0) == hexVal(E,b+4,2,hv(bat(E,b+2))*16+hv(bat(E,b+3)))} step {hexVal(E,b+2,4,0) == hexVal(E,b+5,1,(hv(bat(E,b+2))*16+hv(bat(E,b+3)))*16+hv(bat(E,b+4)))} step {hexVal(E,b+2,4,0) == hexVal(E,b+6,0,h4(E,b+2))} step {hexVal(E,b+2,4,0) == h4(E,b+2)} :=
  0 <= b && b+5 < blen(E) && bat(E,b) == '\\' && bat(E,b+1) == 'u' && ishex(bat(E,b+2)) && ishex(bat(E,b+3)) && ishex(bat(E,b+4)) && ishex(bat(E,b+5)) && !ishi(h4(E,b+2)) ==> 
  strDec(E,b,acc) == strDec(E,b+6,utf8(acc,h4(E,b+2))) && strEnd(E,b) == strEnd(E,b+6)
lemma escRoundN(B Bs, T Bs, p Int, h Int, html Int, b Int, acc Bs, n Int) trigger {strDec(esc(B,T,p,h,html), b, acc), cnt(n)} induct n down {0} hint {cnt(n-1), mk1(esc(B,T,p,h,html),b,acc), mk2(esc(B,T,p,h,html),b,acc), mk4(esc(B,T,p,h,html),b,acc), mk1(esc(B,T,p,h,html),b+1,snoc(acc,bat(T,p))), mk1(esc(B,T,p,h,html),b+2,snoc2(acc,bat(T,p),bat(T,p+1))), mk1(esc(B,T,p,h,html),b+3,snoc(snoc2(acc,bat(T,p),bat(T,p+1)),bat(T,p+2))), bat(esc(B,T,p,h,html),b), bat(esc(B,T,p,h,html),b+1), bat(esc(B,T,p,h,html),b+2), bat(esc(B,T,p,h,html),b+3), bat(esc(B,T,p,h,html),b+4), bat(esc(B,T,p,h,html),b+5), bat(esc(B,T,p,h,html),b+6), ulen(T,p,h), utf8(acc,65533), utf8(acc,bat(T,p)), utf8(acc,8232), utf8(acc,8233), san(acc,T,p,h)} step {p >= h ==> strEnd(esc(B,T,p,h,html),b) == blen(esc(B,T,p,h,html)) && strDec(esc(B,T,p,h,html),b,acc) == acc} step {p < h && bat(T,p) < 128 ==> strEnd(esc(B,T,p,h,html),b) == blen(esc(B,T,p,h,html)) && strDec(esc(B,T,p,h,html),b,acc) == san(snoc(acc,bat(T,p)),T,p+1,h)} step {p < h && bat(T,p) >= 128 && ulen(T,p,h) == 1 ==> strEnd(esc(B,T,p,h,html),b) == blen(esc(B,T,p,h,html)) && strDec(esc(B,T,p,h,html),b,acc) == san(acc,T,p,h)} step {p < h && bat(T,p) >= 128 && ulen(T,p,h) == 2 ==> strEnd(esc(B,T,p,h,html),b) == blen(esc(B,T,p,h,html)) && strDec(esc(B,T,p,h,html),b,acc) == san(acc,T,p,h)} step {p < h && bat(T,p) >= 128 && ulen(T,p,h) == 3 ==> strEnd(esc(B,T,p,h,html),b) == blen(esc(B,T,p,h,html)) && strDec(esc(B,T,p,h,html),b,acc) == san(acc,T,p,h)} step {p < h && bat(T,p) >= 128 && ulen(T,p,h) == 4 ==> strEnd(esc(B,T,p,h,html),b) == blen(esc(B,T,p,h,html)) && strDec(esc(B,T,p,h,html),b,acc) == san(acc,T,p,h)} := h - p < n && b == blen(B) && (html == 1 || html == 2) ==> strEnd(esc(B,T,p,h,html),b) == blen(esc(B,T,p,h,html)) && strDec(esc(B,T,p,h,html),b,acc) == san(acc,T,p,h)
lemma escRound(B Bs, T Bs, h Int, html Int) trigger {esc(snoc(B,'"'),T,0,h,html)} hint {cnt(h+1), strDec(esc(snoc(B,'"'),T,0,h,html), blen(B)+1, bempty())} := (html == 1 || html == 2) ==> bat(esc(snoc(B,'"'),T,0,h,html), blen(B)) == '"' && strEnd(esc(snoc(B,'"'),T,0,h,html), blen(B)+1) == blen(esc(snoc(B,'"'),T,0,h,html)) && strDec(esc(snoc(B,'"'),T,0,h,html), blen(B)+1, bempty()) == san(bempty(),T,0,h)
// with HTML escaping none of <, >, & is written; a raw U+2028 or U+2029 never
def plainHtml(c) := c != '<' && c != '>' && c != '&'
lemma escHtmlN(B Bs, T Bs, p Int, h Int, i Int, n Int) trigger {bat(esc(B,T,p,h,2), i), cnt(n)} induct n down {0} hint {cnt(n-1), bat(B,i), ulen(T,p,h)} step {p < h && bat(T,p) < 128 && i < blen(escA(B,bat(T,p),2)) ==> bat(esc(B,T,p,h,2),i) == bat(escA(B,bat(T,p),2),i)} step {p < h && bat(T,p) < 128 && i >= blen(escA(B,bat(T,p),2)) ==> plainHtml(bat(esc(B,T,p,h,2),i))} step {p < h && bat(T,p) >= 128 ==> plainHtml(bat(esc(B,T,p,h,2),i))} := h - p < n && blen(B) <= i && i < blen(esc(B,T,p,h,2)) ==> plainHtml(bat(esc(B,T,p,h,2),i))
// formatting then parsing an integer
lemma uvalSnoc(X Bs, d Int, p Int, acc Int) trigger {uval(snoc(X,d),p,acc)} induct p up {blen(X)} hint {uval(X,p,acc), uend(X,p), uval(snoc(X,d),p+1,acc*10+(d-48))} := isdig(d) && 0 <= p && p <= blen(X) && uend(X,p) == blen(X) ==> uval(snoc(X,d),p,acc) == uval(X,p,acc)*10 + (d - 48)
lemma uendSnoc(X Bs, d Int, p Int) trigger {uend(snoc(X,d),p)} induct p up {blen(X)} hint {uend(X,p), uend(snoc(X,d),blen(X)+1)} := isdig(d) && 0 <= p && p <= blen(X) && uend(X,p) == blen(X) ==> uend(snoc(X,d),p) == blen(X) + 1
lemma decLen(B Bs, v Int, n Int) trigger {dec(B,v), cnt(n)} induct n down {0} hint {cnt(n-1), dec(B,v/10)} := 0 <= v && v < n ==> blen(dec(B,v)) > blen(B)
lemma decRoundN(B Bs, v Int, n Int) trigger {dec(B,v), cnt(n)} induct n down {0} hint {cnt(n-1), dec(B,v/10), uend(B,blen(B)), uval(B,blen(B),0), uend(dec(B,v/10),blen(B)), uval(dec(B,v/10),blen(B),0)} := 0 <= v && v < n ==> uend(dec(B,v),blen(B)) == blen(dec(B,v)) && uval(dec(B,v),blen(B),0) == v
