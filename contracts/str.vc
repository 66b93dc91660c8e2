// ---- decoding of strings
def hv(c) := c <= '9' ? c - 48 : c <= 'F' ? c - 55 : c - 87
fn hexVal(S Bs, p Int, n Int, acc Int) Int := n <= 0 ? acc : hexVal(S, p+1, n-1, acc*16 + hv(bat(S,p)))
def esch(c) := c == 'b' ? 8 : c == 'f' ? 12 : c == 'n' ? 10 : c == 'r' ? 13 : c == 't' ? 9 : c
def issur(r) := 55296 <= r && r <= 57343
def ishi(r) := 55296 <= r && r <= 56319
def islo(r) := 56320 <= r && r <= 57343
def comb(r, s) := (r - 55296)*1024 + (s - 56320) + 65536
// B followed by the UTF-8 encoding of r, U+FFFD for anything that is no Unicode scalar value
fn utf8(B Bs, r Int) Bs := r < 0 || r > 1114111 || issur(r) ? snoc(snoc(snoc(B, 239), 191), 189)
  : r < 128 ? snoc(B, r) : r < 2048 ? snoc(snoc(B, 192 + r/64), 128 + r%64)
  : r < 65536 ? snoc(snoc(snoc(B, 224 + r/4096), 128 + (r/64)%64), 128 + r%64)
  : snoc(snoc(snoc(snoc(B, 240 + r/262144), 128 + (r/4096)%64), 128 + (r/64)%64), 128 + r%64)
// the bytes denoted by a string body: acc so far, S[p..] up to the closing quote
def pair(S, q, r) := ishi(r) && q + 1 < blen(S) && bat(S,q) == '\\' && bat(S,q+1) == 'u' && hexEnd(S,q+2,4) >= 0 && islo(hexVal(S,q+2,4,0))
fn uniDec(S Bs, q Int, acc Bs, r Int) Bs := pair(S,q,r) ? strDec(S, q+6, utf8(acc, comb(r, hexVal(S,q+2,4,0)))) : strDec(S, q, utf8(acc, r))
fn escDec(S Bs, p Int, acc Bs) Bs := isesc(bat(S,p)) ? strDec(S, p+1, snoc(acc, esch(bat(S,p)))) : uniDec(S, p+5, acc, hexVal(S,p+1,4,0))
fn strDec(S Bs, p Int, acc Bs) Bs := p >= blen(S) || bat(S,p) == '"' ? acc : bat(S,p) == '\\' ? escDec(S, p+1, acc) : strDec(S, p+1, snoc(acc, bat(S,p)))
fn escThen(S Bs, p Int) Int := escEnd(S,p) < 0 ? escEnd(S,p) : strEnd(S, escEnd(S,p))

def p16(n) := n <= 0 ? 1 : n == 1 ? 16 : n == 2 ? 256 : n == 3 ? 4096 : 65536
pool hexv
  inv $p pos, $n int, $v int :: hexVal(it.S, $p, $n, $v) == in(hexVal(it.S, $p, $n, $v)) && 0 <= $v && $v < p16(4 - $n)
  inv $p pos, $n int :: $p + $n == in($p + $n)
  inv $p pos, $k int, $v int :: hexVal(it.S, $p, 4-$k, $v) == in(hexVal(it.S, $p, 4-$k, $v)) && 0 <= $v && $v < p16($k)
  inv $p pos, $k int :: $p - $k == in($p - $k)
func (it *Iterator) readU4() (ret, err)
  pool hex hexv
  flag fuel:2
  ends hexEnd(it.S, pos(it), 4)
  ok ret == hexVal(it.S, old(pos(it)), 4, 0) && pos(it) == old(pos(it)) + 4 && 0 <= ret && ret < 65536

ext utf16.IsSurrogate(r) (ret)
  ensures ret == issur(r)
ext utf16.DecodeRune(r1, r2) (ret)
  ensures ret == (ishi(r1) && islo(r2) ? comb(r1, r2) : 65533)
func appendRune(p, r) (ret)
  alias ret @p
  ensures bytes(ret) == utf8(bytes(p), r)

pool escch
  inv $v int :: 0 <= $v && $v < 65536
  inv $v int, $b bytes :: uniDec(it.S, pos(it), bytes($b), $v) == in(uniDec(it.S, pos(it), bytes($b), $v))
  inv strEnd(it.S, pos(it)) == in(strEnd(it.S, pos(it)))
func (it *Iterator) readEscapedChar(b) (ret, err)
  alias ret @b
  pool escch
  flag fuel:3
  requires inv(it)
  modifies M(it)
  ensures keep(it)
  let e := escThen(it.S, pos(it))
  case ok: err == 0
    ensures strEnd(it.S, pos(it)) == e && pos(it) > old(pos(it)) && strDec(it.S, pos(it), bytes(ret)) == escDec(it.S, old(pos(it)), bytes(b))
  case bad: synErr(err)
    ensures e == -1
  case end: err == eofErr(it)
    ensures e == -2

// loop over the plain part: bytes between head and i are pending
pool strdec
  inv $p pos :: strEnd(it.S, $p) == in(strEnd(it.S, $p))
  inv $p pos, $b bytes :: strDec(it.S, $p, appR(bytes($b), it.S, pos(it), $p)) == in(strDec(it.S, $p, appR(bytes($b), it.S, pos(it), $p)))
  inv $p pos :: strDec(it.S, $p, appR(bempty(), it.S, pos(it), $p)) == in(strDec(it.S, $p, appR(bempty(), it.S, pos(it), $p)))
func (it *Iterator) readStringAsSliceSlow(buf) (ret, err)
  alias ret @buf
  pool strdec
  ends strEnd(it.S, pos(it))
  ok bytes(ret) == strDec(it.S, old(pos(it)), bytes(buf)) && e > old(pos(it))
func (it *Iterator) readStringAsSlice() (ret, err)
  alias ret tmpBuffer
  pool strdec
  ends strEnd(it.S, pos(it))
  modifies it.tmpBuffer
  ok bytes(ret) == strDec(it.S, old(pos(it)), bempty()) && e > old(pos(it))
func (it *Iterator) readString() (ret, err)
  ends strEnd(it.S, pos(it))
  modifies it.tmpBuffer
  ok bytes(ret) == strDec(it.S, old(pos(it)), bempty()) && e > old(pos(it))
def qEnd(S, p) := let t := tok(S,p) in t >= blen(S) ? -2 : bat(S,t) == '"' ? strEnd(S,t+1) : -1
func (it *Iterator) ReadStringAsSlice() (ret, err)
  alias ret tmpBuffer
  props C06 C03 C17
  ends qEnd(it.S, pos(it))
  modifies it.tmpBuffer
  ok bytes(ret) == strDec(it.S, tok(it.S, old(pos(it))) + 1, bempty())
func (it *Iterator) ReadStringAndAppend(buf) (ret, err)
  alias ret @buf
  props C06 C03 C17
  ends qEnd(it.S, pos(it))
  modifies it.tmpBuffer
  ok bytes(ret) == appR(bytes(buf), strDec(it.S, tok(it.S, old(pos(it))) + 1, bempty()), 0, blen(strDec(it.S, tok(it.S, old(pos(it))) + 1, bempty())))
func (it *Iterator) ReadString() (ret, err)
  props C06 C15 C03 C17
  ends qEnd(it.S, pos(it))
  modifies it.tmpBuffer
  ok bytes(ret) == strDec(it.S, tok(it.S, old(pos(it))) + 1, bempty()) && owned(ret)
