// ---- reading bytes

func (it *Iterator) readMore() (err)
  props C03 C17
  flag concrete noterm
  pool refill
  rep rep(it)
  requires inv(it) && it.head == it.tail
  modifies M(it)
  ensures keep(it) && pos(it) == old(pos(it))
  case ok: err == 0
    ensures it.head < it.tail
  case end: err == eofErr(it)
    ensures pos(it) == blen(it.S) && it.head == it.tail

func (it *Iterator) nextByte() (ret, err)
  requires inv(it)
  modifies M(it)
  ensures keep(it) && pos(it) == old(pos(it))
  case ok: err == 0
    ensures it.head < it.tail && ret == bat(it.S, pos(it))
  case end: err == eofErr(it)
    ensures pos(it) == blen(it.S) && it.head == it.tail && ret == 0

// whitespace
def isws(c) := c == 32 || c == 9 || c == 10 || c == 13
fn tok(S Bs, p Int) Int := p >= blen(S) ? p : isws(bat(S,p)) ? tok(S, p+1) : p
pool tok
  inv $p pos :: tok(it.S, $p) == in(tok(it.S, $p))
  inv $i int :: tok(it.S, pos(it)+$i+1) == in(tok(it.S, pos(it)+$i+1))
  inv $i int :: $i < it.tail - it.head

func (it *Iterator) nextToken() (ret, err)
  pool tok
  requires inv(it)
  modifies M(it)
  ensures keep(it) && pos(it) == tok(it.S, old(pos(it))) && pos(it) >= old(pos(it))
  case ok: err == 0
    ensures it.head < it.tail && ret == bat(it.S, pos(it)) && !isws(ret)
  case end: err == eofErr(it)
    ensures pos(it) == blen(it.S) && ret == 0

// literal bytes: s[j..] must appear at p
fn lit(S Bs, p Int, s Bs, j Int) Int := p >= blen(S) ? -2 : bat(S,p) != bat(s,j) ? -1 : j + 1 >= blen(s) ? p+1 : lit(S, p+1, s, j+1)
pool lit
  inv $p pos, $j int :: lit(it.S, $p, bytes(s), $j) == in(lit(it.S, $p, bytes(s), $j)) && 0 <= $j && $j < len(s)
  inv $p pos, $j int :: 0 <= $j && $j <= len(s) && ($j < len(s) ==> lit(it.S, $p, bytes(s), $j) == in(lit(it.S, $p, bytes(s), $j))) && ($j == len(s) ==> $p == in(lit(it.S, $p, bytes(s), $j)) && $p > in($p))

func (it *Iterator) expectBytes(s) (err)
  pool lit
  requires inv(it) && len(s) >= 1
  modifies M(it)
  ensures keep(it)
  let e := lit(it.S, pos(it), bytes(s), 0)
  case ok: err == 0
    ensures pos(it) == e && e > old(pos(it))
  case bad: synErr(err)
    ensures e == -1
  case end: err == eofErr(it)
    ensures e == -2

// ---- strings

def ishex(c) := ('0' <= c && c <= '9') || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F')
def isesc(c) := c == '"' || c == '\\' || c == '/' || c == 'b' || c == 'f' || c == 'n' || c == 'r' || c == 't'
fn hexEnd(S Bs, p Int, n Int) Int := p >= blen(S) ? -2 : !ishex(bat(S,p)) ? -1 : n <= 1 ? p+1 : hexEnd(S, p+1, n-1)
fn escEnd(S Bs, p Int) Int := p >= blen(S) ? -2 : isesc(bat(S,p)) ? p+1 : bat(S,p) == 'u' ? hexEnd(S, p+1, 4) : -1
fn strEnd(S Bs, p Int) Int := p >= blen(S) ? -2 : bat(S,p) == '"' ? p+1
  : bat(S,p) == '\\' ? (escEnd(S,p+1) < 0 ? escEnd(S,p+1) : strEnd(S, escEnd(S,p+1)))
  : bat(S,p) < 32 ? -1 : strEnd(S, p+1)

pool hex
  inv $p pos, $n int :: hexEnd(it.S, $p, $n) == in(hexEnd(it.S, $p, $n)) && 1 <= $n && $n <= 4
  inv $p pos, $n int :: 0 <= $n && $n <= 4 && ($n > 0 ==> hexEnd(it.S, $p, $n) == in(hexEnd(it.S, $p, $n))) && ($n == 0 ==> $p == in(hexEnd(it.S, $p, $n)))
  inv $p pos, $k int :: 0 <= $k && $k <= 4 && ($k < 4 ==> hexEnd(it.S, $p, 4-$k) == in(hexEnd(it.S, $p, 4-$k))) && ($k == 4 ==> $p == in(hexEnd(it.S, $p, 4-$k)))
  inv $p pos, $n int :: $p + $n == in($p + $n)
  inv $p pos, $k int :: $p - $k == in($p - $k)

func (it *Iterator) skipU4() (err)
  pool hex
  requires inv(it)
  modifies M(it)
  ensures keep(it)
  let e := hexEnd(it.S, pos(it), 4)
  case ok: err == 0
    ensures pos(it) == e && e > old(pos(it))
  case bad: synErr(err)
    ensures e == -1
  case end: err == eofErr(it)
    ensures e == -2

func (it *Iterator) skipEscapedChar() (err)
  requires inv(it)
  modifies M(it)
  ensures keep(it)
  let e := escEnd(it.S, pos(it))
  case ok: err == 0
    ensures pos(it) == e && e > old(pos(it))
  case bad: synErr(err)
    ensures e == -1
  case end: err == eofErr(it)
    ensures e == -2

pool str
  inv $p pos :: strEnd(it.S, $p) == in(strEnd(it.S, $p))

func skipString(it, c) (err)
  pool str
  props C01 C02 C03 C17
  requires inv(it)
  modifies M(it)
  ensures keep(it)
  let e := strEnd(it.S, pos(it))
  case ok: err == 0
    ensures pos(it) == e && e > old(pos(it))
  case bad: synErr(err)
    ensures e == -1
  case end: err == eofErr(it)
    ensures e == -2
