// ---- integers: mathematical value of a digit string
fn uval(S Bs, p Int, acc Int) Int := p >= blen(S) ? acc : isdig(bat(S,p)) ? uval(S, p+1, acc*10 + (bat(S,p) - 48)) : acc
fn uend(S Bs, p Int) Int := p >= blen(S) ? p : isdig(bat(S,p)) ? uend(S, p+1) : p
lemma uvalMono(S Bs, p Int, acc Int) trigger {uval(S,p,acc)} induct p up {blen(S)} := 0 <= acc ==> uval(S,p,acc) >= acc
def p10(n) := n <= 0 ? 1 : n == 1 ? 10 : n == 2 ? 100 : n == 3 ? 1000 : n == 4 ? 10000 : n == 5 ? 100000 : n == 6 ? 1000000 : n == 7 ? 10000000
  : n == 8 ? 100000000 : n == 9 ? 1000000000 : n == 10 ? 10000000000 : n == 11 ? 100000000000 : n == 12 ? 1000000000000 : n == 13 ? 10000000000000
  : n == 14 ? 100000000000000 : n == 15 ? 1000000000000000 : n == 16 ? 10000000000000000 : n == 17 ? 100000000000000000
  : n == 18 ? 1000000000000000000 : n == 19 ? 10000000000000000000 : 100000000000000000000
pool uint
  inv $v int, $p pos :: uval(it.S, $p, $v) == in(uval(it.S, $p, $v))
  inv $p pos :: uend(it.S, $p) == in(uend(it.S, $p))
  inv $v int, $n int :: 0 <= $v && 1 <= $n && $v < p10($n)
  inv $n int, $p pos :: $n <= 1 + $p - old(pos(it))
// value and end of the integer literal whose first character c is consumed
def uvalC(S, p, c) := c == '0' ? 0 : uval(S, p, c - 48)
def uendC(S, p, c) := c == '0' ? p : uend(S, p)
def uLit(it, p, c, ret, err, max) := (err == 0 ==> isdig(c) && ret == uvalC(it.S, p, c) && pos(it) == uendC(it.S, p, c) && ret <= max)
  && (err != 0 ==> (synErr(err) && (!isdig(c) || uvalC(it.S, p, c) > max)) || (err == eofErr(it) && it.rd != 0 && c != '0' && uend(it.S, p) == blen(it.S)))
def nLit(it, p, ret, err, max) := (err == 0 ==> p < blen(it.S) && isdig(bat(it.S,p)) && ret == -uvalC(it.S, p+1, bat(it.S,p)) && pos(it) == uendC(it.S, p+1, bat(it.S,p)) && ret >= -max - 1)
  && (err != 0 ==> (err == eofErr(it) && p >= blen(it.S)) || (synErr(err) && p < blen(it.S) && (!isdig(bat(it.S,p)) || uvalC(it.S, p+1, bat(it.S,p)) > max + 1))
     || (err == eofErr(it) && it.rd != 0 && p < blen(it.S) && bat(it.S,p) != '0' && uend(it.S, p+1) == blen(it.S)))
def sLit(it, p, c, ret, err, max) := c == '-' ? nLit(it, p, ret, err, max) : uLit(it, p, c, ret, err, max)
def uTok(it, p, ret, err, max) := let t := tok(it.S, p) in t >= blen(it.S) ? err == eofErr(it) : uLit(it, t+1, bat(it.S,t), ret, err, max)
def sTok(it, p, ret, err, max) := let t := tok(it.S, p) in t >= blen(it.S) ? err == eofErr(it) : sLit(it, t+1, bat(it.S,t), ret, err, max)

func (it *Iterator) readUint64(c) (ret, err)
  pool uint
  theory int
  requires inv(it)
  modifies M(it)
  ensures keep(it) && pos(it) >= old(pos(it))
  ensures uLit(it, old(pos(it)), c, ret, err, 18446744073709551615)
func (it *Iterator) readUint32(c) (ret, err)
  pool uint
  theory int
  requires inv(it)
  modifies M(it)
  ensures keep(it) && pos(it) >= old(pos(it))
  ensures uLit(it, old(pos(it)), c, ret, err, 4294967295)
func (it *Iterator) readUint16(c) (ret, err)
  pool uint
  theory int
  requires inv(it)
  modifies M(it)
  ensures keep(it) && pos(it) >= old(pos(it))
  ensures uLit(it, old(pos(it)), c, ret, err, 65535)
func (it *Iterator) readUint8(c) (ret, err)
  pool uint
  flag fuel:4
  theory int
  requires inv(it)
  modifies M(it)
  ensures keep(it) && pos(it) >= old(pos(it))
  ensures uLit(it, old(pos(it)), c, ret, err, 255)
func (it *Iterator) readInt64(c) (ret, err)
  requires inv(it)
  modifies M(it)
  ensures keep(it) && pos(it) >= old(pos(it))
  ensures sLit(it, old(pos(it)), c, ret, err, 9223372036854775807)
func (it *Iterator) readInt32(c) (ret, err)
  requires inv(it)
  modifies M(it)
  ensures keep(it) && pos(it) >= old(pos(it))
  ensures sLit(it, old(pos(it)), c, ret, err, 2147483647)
func (it *Iterator) readInt16(c) (ret, err)
  requires inv(it)
  modifies M(it)
  ensures keep(it) && pos(it) >= old(pos(it))
  ensures sLit(it, old(pos(it)), c, ret, err, 32767)
func (it *Iterator) readInt8(c) (ret, err)
  requires inv(it)
  modifies M(it)
  ensures keep(it) && pos(it) >= old(pos(it))
  ensures sLit(it, old(pos(it)), c, ret, err, 127)
func (it *Iterator) ReadUint64() (ret, err)
  props C04 C03 C17
  requires inv(it)
  modifies M(it)
  ensures keep(it)
  ensures uTok(it, old(pos(it)), ret, err, 18446744073709551615)
func (it *Iterator) ReadInt64() (ret, err)
  props C04 C03 C17
  requires inv(it)
  modifies M(it)
  ensures keep(it)
  ensures sTok(it, old(pos(it)), ret, err, 9223372036854775807)
func (it *Iterator) ReadUint32() (ret, err)
  props C04 C03 C17
  requires inv(it)
  modifies M(it)
  ensures keep(it)
  ensures uTok(it, old(pos(it)), ret, err, 4294967295)
func (it *Iterator) ReadInt32() (ret, err)
  props C04 C03 C17
  requires inv(it)
  modifies M(it)
  ensures keep(it)
  ensures sTok(it, old(pos(it)), ret, err, 2147483647)
func (it *Iterator) ReadUint16() (ret, err)
  props C04 C03 C17
  requires inv(it)
  modifies M(it)
  ensures keep(it)
  ensures uTok(it, old(pos(it)), ret, err, 65535)
func (it *Iterator) ReadInt16() (ret, err)
  props C04 C03 C17
  requires inv(it)
  modifies M(it)
  ensures keep(it)
  ensures sTok(it, old(pos(it)), ret, err, 32767)
func (it *Iterator) ReadUint8() (ret, err)
  props C04 C03 C17
  requires inv(it)
  modifies M(it)
  ensures keep(it)
  ensures uTok(it, old(pos(it)), ret, err, 255)
func (it *Iterator) ReadInt8() (ret, err)
  props C04 C03 C17
  requires inv(it)
  modifies M(it)
  ensures keep(it)
  ensures sTok(it, old(pos(it)), ret, err, 127)
func (it *Iterator) ReadUint() (ret, err)
  props C04 C03 C17
  requires inv(it)
  modifies M(it)
  ensures keep(it)
  ensures uTok(it, old(pos(it)), ret, err, 18446744073709551615)
func (it *Iterator) ReadInt() (ret, err)
  props C04 C03 C17
  requires inv(it)
  modifies M(it)
  ensures keep(it)
  ensures sTok(it, old(pos(it)), ret, err, 9223372036854775807)
