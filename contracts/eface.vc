// ---- interface targets: loops of interfaces are found by Brent's algorithm
fn isP2(c Int) Bool := and64(c, c-1) == 0
func (dec *efaceDecoder) checkLoop(ptr, it) (res)
  props C19
  flag nilable:dec
  requires ptr != 0 && it.offset >= 0 && it.head >= 0 && pos(it) < 4611686018427387904 && it.efaceCount < 9223372036854775807
  modifies it.lastEfacePtr, it.lastEfaceOffset, it.efaceCount
  case first: old(it.lastEfacePtr == 0 || pos(it) != it.lastEfaceOffset)
    ensures res && it.lastEfacePtr == ptr && it.efaceCount == 1 && it.lastEfaceOffset == pos(it)
  case met: old(it.lastEfacePtr != 0 && pos(it) == it.lastEfaceOffset) && ptr == old(it.lastEfacePtr)
    ensures !res
  case go: old(it.lastEfacePtr != 0 && pos(it) == it.lastEfaceOffset) && ptr != old(it.lastEfacePtr)
    ensures res && it.lastEfaceOffset == pos(it) && it.efaceCount == old(it.efaceCount) + 1
    ensures it.lastEfacePtr == (isP2(it.efaceCount) ? ptr : old(it.lastEfacePtr))
    ensures old(it.efaceCount) >= 1 && old(it.lastEfacePtr) == ch(0, pw(old(it.efaceCount))-1) && ptr == ch(0, old(it.efaceCount)) ==> it.lastEfacePtr == ch(0, pw(it.efaceCount)-1)

// ch(k,i): address of the i-th interface met without consuming input, from the k-th one on. After
// the n-th call the recorded address is ch(pw(n)-1): the last power of two not above n.
// quiet(n): the first n calls all answered "no loop".
ufn ch(k Int, i Int) Int
lemmas C19
fn pw(c Int) Int := c <= 1 ? 1 : isP2(c) ? c : pw(c-1)
fn quiet(k Int, n Int) Bool := n <= 1 ? true : quiet(k, n-1) && ch(k, n-1) != ch(k, pw(n-1)-1)
lemma p2Yes(j Int, c Int, e Int) bv trigger {shl64(1,j), and64(c, e)} := j < 64 && c == shl64(1,j) && c == e+1 ==> and64(c, e) == 0
lemma p2No(j Int, c Int, e Int) bv trigger {shl64(1,j), and64(c, e)} := j < 63 && c == e+1 && shl64(1,j) < c && c < 2*shl64(1,j) ==> and64(c, e) != 0
lemma pwAt(j Int, c Int) trigger {shl64(1,j), pw(c)} induct c down {shl64(1,j)} hint {isP2(c)} := 0 <= j && j < 63 && shl64(1,j) <= c && c < 2*shl64(1,j) ==> pw(c) == shl64(1,j)
lemma quietDown(k Int, n Int, a Int) trigger {quiet(k,n), quiet(k,a)} induct n down {a} := 1 <= a && a <= n && quiet(k,n) ==> quiet(k,a)
lemma brent(k Int, j Int, lam Int) trigger {quiet(k, shl64(1,j)+lam+1)} hint {pw(shl64(1,j)+lam-1), quiet(k, shl64(1,j)+lam)} := 0 <= j && j < 63 && 1 <= lam && lam <= shl64(1,j) && ch(k, shl64(1,j)-1+lam) == ch(k, shl64(1,j)-1) ==> !quiet(k, shl64(1,j)+lam)
lemma pwLe(c Int) trigger {pw(c)} induct c down {1} := c >= 1 ==> 1 <= pw(c) && pw(c) <= c
// no interface met twice: never an alarm
ufn at(k Int, a Int) Int
lemma acyclic(k Int, n Int) trigger {quiet(k,n)} induct n down {1} := (forall i Int :: at(k, ch(k,i)) == i) ==> quiet(k,n)
