// Iterator model: S is the whole input the iterator will ever deliver, rd the error that
// ends it (0: plain end of input, >= 1000: the reader's own error).
ghost Iterator.S Bs
ghost Iterator.rd Int
ghost Iterator.dl Int

def pos(it) := it.offset + it.head
def eofErr(it) := it.rd == 0 ? 1 : it.rd
def inv(it) := 0 <= it.offset && 0 <= it.head && it.head <= it.tail && it.offset + it.tail <= blen(it.S)
  && it.rd >= 0 && (it.rd == 0 || it.rd >= 1000)
  && (it.reader == 0 ==> it.offset + it.tail == blen(it.S) && it.rd == 0)
  && (it.capture ==> it.tail > 0)
def keep(it) := inv(it) && (it.capture ==> it.offset == old(it.offset)) && it.offset + it.tail >= old(it.offset + it.tail)
modset M(it) := it.offset, it.head, it.tail, it.buffer, it.fixbuf, it.dl

// error classes
def synErr(err) := 1 < err && err < 1000
def outcome(it, err, e) := (err == 0 && e >= 0 && pos(it) == e) || (synErr(err) && e == -1) || (err == eofErr(it) && e == -2)

// loop facts tried for every function working on an iterator
pool iter
  inv 0 <= it.offset && 0 <= it.head && it.head <= it.tail && it.offset + it.tail <= blen(it.S)
  inv it.reader == 0 ==> it.offset + it.tail == blen(it.S)
  inv it.capture ==> it.offset == in(it.offset)
  inv it.capture ==> it.tail > 0
  inv it.capture ==> it.offset == old(it.offset)
  inv it.head < it.tail
  inv it.offset + it.tail >= in(it.offset + it.tail)
  inv it.offset + it.tail >= old(it.offset + it.tail)
  inv $p pos :: $p <= it.offset + it.tail && pos(it) <= $p && in($p) <= $p && old(pos(it)) <= $p
