// ---- the representation behind S: functions that touch buffer, tail, offset and reader.
// dl: number of bytes the reader has delivered so far.
def rep(it) := it.tail <= len(it.buffer) && it.dl == it.offset + it.tail && cap(it.fixbuf) > 0
  && (it.reader != 0 ==> len(it.buffer) > 0)
  && (forall i Int :: 0 <= i && i < it.tail ==> it.buffer[i] == bat(it.S, it.offset + i))

// any io.Reader: fills a prefix of p with the next bytes of its input. rd is its final
// error (0: end of input), which may come together with the last bytes only if it is io.EOF.
iface io.Reader.Read(p) (n, err)
  requires len(p) > 0
  modifies elems(p), it.dl
  ensures 0 <= n && n <= len(p) && it.dl == old(it.dl) + n && it.dl <= blen(it.S)
  ensures forall i Int :: 0 <= i && i < n ==> p[i] == bat(it.S, old(it.dl) + i)
  ensures err != 0 ==> err == eofErr(it) && it.dl == blen(it.S)
  ensures err != 0 && err != 1 ==> n == 0
pool refill
  inv it.tail <= len(it.buffer) && it.dl == it.offset + it.tail
  inv cap(it.fixbuf) > 0
  inv len(it.buffer) > 0
  inv it.head == it.tail
  inv pos(it) == old(pos(it))
  inv it.capture ==> it.tail > 0 && it.offset == old(it.offset)
  inv 0 <= it.offset && 0 <= it.tail && it.dl <= blen(it.S)
  inv forall i Int :: 0 <= i && i < it.tail ==> it.buffer[i] == bat(it.S, it.offset + i)

// what a reader will deliver from now on, and the error that ends it
ufn readerS(r Int) Bs
ufn readerErr(r Int) Int
axiom readerErrRange(r Int) trigger {readerErr(r)} := readerErr(r) == 0 || readerErr(r) >= 1000

def clean(it) := !it.capture && it.offset == 0 && it.head == 0 && it.lastEfaceOffset == 0 && it.lastEfacePtr == 0 && it.efaceCount == 0 && it.Context == 0
modset R(it) := it.reader, it.buffer, it.tail, it.S, it.rd, it.dl, it.capture, it.offset, it.head, it.lastEfaceOffset, it.lastEfacePtr, it.efaceCount, it.Context

func (it *Iterator) reset()
  props C15 C19
  flag concrete
  rep rep(it)
  modifies R(it)
  exit it.S := bempty()
  exit it.rd := 0
  exit it.dl := 0
  ensures inv(it) && clean(it) && it.reader == 0 && it.S == bempty() && it.rd == 0

func (it *Iterator) ResetBytes(data)
  props C15 C19 C17 C01 C03
  flag concrete
  rep rep(it)
  modifies R(it)
  exit it.S := bytes(data)
  exit it.rd := 0
  exit it.dl := len(data)
  ensures inv(it) && clean(it) && it.reader == 0 && it.S == bytes(data) && it.rd == 0

// the readable bytes of a buffer are what it would deliver
ext bytes.Buffer.Bytes(b) (res)
  ensures bytes(res) == readerS(b) && readerErr(b) == 0

func (it *Iterator) Reset(r)
  theory reader
  props C15 C19 C03 C17
  flag concrete
  rep rep(it)
  modifies R(it)
  exit it.S := r == 0 ? bempty() : readerS(r)
  exit it.rd := r == 0 ? 0 : readerErr(r)
  exit it.dl := it.reader == 0 ? blen(it.S) : 0
  ensures inv(it) && clean(it) && (r != 0 ==> it.S == readerS(r) && it.rd == readerErr(r)) && (r == 0 ==> it.S == bempty())
