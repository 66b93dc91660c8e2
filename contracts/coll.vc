// ---- composite targets. A decoder d is any function of (options, stream, position of the value,
// memory, target): dOk says whether it succeeds, dEnd where it ends, dMem the memory it leaves.
ufn dOk(d Int, q Int, S Bs, z Int, p Int, m Mem, a Int) Bool
ufn dEnd(d Int, q Int, S Bs, z Int, p Int, m Mem, a Int) Int
ufn dMem(d Int, q Int, S Bs, z Int, p Int, m Mem, a Int) Mem
ufn memclr(m Mem, a Int, n Int) Mem
def qcode(o) := o == 0 ? 0 : (o.Quoted ? 1 : 0) + (o.MapKey ? 2 : 0)
modset D(it) := it.offset, it.head, it.tail, it.buffer, it.fixbuf, it.dl, it.tmpBuffer, it.lastEfaceOffset, it.lastEfacePtr, it.efaceCount, mem

iface ValDecoder.Decode(ptr, it, opts) (err)
  flag nilable:opts
  requires inv(it) && it.cfg != 0 && ptr != 0
  modifies D(it)
  let q := qcode(opts)
  let p := tok(it.S, pos(it))
  let m := mem()
  ensures keep(it)
  case ok: err == 0
    ensures dOk(self, q, it.S, it.rd, p, m, ptr) && pos(it) == dEnd(self, q, it.S, it.rd, p, m, ptr) && pos(it) >= old(pos(it)) && mem() == dMem(self, q, it.S, it.rd, p, m, ptr)
  case bad: err != 0
    ensures !dOk(self, q, it.S, it.rd, p, m, ptr)

func typedmemclrpartial(t, ptr, off, size)
  flag trusted
  modifies mem
  ensures mem() == memclr(old(mem()), ptr, size)

fn mul(n Int, s Int) Int := n <= 0 ? 0 : s + mul(n-1, s)
fn arrEnd(d Int, S Bs, z Int, m Mem, a Int, n Int, sz Int, p Int) Int := n > 0
  ? (dOk(d,0,S,z,tok(S,p),m,a) ? arrTail(d, S, z, dMem(d,0,S,z,tok(S,p),m,a), a+sz, n-1, sz, dEnd(d,0,S,z,tok(S,p),m,a)) : -1)
  : (valEnd(S,z,p) < 0 ? -1 : arrTail(d, S, z, m, a, n, sz, valEnd(S,z,p)))
fn arrTail(d Int, S Bs, z Int, m Mem, a Int, n Int, sz Int, e Int) Int := tok(S,e) >= blen(S) ? -1 : bat(S,tok(S,e)) == ']' ? tok(S,e)+1
  : bat(S,tok(S,e)) == ',' ? arrEnd(d, S, z, m, a, n, sz, tok(S,e)+1) : -1
fn arrMem(d Int, S Bs, z Int, m Mem, a Int, n Int, sz Int, p Int, end Int) Mem := n > 0
  ? arrMemT(d, S, z, dMem(d,0,S,z,tok(S,p),m,a), a+sz, n-1, sz, dEnd(d,0,S,z,tok(S,p),m,a), end)
  : arrMemT(d, S, z, m, a, n, sz, valEnd(S,z,p), end)
fn arrMemT(d Int, S Bs, z Int, m Mem, a Int, n Int, sz Int, e Int, end Int) Mem := bat(S,tok(S,e)) == ',' ? arrMem(d, S, z, m, a, n, sz, tok(S,e)+1, end) : n > 0 ? memclr(m, a, end - a) : m
pool arr
  inv $o int, $c int :: $o + mul(dec.length - $c, dec.elemSize) == dec.size
  inv $p pos, $o int, $c int :: arrEnd(dec.elemDec, it.S, it.rd, mem(), ptr + $o, dec.length - $c, dec.elemSize, $p) == in(arrEnd(dec.elemDec, it.S, it.rd, mem(), ptr + $o, dec.length - $c, dec.elemSize, $p))
  inv $p pos, $o int, $c int :: arrMem(dec.elemDec, it.S, it.rd, mem(), ptr + $o, dec.length - $c, dec.elemSize, $p, ptr + dec.size) == in(arrMem(dec.elemDec, it.S, it.rd, mem(), ptr + $o, dec.length - $c, dec.elemSize, $p, ptr + dec.size))
  inv $c int :: (($c * dec.elemSize) % 18446744073709551616) + mul(dec.length - $c, dec.elemSize) == dec.size
  inv $p pos, $c int :: arrEnd(dec.elemDec, it.S, it.rd, mem(), ptr + (($c * dec.elemSize) % 18446744073709551616), dec.length - $c, dec.elemSize, $p) == in(arrEnd(dec.elemDec, it.S, it.rd, mem(), ptr + (($c * dec.elemSize) % 18446744073709551616), dec.length - $c, dec.elemSize, $p))
  inv $p pos, $c int :: arrMem(dec.elemDec, it.S, it.rd, mem(), ptr + (($c * dec.elemSize) % 18446744073709551616), dec.length - $c, dec.elemSize, $p, ptr + dec.size) == in(arrMem(dec.elemDec, it.S, it.rd, mem(), ptr + (($c * dec.elemSize) % 18446744073709551616), dec.length - $c, dec.elemSize, $p, ptr + dec.size))
  inv $c int :: mul($c, dec.elemSize) + mul(dec.length - $c, dec.elemSize) == dec.size
  inv $o int, $c int :: $o == mul($c, dec.elemSize)
func (dec *arrayDecoder) Decode(ptr, it, opts) (err)
  props C12 C02 C03 C17
  theory coll
  flag nilable:opts
  pool arr
  flag fuel:2
  requires inv(it) && it.cfg != 0 && ptr != 0 && dec.length >= 0 && dec.elemDec != 0 && dec.size == mul(dec.length, dec.elemSize) && ptr + dec.size < 18446744073709551616
  modifies D(it)
  let S := it.S
  let t := tok(S, pos(it))
  let arr := t < blen(S) && bat(S,t) == '['
  let t1 := tok(S, t+1)
  let empty := arr && t1 < blen(S) && bat(S,t1) == ']'
  let e := empty ? t1+1 : arr && t1 < blen(S) ? arrEnd(dec.elemDec, S, it.rd, mem(), ptr, dec.length, dec.elemSize, t1) : -1
  let m := empty ? (dec.length > 0 ? memclr(mem(), ptr, dec.size) : mem()) : arrMem(dec.elemDec, S, it.rd, mem(), ptr, dec.length, dec.elemSize, t1, ptr + dec.size)
  ensures keep(it)
  ensures err == 0 ==> (e >= 0 && pos(it) == e && mem() == m) || (nullAt(S,t) && pos(it) == lit(S, t+1, bytes("ull"), 0) && mem() == old(mem()))
  ensures err != 0 ==> e < 0 && !nullAt(S,t)
lemma mul_is(n Int, s Int) trigger {mul(n,s)} induct n down {0} := n >= 0 ==> mul(n,s) == n*s
lemma mul_pos(n Int, s Int) trigger {mul(n,s)} induct n down {0} := s >= 0 ==> mul(n,s) >= 0

// ---- allocation is a function of the memory and the type: a fresh zeroed object
ufn newAt(m Mem, t Int) Int
ufn newMem(m Mem, t Int) Mem
func unsafe_New(rtype) (res)
  flag trusted
  modifies mem
  ensures res == newAt(old(mem()), rtype) && res != 0 && mem() == newMem(old(mem()), rtype)

func (dec *pointerDecoder) Decode(ptr, it, opts) (err)
  props C12 C02 C03 C17
  theory coll
  flag nilable:opts
  requires inv(it) && it.cfg != 0 && ptr != 0 && dec.elemDec != 0
  modifies D(it)
  let S := it.S
  let t := tok(S, pos(it))
  let m := mem()
  let tgt := ld_ptr(m, ptr)
  let isNull := t < blen(S) && bat(S,t) == 'n'
  let m1 := tgt == 0 ? newMem(m, dec.elemRType) : m
  let a := tgt == 0 ? newAt(m, dec.elemRType) : tgt
  let ok := dOk(dec.elemDec, qcode(opts), S, it.rd, t, m1, a)
  let m2 := dMem(dec.elemDec, qcode(opts), S, it.rd, t, m1, a)
  ensures keep(it)
  ensures err == 0 && isNull ==> nullAt(S,t) && pos(it) == lit(S, t+1, bytes("ull"), 0) && mem() == st_ptr(m, ptr, 0)
  ensures err == 0 && !isNull ==> t < blen(S) && ok && pos(it) == dEnd(dec.elemDec, qcode(opts), S, it.rd, t, m1, a) && mem() == (tgt == 0 ? st_ptr(m2, ptr, a) : m2)
  ensures err != 0 ==> t >= blen(S) || (isNull ? !nullAt(S,t) : !ok)

// ---- maps: makemap and mapassign are functions of the memory; keys are decoded as map keys (option 2)
ufn mkMapAt(m Mem, t Int, n Int) Int
ufn mkMapMem(m Mem, t Int, n Int) Mem
ufn mapSet(m Mem, t Int, h Int, k Int, v Int) Mem
func makemap(rtype, n) (res)
  flag trusted
  modifies mem
  ensures res == mkMapAt(old(mem()), rtype, n) && res != 0 && mem() == mkMapMem(old(mem()), rtype, n)
func mapassign(t, m, key, val)
  flag trusted
  requires key != 0 && val != 0
  modifies mem
  ensures mem() == mapSet(old(mem()), t, m, key, val)
func typedmemmove(rtype, dst, src)
  flag trusted
  modifies mem
  ensures mem() == st_ptr(old(mem()), dst, deref(src))
def kOk(kd, kt, S, z, p, m) := dOk(kd, 2, S, z, p, newMem(m,kt), newAt(m,kt))
def kEnd(kd, kt, S, z, p, m) := tok(S, dEnd(kd, 2, S, z, p, newMem(m,kt), newAt(m,kt)))
def kMem(kd, kt, S, z, p, m) := dMem(kd, 2, S, z, p, newMem(m,kt), newAt(m,kt))
def vOk(vd, vt, S, z, p, m) := dOk(vd, 0, S, z, tok(S,p), newMem(m,vt), newAt(m,vt))
def vEnd(vd, vt, S, z, p, m) := tok(S, dEnd(vd, 0, S, z, tok(S,p), newMem(m,vt), newAt(m,vt)))
def vMem(vd, vt, S, z, p, m) := dMem(vd, 0, S, z, tok(S,p), newMem(m,vt), newAt(m,vt))
def setM(m, mt, a, k, v) := mapSet(m, mt, ld_ptr(m, a), k, v)
fn mapEnd(kd Int, kt Int, vd Int, vt Int, mt Int, S Bs, z Int, a Int, m Mem, p Int) Int :=
  p >= blen(S) || bat(S,p) != '"' || !kOk(kd,kt,S,z,p,m) || kEnd(kd,kt,S,z,p,m) >= blen(S) || bat(S,kEnd(kd,kt,S,z,p,m)) != ':' ? -1
  : mapEndV(kd, kt, vd, vt, mt, S, z, a, newAt(m,kt), kMem(kd,kt,S,z,p,m), kEnd(kd,kt,S,z,p,m)+1)
fn mapEndV(kd Int, kt Int, vd Int, vt Int, mt Int, S Bs, z Int, a Int, k Int, m Mem, p Int) Int :=
  !vOk(vd,vt,S,z,p,m) || vEnd(vd,vt,S,z,p,m) >= blen(S) ? -1
  : bat(S, vEnd(vd,vt,S,z,p,m)) == '}' ? vEnd(vd,vt,S,z,p,m)+1
  : bat(S, vEnd(vd,vt,S,z,p,m)) == ',' ? mapEnd(kd, kt, vd, vt, mt, S, z, a, setM(vMem(vd,vt,S,z,p,m), mt, a, k, newAt(m,vt)), tok(S, vEnd(vd,vt,S,z,p,m)+1)) : -1
fn mapMem(kd Int, kt Int, vd Int, vt Int, mt Int, S Bs, z Int, a Int, m Mem, p Int) Mem := mapMemV(kd, kt, vd, vt, mt, S, z, a, newAt(m,kt), kMem(kd,kt,S,z,p,m), kEnd(kd,kt,S,z,p,m)+1)
fn mapMemV(kd Int, kt Int, vd Int, vt Int, mt Int, S Bs, z Int, a Int, k Int, m Mem, p Int) Mem :=
  bat(S, vEnd(vd,vt,S,z,p,m)) == ',' ? mapMem(kd, kt, vd, vt, mt, S, z, a, setM(vMem(vd,vt,S,z,p,m), mt, a, k, newAt(m,vt)), tok(S, vEnd(vd,vt,S,z,p,m)+1))
  : setM(vMem(vd,vt,S,z,p,m), mt, a, k, newAt(m,vt))
pool maps
  inv $c int, $p pos :: $c == bat(it.S, $p)
  inv $p pos :: mapEnd(dec.keyDec, dec.keyRType, dec.valDec, dec.valRType, dec.rtype, it.S, it.rd, ptr, mem(), $p) == in(mapEnd(dec.keyDec, dec.keyRType, dec.valDec, dec.valRType, dec.rtype, it.S, it.rd, ptr, mem(), $p))
  inv $p pos :: mapMem(dec.keyDec, dec.keyRType, dec.valDec, dec.valRType, dec.rtype, it.S, it.rd, ptr, mem(), $p) == in(mapMem(dec.keyDec, dec.keyRType, dec.valDec, dec.valRType, dec.rtype, it.S, it.rd, ptr, mem(), $p))
func (dec *mapDecoder) Decode(ptr, it, opts) (err)
  props C12 C02 C03 C17
  theory coll
  flag nilable:opts
  flag fuel:3
  pool maps
  requires inv(it) && it.cfg != 0 && ptr != 0 && dec.keyDec != 0 && dec.valDec != 0
  modifies D(it)
  let S := it.S
  let t := tok(S, pos(it))
  let isNull := t < blen(S) && bat(S,t) == 'n'
  let obj := t < blen(S) && bat(S,t) == '{'
  let t1 := tok(S, t+1)
  let empty := obj && t1 < blen(S) && bat(S,t1) == '}'
  let m := mem()
  let m1 := ld_ptr(m, ptr) == 0 ? st_ptr(mkMapMem(m, dec.rtype, 0), ptr, mkMapAt(m, dec.rtype, 0)) : m
  let e := empty ? t1+1 : obj && t1 < blen(S) ? mapEnd(dec.keyDec, dec.keyRType, dec.valDec, dec.valRType, dec.rtype, S, it.rd, ptr, m1, t1) : -1
  ensures keep(it)
  ensures err == 0 && isNull ==> nullAt(S,t) && pos(it) == lit(S, t+1, bytes("ull"), 0) && mem() == st_ptr(m, ptr, 0)
  ensures err == 0 && !isNull ==> e >= 0 && pos(it) == e && mem() == (empty ? m1 : mapMem(dec.keyDec, dec.keyRType, dec.valDec, dec.valRType, dec.rtype, S, it.rd, ptr, m1, t1))
  ensures err != 0 ==> isNull ? !nullAt(S,t) : e < 0

// ---- slices: the growing buffer is an abstract header h; growth and child address are functions of the memory
ufn mkSl(m Mem, t Int, n Int, c Int) Int
ufn mkSlMem(m Mem, t Int, n Int, c Int) Mem
ufn grow(m Mem, t Int, h Int, n Int) Int
ufn growMem(m Mem, t Int, h Int, n Int) Mem
ufn child(m Mem, h Int, sz Int, i Int) Int
func unsafeMakeSlice(elemRType, length, cap) (res)
  flag trusted
  modifies mem
  ensures res == mkSl(old(mem()), elemRType, length, cap) && res != 0 && mem() == mkSlMem(old(mem()), elemRType, length, cap)
func unsafeGrowSlice(elemRType, ptr, newLength) (res)
  props C12
  theory grow
  requires ptr != 0 && newLength >= 1 && newLength <= 281474976710656
  pool GROW
  assumes hCap(mem(), ptr) >= 0
  modifies mem
  ensures res == grow(old(mem()), elemRType, ptr, newLength) && res != 0 && mem() == growMem(old(mem()), elemRType, ptr, newLength)
func unsafeSliceChildPtr(ptr, elemSize, index) (res)
  props C12
  theory grow
  requires ptr != 0 && index >= 0
  ensures res == child(mem(), ptr, elemSize, index)
  trusts res != 0
def slH(m, t, h, n) := grow(m, t, h, n)
def slM(m, t, h, n) := growMem(m, t, h, n)
def slA(m, t, h, n, sz) := child(slM(m,t,h,n), slH(m,t,h,n), sz, n-1)
def slOk(d, S, z, m, t, h, n, sz, p) := dOk(d, 0, S, z, tok(S,p), slM(m,t,h,n), slA(m,t,h,n,sz))
def slE(d, S, z, m, t, h, n, sz, p) := tok(S, dEnd(d, 0, S, z, tok(S,p), slM(m,t,h,n), slA(m,t,h,n,sz)))
def slMem2(d, S, z, m, t, h, n, sz, p) := dMem(d, 0, S, z, tok(S,p), slM(m,t,h,n), slA(m,t,h,n,sz))
fn slEnd(d Int, t Int, sz Int, S Bs, z Int, m Mem, h Int, n Int, p Int) Int :=
  !slOk(d,S,z,m,t,h,n,sz,p) || slE(d,S,z,m,t,h,n,sz,p) >= blen(S) ? -1
  : bat(S, slE(d,S,z,m,t,h,n,sz,p)) == ']' ? slE(d,S,z,m,t,h,n,sz,p)+1
  : bat(S, slE(d,S,z,m,t,h,n,sz,p)) == ',' ? slEnd(d, t, sz, S, z, slMem2(d,S,z,m,t,h,n,sz,p), slH(m,t,h,n), n+1, slE(d,S,z,m,t,h,n,sz,p)+1) : -1
fn slMemF(d Int, t Int, sz Int, S Bs, z Int, m Mem, h Int, n Int, p Int) Mem :=
  bat(S, slE(d,S,z,m,t,h,n,sz,p)) == ',' ? slMemF(d, t, sz, S, z, slMem2(d,S,z,m,t,h,n,sz,p), slH(m,t,h,n), n+1, slE(d,S,z,m,t,h,n,sz,p)+1) : slMem2(d,S,z,m,t,h,n,sz,p)
fn slHdrF(d Int, t Int, sz Int, S Bs, z Int, m Mem, h Int, n Int, p Int) Int :=
  bat(S, slE(d,S,z,m,t,h,n,sz,p)) == ',' ? slHdrF(d, t, sz, S, z, slMem2(d,S,z,m,t,h,n,sz,p), slH(m,t,h,n), n+1, slE(d,S,z,m,t,h,n,sz,p)+1) : slH(m,t,h,n)
def hdr(m, a, d, n, c) := st_i64(st_i64(st_ptr(m, a, d), a+8, n), a+16, c)
ufn b64Ok(b Bs) Bool
ufn b64Dec(b Bs) Bs
ext base64.Encoding.DecodeString(enc, s) (data, err)
  ensures err == 0 ? b64Ok(bytes(s)) && bytes(data) == b64Dec(bytes(s)) : !b64Ok(bytes(s))
pool slices
  inv $p pos, $n int, $h addr :: slEnd(dec.elemDec, dec.elemRType, dec.elemSize, it.S, it.rd, mem(), $h, $n, $p) == in(slEnd(dec.elemDec, dec.elemRType, dec.elemSize, it.S, it.rd, mem(), $h, $n, $p))
  inv $p pos, $n int, $h addr :: slEnd(dec.elemDec, dec.elemRType, dec.elemSize, it.S, it.rd, mem(), $h, ($n+1), $p) == in(slEnd(dec.elemDec, dec.elemRType, dec.elemSize, it.S, it.rd, mem(), $h, ($n+1), $p))
  inv $p pos, $n int, $h addr :: slMemF(dec.elemDec, dec.elemRType, dec.elemSize, it.S, it.rd, mem(), $h, $n, $p) == in(slMemF(dec.elemDec, dec.elemRType, dec.elemSize, it.S, it.rd, mem(), $h, $n, $p))
  inv $p pos, $n int, $h addr :: slMemF(dec.elemDec, dec.elemRType, dec.elemSize, it.S, it.rd, mem(), $h, ($n+1), $p) == in(slMemF(dec.elemDec, dec.elemRType, dec.elemSize, it.S, it.rd, mem(), $h, ($n+1), $p))
  inv $p pos, $n int, $h addr :: slHdrF(dec.elemDec, dec.elemRType, dec.elemSize, it.S, it.rd, mem(), $h, $n, $p) == in(slHdrF(dec.elemDec, dec.elemRType, dec.elemSize, it.S, it.rd, mem(), $h, $n, $p))
  inv $p pos, $n int, $h addr :: slHdrF(dec.elemDec, dec.elemRType, dec.elemSize, it.S, it.rd, mem(), $h, ($n+1), $p) == in(slHdrF(dec.elemDec, dec.elemRType, dec.elemSize, it.S, it.rd, mem(), $h, ($n+1), $p))
  inv $h addr :: $h != 0
  inv $n int :: $n >= 1
  inv $n int :: $n >= 0
  inv $p pos, $n int :: $n <= $p
  inv $p pos, $n int :: $n + 1 <= $p
func (dec *sliceDecoder) Decode(ptr, it, opts) (err)
  props C12 C02 C03 C17
  theory coll
  flag nilable:opts
  flag fuel:2
  pool slices
  requires inv(it) && it.cfg != 0 && ptr != 0 && dec.elemDec != 0 && ptr + 24 < 18446744073709551616
  modifies D(it)
  let S := it.S
  let t := tok(S, pos(it))
  let isNull := t < blen(S) && bat(S,t) == 'n'
  let isStr := t < blen(S) && bat(S,t) == '"'
  let arr := t < blen(S) && bat(S,t) == '['
  let t1 := tok(S, t+1)
  let empty := arr && t1 < blen(S) && bat(S,t1) == ']'
  let m0 := mkSlMem(mem(), dec.elemRType, 0, 0)
  let h0 := mkSl(mem(), dec.elemRType, 0, 0)
  let e := empty ? t1+1 : arr && t1 < blen(S) ? slEnd(dec.elemDec, dec.elemRType, dec.elemSize, S, it.rd, m0, h0, 1, t1) : -1
  let m1 := empty ? m0 : slMemF(dec.elemDec, dec.elemRType, dec.elemSize, S, it.rd, m0, h0, 1, t1)
  let h1 := empty ? h0 : slHdrF(dec.elemDec, dec.elemRType, dec.elemSize, S, it.rd, m0, h0, 1, t1)
  ensures keep(it)
  ensures err == 0 && isNull ==> nullAt(S,t) && pos(it) == lit(S, t+1, bytes("ull"), 0)
  ensures err == 0 && isNull ==> mem() == st_ptr(st_i64(st_i64(old(mem()), ptr+8, 0), ptr+16, 0), ptr, 0)
  ensures err == 0 && !isNull && !isStr ==> e >= 0 && pos(it) == e && mem() == hdr(m1, ptr, ld_ptr(m1,h1), ld_i64(m1,h1+8), ld_i64(m1,h1+16))
  ensures err != 0 && !isStr ==> isNull ? !nullAt(S,t) : e < 0
  ensures err == 0 && isStr ==> dec.elemKind == 8 && strEnd(S, t+1) >= 0 && pos(it) == strEnd(S, t+1) && b64Ok(strDec(S, t+1, bempty())) && mem() == st_bytes(old(mem()), ptr, b64Dec(strDec(S, t+1, bempty())))
  ensures err != 0 && isStr ==> dec.elemKind != 8 || strEnd(S, t+1) < 0 || !b64Ok(strDec(S, t+1, bempty()))
