// ---- floats: pfB(T) is the correctly rounded value of the numeral T, pfOkB(T): it is in range
// facts about byte sequences
axiom blenZero(b Bs) trigger {blen(b)} := blen(b) == 0 ==> b == bempty()
lemma appFront(b Bs, c Int, S Bs, q Int, e Int) trigger {appR(snoc(b,c),S,q,e)} induct e down {q} hint {snoc(appR(b,S,q-1,q-1),c), snoc(appR(b,S,q-1,e-1),bat(S,e-1)), snoc(appR(snoc(b,c),S,q,e-1),bat(S,e-1))} :=  1 <= q && q <= e && c == bat(S,q-1) ==> appR(snoc(b,c),S,q,e) == appR(b,S,q-1,e)
ufn pf64(T Bs) F64
ufn pfOk64(T Bs) Bool
ufn fneg64(f F64) F64
ufn f64zero() F64
ufn pf32(T Bs) F32
ufn pfOk32(T Bs) Bool
ufn fneg32(f F32) F32
ufn f32zero() F32
ufn conv_F64_F32(f F64) F32
ufn conv_F32_F64(f F32) F64
axiom conv32(f F32) trigger {conv_F32_F64(f)} := conv_F64_F32(conv_F32_F64(f)) == f
axiom pf64Zero() := pf64(snoc(bempty(),'0')) == f64zero() && pfOk64(snoc(bempty(),'0'))
axiom pf64Neg(c Int, S Bs, p Int, e Int) trigger {appR(snoc(bempty(),c),S,p,e)} := 2 <= p && p <= e && bat(S,p-2) == '-' && bat(S,p-1) == c && isdig(c) ==> pf64(appR(bempty(),S,p-2,e)) == fneg64(pf64(appR(snoc(bempty(),c),S,p,e))) && pfOk64(appR(bempty(),S,p-2,e)) == pfOk64(appR(snoc(bempty(),c),S,p,e))
axiom pf64Case(b Bs, S Bs, p Int, e Int) trigger {appR(snoc(b,'e'),S,p,e)} := pf64(appR(snoc(b,'E'),S,p,e)) == pf64(appR(snoc(b,'e'),S,p,e)) && pfOk64(appR(snoc(b,'E'),S,p,e)) == pfOk64(appR(snoc(b,'e'),S,p,e))
axiom pf32Zero() := pf32(snoc(bempty(),'0')) == f32zero() && pfOk32(snoc(bempty(),'0'))
axiom pf32Neg(c Int, S Bs, p Int, e Int) trigger {appR(snoc(bempty(),c),S,p,e)} := 2 <= p && p <= e && bat(S,p-2) == '-' && bat(S,p-1) == c && isdig(c) ==> pf32(appR(bempty(),S,p-2,e)) == fneg32(pf32(appR(snoc(bempty(),c),S,p,e))) && pfOk32(appR(bempty(),S,p-2,e)) == pfOk32(appR(snoc(bempty(),c),S,p,e))
axiom pf32Case(b Bs, S Bs, p Int, e Int) trigger {appR(snoc(b,'e'),S,p,e)} := pf32(appR(snoc(b,'E'),S,p,e)) == pf32(appR(snoc(b,'e'),S,p,e)) && pfOk32(appR(snoc(b,'E'),S,p,e)) == pfOk32(appR(snoc(b,'e'),S,p,e))

ext strconv.ParseFloat(s, bits) (f, err)
  requires bits == 64 || bits == 32
  case ok: err == 0
    ensures bits == 64 ==> f == pf64(bytes(s)) && pfOk64(bytes(s))
    ensures bits == 32 ==> f == conv_F32_F64(pf32(bytes(s))) && pfOk32(bytes(s))
  case bad: synErr(err)
    ensures bits == 64 ? !pfOk64(bytes(s)) : !pfOk32(bytes(s))

func (it *Iterator) readFloat64ExponentPart(buf) (ret, nb, err)
  pool num fbuf
  theory float
  alias nb @buf
  requires inv(it)
  modifies M(it)
  let e := exp0(it.S, it.rd, pos(it))
  let T := appR(bytes(buf), it.S, pos(it), e)
  ensures keep(it)
  case ok: err == 0
    ensures pos(it) == e && e > old(pos(it)) && ret == pf64(T) && pfOk64(T)
  case bad: synErr(err)
    ensures e == -1 || (e > old(pos(it)) && !pfOk64(T))
  case end: err == eofErr(it)
    ensures e == -2

func (it *Iterator) readFloat64FractionPart(buf) (ret, nb, err)
  pool num fbuf
  theory float
  alias nb @buf
  requires inv(it)
  modifies M(it)
  let e := frac0(it.S, it.rd, pos(it))
  let T := appR(bytes(buf), it.S, pos(it), e)
  ensures keep(it)
  case ok: err == 0
    ensures pos(it) == e && e > old(pos(it)) && ret == pf64(T) && pfOk64(T)
  case bad: synErr(err)
    ensures e == -1 || (e > old(pos(it)) && !pfOk64(T))
  case end: err == eofErr(it)
    ensures e == -2

func (it *Iterator) readPositiveFloat64(c, buf) (ret, nb, err)
  pool num fbuf
  theory float
  alias nb @buf
  requires inv(it) && len(buf) == 0
  modifies M(it)
  let e := isdig(c) ? numRest(it.S, it.rd, c, pos(it)) : -1
  let T := appR(snoc(bempty(), c), it.S, pos(it), e)
  ensures keep(it)
  case ok: err == 0
    ensures pos(it) == e && e >= old(pos(it)) && ret == pf64(T) && pfOk64(T)
  case bad: synErr(err)
    ensures e == -1 || (e >= old(pos(it)) && !pfOk64(T))
  case end: err == eofErr(it)
    ensures e == -2

func (it *Iterator) ReadFloat64() (ret, err)
  props C16 C03 C17
  theory float
  requires inv(it)
  modifies M(it), it.tmpBuffer
  let t := tok(it.S, pos(it))
  let e := numEnd(it.S, it.rd, pos(it))
  let T := appR(bempty(), it.S, t, e)
  ensures keep(it)
  case ok: err == 0
    ensures pos(it) == e && e > old(pos(it)) && ret == pf64(T) && pfOk64(T)
  case bad: synErr(err)
    ensures e == -1 || (e > old(pos(it)) && !pfOk64(T))
  case end: err == eofErr(it)
    ensures e == -2

func (it *Iterator) readFloat32ExponentPart(buf) (ret, nb, err)
  pool num fbuf
  theory float
  alias nb @buf
  requires inv(it)
  modifies M(it)
  let e := exp0(it.S, it.rd, pos(it))
  let T := appR(bytes(buf), it.S, pos(it), e)
  ensures keep(it)
  case ok: err == 0
    ensures pos(it) == e && e > old(pos(it)) && ret == pf32(T) && pfOk32(T)
  case bad: synErr(err)
    ensures e == -1 || (e > old(pos(it)) && !pfOk32(T))
  case end: err == eofErr(it)
    ensures e == -2

func (it *Iterator) readFloat32FractionPart(buf) (ret, nb, err)
  pool num fbuf
  theory float
  alias nb @buf
  requires inv(it)
  modifies M(it)
  let e := frac0(it.S, it.rd, pos(it))
  let T := appR(bytes(buf), it.S, pos(it), e)
  ensures keep(it)
  case ok: err == 0
    ensures pos(it) == e && e > old(pos(it)) && ret == pf32(T) && pfOk32(T)
  case bad: synErr(err)
    ensures e == -1 || (e > old(pos(it)) && !pfOk32(T))
  case end: err == eofErr(it)
    ensures e == -2

func (it *Iterator) readPositiveFloat32(c, buf) (ret, nb, err)
  pool num fbuf
  theory float
  alias nb @buf
  requires inv(it) && len(buf) == 0
  modifies M(it)
  let e := isdig(c) ? numRest(it.S, it.rd, c, pos(it)) : -1
  let T := appR(snoc(bempty(), c), it.S, pos(it), e)
  ensures keep(it)
  case ok: err == 0
    ensures pos(it) == e && e >= old(pos(it)) && ret == pf32(T) && pfOk32(T)
  case bad: synErr(err)
    ensures e == -1 || (e >= old(pos(it)) && !pfOk32(T))
  case end: err == eofErr(it)
    ensures e == -2

func (it *Iterator) ReadFloat32() (ret, err)
  props C16 C03 C17
  theory float
  requires inv(it)
  modifies M(it), it.tmpBuffer
  let t := tok(it.S, pos(it))
  let e := numEnd(it.S, it.rd, pos(it))
  let T := appR(bempty(), it.S, t, e)
  ensures keep(it)
  case ok: err == 0
    ensures pos(it) == e && e > old(pos(it)) && ret == pf32(T) && pfOk32(T)
  case bad: synErr(err)
    ensures e == -1 || (e > old(pos(it)) && !pfOk32(T))
  case end: err == eofErr(it)
    ensures e == -2

func (it *Iterator) readFloat64(c) (ret, err)
  theory float
  requires inv(it) && pos(it) >= 1 && bat(it.S, pos(it)-1) == c
  modifies M(it), it.tmpBuffer
  let e := isnum(c) ? numRest(it.S, it.rd, c, pos(it)) : -1
  let T := appR(bempty(), it.S, pos(it) - 1, e)
  ensures keep(it)
  case ok: err == 0
    ensures pos(it) == e && e >= old(pos(it)) && ret == pf64(T) && pfOk64(T)
  case bad: synErr(err)
    ensures e == -1 || (e >= old(pos(it)) && !pfOk64(T))
  case end: err == eofErr(it)
    ensures e == -2

pool fbuf
  inv $b bytes, $p pos :: bytes($b) == appR(in(bytes($b)), it.S, in($p), $p)
