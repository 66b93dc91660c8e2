// ---- untyped values: the value a text denotes, built over a stack of open containers.
// A frame is an open array (elements so far, key under which it goes into the enclosing frame)
// or an open object (members so far in order of appearance, key). u: numbers kept as text.
def isO(F) := F == fObj(fo_m(F), fo_k(F), fo_t(F))
def isA(F) := F == fArr(fa_s(F), fa_k(F), fa_t(F))
fn attach(F FR, k Bs, v JV) FR := isO(F) ? fObj(jmput(fo_m(F), k, v), fo_k(F), fo_t(F)) : fArr(jsnoc(fa_s(F), v), fa_k(F), fa_t(F))
fn below(F FR) FR := isO(F) ? fo_t(F) : fa_t(F)
fn numTxt(S Bs, z Int, p Int) Bs := appR(bempty(), S, p, numRest(S, z, bat(S,p), p+1))
fn uScEnd(S Bs, z Int, u Bool, p Int) Int := isnum(bat(S,p)) && !u && numRest(S,z,bat(S,p),p+1) >= 0 && !pfOk64(numTxt(S,z,p)) ? -1 : scalarEnd(S,z,p)
fn uScal(S Bs, z Int, u Bool, p Int) JV := bat(S,p) == '"' ? jstr(strDec(S, p+1, bempty())) : bat(S,p) == 'n' ? jnil() : bat(S,p) == 't' ? jbool(true) : bat(S,p) == 'f' ? jbool(false)
  : u ? jnumtxt(numTxt(S,z,p)) : jf64(pf64(numTxt(S,z,p)))
// value at p, key k, inside the top frame F of kind b
def uItem(S, z, u, p, b, k, F) := bat(S,p) == '[' ? unt(S,z,u,1,p+1,fArr(jsempty(),k,F)) : bat(S,p) == '{' ? unt(S,z,u,0,p+1,fObj(jmempty(),k,F))
  : uScEnd(S,z,u,p) < 0 ? ur(uScEnd(S,z,u,p), jnil()) : unt(S,z,u,b+2,uScEnd(S,z,u,p),attach(F,k,uScal(S,z,u,p)))
def uCloseO(S, z, u, p, F) := fo_t(F) == fNil() ? ur(p, jobj(fo_m(F))) : unt(S,z,u,isO(fo_t(F)) ? 2 : 3, p, attach(fo_t(F), fo_k(F), jobj(fo_m(F))))
def uCloseA(S, z, u, p, F) := fa_t(F) == fNil() ? ur(p, jarr(fa_s(F))) : unt(S,z,u,isO(fa_t(F)) ? 2 : 3, p, attach(fa_t(F), fa_k(F), jarr(fa_s(F))))
def uMember(S, z, u, t, F) := bat(S,t) != '"' ? ur(-1, jnil()) : fieldEnd(S,t+1) < 0 ? ur(fieldEnd(S,t+1), jnil())
  : tok(S,fieldEnd(S,t+1)) >= blen(S) ? ur(-2, jnil()) : uItem(S,z,u,tok(S,fieldEnd(S,t+1)),0,strDec(S,t+1,bempty()),F)
def uInObj(S, z, u, st, t, F) := bat(S,t) == '}' ? uCloseO(S,z,u,t+1,F) : st == 0 ? uMember(S,z,u,t,F)
  : bat(S,t) != ',' ? ur(-1, jnil()) : tok(S,t+1) >= blen(S) ? ur(-2, jnil()) : uMember(S,z,u,tok(S,t+1),F)
def uInArr(S, z, u, st, t, F) := bat(S,t) == ']' ? uCloseA(S,z,u,t+1,F) : st == 1 ? uItem(S,z,u,t,1,bempty(),F)
  : bat(S,t) != ',' ? ur(-1, jnil()) : tok(S,t+1) >= blen(S) ? ur(-2, jnil()) : uItem(S,z,u,tok(S,t+1),1,bempty(),F)
fn unt(S Bs, z Int, u Bool, st Int, p Int, F FR) UR := tok(S,p) >= blen(S) ? ur(-2, jnil())
  : st % 2 == 0 ? uInObj(S,z,u,st,tok(S,p),F) : uInArr(S,z,u,st,tok(S,p),F)
// rest of a value whose first character c (at p-1) has been consumed
fn untRest(S Bs, z Int, u Bool, c Int, p Int) UR := c == '[' ? unt(S,z,u,1,p,fArr(jsempty(),bempty(),fNil())) : c == '{' ? unt(S,z,u,0,p,fObj(jmempty(),bempty(),fNil()))
  : uScEnd(S,z,u,p-1) < 0 ? ur(uScEnd(S,z,u,p-1), jnil()) : ur(uScEnd(S,z,u,p-1), uScal(S,z,u,p-1))
fn untVal(S Bs, z Int, u Bool, p Int) UR := tok(S,p) >= blen(S) ? ur(-2, jnil()) : untRest(S,z,u,bat(S,tok(S,p)),tok(S,p)+1)

func (it *Iterator) readObjectField() (ret, err)
  ends fieldEnd(it.S, pos(it))
  modifies it.tmpBuffer
  ok bytes(ret) == strDec(it.S, old(pos(it)), bempty()) && e > old(pos(it))

// the frames a node stack stands for
fn frames(m (Array Int JV), s (Array Int JV), f (Array Int Bs), d Int) FR := d <= 0 ? fNil()
  : m[d-1] == jobj(jobj_v(m[d-1])) ? fObj(jobj_v(m[d-1]), f[d-1], frames(m,s,f,d-1))
  : m[d-1] == jnil() && s[d-1] == jarr(jarr_v(s[d-1])) ? fArr(jarr_v(s[d-1]), f[d-1], frames(m,s,f,d-1)) : fNil()
def fr(ns) := frames(col(ns.stack,m), col(ns.stack,s), col(ns.stack,field), len(ns.stack))
fn kinds(F FR) K := isO(F) ? kCons(0, kinds(fo_t(F))) : isA(F) ? kCons(1, kinds(fa_t(F))) : kNil()
lemma framesUpM(m (Array Int JV), s (Array Int JV), f (Array Int Bs), d Int, i Int, v JV) trigger {frames(store(m,i,v),s,f,d)} induct d down {0} := d <= i ==> frames(store(m,i,v),s,f,d) == frames(m,s,f,d)
lemma framesUpS(m (Array Int JV), s (Array Int JV), f (Array Int Bs), d Int, i Int, v JV) trigger {frames(m,store(s,i,v),f,d)} induct d down {0} := d <= i ==> frames(m,store(s,i,v),f,d) == frames(m,s,f,d)
lemma framesUpF(m (Array Int JV), s (Array Int JV), f (Array Int Bs), d Int, i Int, v Bs) trigger {frames(m,s,store(f,i,v),d)} induct d down {0} := d <= i ==> frames(m,s,store(f,i,v),d) == frames(m,s,f,d)
lemma kindsNil(F FR) trigger {kinds(F)} := (kinds(F) == kNil()) == (F == fNil())
lemma kindsHd(F FR) trigger {kinds(F)} := F != fNil() ==> (khd(kinds(F)) == 0) == isO(F) && (khd(kinds(F)) == 1) == isA(F)
lemma kindsAtt(F FR, k Bs, v JV) trigger {attach(F,k,v)} := F != fNil() ==> kinds(attach(F,k,v)) == kinds(F) && attach(F,k,v) != fNil() && isO(attach(F,k,v)) == isO(F)
lemma kinds1(s JS, k Bs) trigger {kinds(fArr(s,k,fNil()))} := kinds(fArr(s,k,fNil())) == kCons(1, kNil())
lemma kinds2(m JM, k Bs) trigger {kinds(fObj(m,k,fNil()))} := kinds(fObj(m,k,fNil())) == kCons(0, kNil())
def pool_nodeStack(x) := true
modset NS(ns) := ns.stack, elems(ns.stack)
func (ns *nodeStack) initArray(s) (ret)
  theory read
  returns ret ns
  flag moves:s fuel:2
  requires s != 0
  modifies NS(ns)
  ensures fr(ns) == fArr(s, bempty(), fNil())
func (ns *nodeStack) initObject(m) (ret)
  theory read
  returns ret ns
  flag moves:m fuel:2
  requires m != 0
  modifies NS(ns)
  ensures fr(ns) == fObj(m, bempty(), fNil())
func (ns *nodeStack) pushArray(field) (ret)
  theory read
  returns ret ns
  requires owned(field)
  modifies NS(ns)
  ensures fr(ns) == fArr(jsempty(), bytes(field), old(fr(ns)))
func (ns *nodeStack) pushObject(field) (ret)
  theory read
  returns ret ns
  requires owned(field)
  modifies NS(ns)
  ensures fr(ns) == fObj(jmempty(), bytes(field), old(fr(ns)))
func (ns *nodeStack) setTopObject(key, value)
  theory read
  requires owned(key) && isO(fr(ns))
  modifies NS(ns)
  ensures fr(ns) == attach(old(fr(ns)), bytes(key), value)
func (ns *nodeStack) appendTopArray(value)
  theory read
  requires isA(fr(ns))
  modifies NS(ns)
  ensures fr(ns) == attach(old(fr(ns)), bempty(), value)
func (ns *nodeStack) popObject()
  theory read
  flag fuel:2
  requires isO(fr(ns)) && fo_t(fr(ns)) != fNil()
  modifies NS(ns)
  ensures fr(ns) == attach(fo_t(old(fr(ns))), fo_k(old(fr(ns))), jobj(fo_m(old(fr(ns)))))
func (ns *nodeStack) popArray()
  theory read
  flag fuel:2
  requires isA(fr(ns)) && fa_t(fr(ns)) != fNil()
  modifies NS(ns)
  ensures fr(ns) == attach(fa_t(old(fr(ns))), fa_k(old(fr(ns))), jarr(fa_s(old(fr(ns)))))
pool unt
  inv stkInv(s)
  inv kinds(fr(ns)) == kCons(0, stk(s)) || kinds(fr(ns)) == kCons(1, stk(s))
  inv $t int :: kinds(fr(ns)) == kCons($t % 2, stk(s))
  inv $t int :: unt(it.S, it.rd, it.useNumber, $t, pos(it), fr(ns)) == in(unt(it.S, it.rd, it.useNumber, $t, pos(it), fr(ns)))
  inv $t int :: 0 <= $t && $t <= 3
func readWithStack(it, top, s, ns) (ret, err)
  theory read
  pool unt
  requires stkInv(s) && 0 <= top && top <= 3 && kinds(fr(ns)) == kCons(top % 2, stk(s))
  ends ue(unt(it.S, it.rd, it.useNumber, top, pos(it), fr(ns)))
  modifies MS(s), NS(ns), it.tmpBuffer
  let r := unt(it.S, it.rd, it.useNumber, top, pos(it), fr(ns))
  ok ret == uv(r) && e > old(pos(it))
pool rdarr
  inv it.head >= 1
  inv $c int :: $c == bat(it.S, pos(it) - 1) && pos(it) > old(pos(it))
  inv $a slice :: uItem(it.S, it.rd, it.useNumber, pos(it)-1, 1, bempty(), fArr($a, bempty(), fNil())) == in(uItem(it.S, it.rd, it.useNumber, pos(it)-1, 1, bempty(), fArr($a, bempty(), fNil())))
func readArrayWithStack(it, c) (ret, err)
  theory read
  pool rdarr
  ends ue(unt(it.S, it.rd, it.useNumber, 1, pos(it), fArr(jsempty(), bempty(), fNil())))
  modifies it.tmpBuffer
  let r := unt(it.S, it.rd, it.useNumber, 1, pos(it), fArr(jsempty(), bempty(), fNil()))
  ok ret == uv(r) && e > old(pos(it))
pool rdobj
  inv $c int :: $c == bat(it.S, pos(it))
  inv $m map :: uMember(it.S, it.rd, it.useNumber, pos(it), fObj($m, bempty(), fNil())) == in(uMember(it.S, it.rd, it.useNumber, pos(it), fObj($m, bempty(), fNil())))
func readObjectWithStack(it, c) (ret, err)
  theory read
  pool rdobj
  ends ue(unt(it.S, it.rd, it.useNumber, 0, pos(it), fObj(jmempty(), bempty(), fNil())))
  modifies it.tmpBuffer
  let r := unt(it.S, it.rd, it.useNumber, 0, pos(it), fObj(jmempty(), bempty(), fNil()))
  ok ret == uv(r) && e > old(pos(it))
func (it *Iterator) Read() (ret, err)
  props C10 C02 C03 C17 C15
  theory read
  ends ue(untVal(it.S, it.rd, it.useNumber, pos(it)))
  modifies it.tmpBuffer
  let r := untVal(it.S, it.rd, it.useNumber, pos(it))
  ok ret == uv(r) && e > old(pos(it))
