// Reading arrays and objects piece by piece, and with callbacks.
// A callback is what its user wrote: whether it accepts, where it stops and what it stores are
// unknown functions of the stream, the position it is called at, the key and the memory.
ufn cbOk(f Int, k Bs, S Bs, z Int, p Int, m Mem) Bool
ufn cbEnd(f Int, k Bs, S Bs, z Int, p Int, m Mem) Int
ufn cbMem(f Int, k Bs, S Bs, z Int, p Int, m Mem) Mem
iface func._Iterator_error(it) (err)
  requires inv(it)
  modifies D(it)
  let p := pos(it)
  let m := mem()
  ensures keep(it)
  case ok: err == 0
    ensures cbOk(self, bempty(), it.S, it.rd, p, m) && pos(it) == cbEnd(self, bempty(), it.S, it.rd, p, m) && pos(it) >= p && mem() == cbMem(self, bempty(), it.S, it.rd, p, m)
  case bad: err != 0
    ensures !cbOk(self, bempty(), it.S, it.rd, p, m)

func (it *Iterator) ReadArrayBegin() (ret, err)
  props C02 C03 C17
  requires inv(it)
  modifies M(it)
  let S := it.S
  let t := tok(S, pos(it))
  let arr := t < blen(S) && bat(S,t) == '['
  let t1 := tok(S, t+1)
  ensures keep(it) && pos(it) >= old(pos(it))
  case more: err == 0 && ret
    ensures arr && t1 < blen(S) && bat(S,t1) != ']' && pos(it) == t1
  case none: err == 0 && !ret
    ensures arr && t1 < blen(S) && bat(S,t1) == ']' && pos(it) == t1+1
  case end: err == eofErr(it)
    ensures !ret && (t >= blen(S) || arr && t1 >= blen(S))
  case bad: err != 0 && err != eofErr(it)
    ensures !ret && synErr(err) && t < blen(S) && !arr

func (it *Iterator) ReadArrayMore() (ret, err)
  props C02 C03 C17
  requires inv(it)
  modifies M(it)
  let S := it.S
  let t := tok(S, pos(it))
  ensures keep(it) && pos(it) >= old(pos(it))
  case more: err == 0 && ret
    ensures t < blen(S) && bat(S,t) == ',' && pos(it) == t+1
  case none: err == 0 && !ret
    ensures t < blen(S) && bat(S,t) == ']' && pos(it) == t+1
  case end: err == eofErr(it)
    ensures !ret && t >= blen(S)
  case bad: err != 0 && err != eofErr(it)
    ensures !ret && synErr(err) && t < blen(S) && bat(S,t) != ',' && bat(S,t) != ']'

def obCode(S, t, f) := t >= blen(S) ? -2 : bat(S,t) != f ? -1 : 0
func (it *Iterator) ReadObjectBegin() (ret, field, err)
  props C02 C03 C17 C06
  requires inv(it)
  modifies M(it), it.tmpBuffer
  let S := it.S
  let t := tok(S, pos(it))
  let o := obCode(S, t, '{')
  let t1 := tok(S, t+1)
  let e := o < 0 ? o : t1 >= blen(S) ? -2 : bat(S,t1) == '}' ? t1+1 : bat(S,t1) == '"' ? fieldEnd(S, t1+1) : -1
  ensures keep(it) && (err == 0 ==> pos(it) >= old(pos(it)))
  case more: err == 0 && ret
    ensures e >= 0 && pos(it) == e && bat(S,t1) == '"' && bytes(field) == strDec(S, t1+1, bempty())
  case none: err == 0 && !ret
    ensures e >= 0 && pos(it) == e && bat(S,t1) == '}' && len(field) == 0
  case end: err == eofErr(it)
    ensures !ret && e == -2
  case bad: err != 0 && err != eofErr(it)
    ensures !ret && synErr(err) && e == -1

func (it *Iterator) ReadObjectMore() (ret, field, err)
  props C02 C03 C17 C06
  requires inv(it)
  modifies M(it), it.tmpBuffer
  let S := it.S
  let t := tok(S, pos(it))
  let t1 := tok(S, t+1)
  let e := t >= blen(S) ? -2 : bat(S,t) == '}' ? t+1 : bat(S,t) != ',' ? -1 : t1 >= blen(S) ? -2 : bat(S,t1) == '"' ? fieldEnd(S, t1+1) : -1
  ensures keep(it) && (err == 0 ==> pos(it) >= old(pos(it)))
  case more: err == 0 && ret
    ensures e >= 0 && pos(it) == e && bat(S,t) == ',' && bytes(field) == strDec(S, t1+1, bempty())
  case none: err == 0 && !ret
    ensures e >= 0 && pos(it) == e && bat(S,t) == '}' && len(field) == 0
  case end: err == eofErr(it)
    ensures !ret && e == -2
  case bad: err != 0 && err != eofErr(it)
    ensures !ret && synErr(err) && e == -1

// whole arrays and objects: one callback per element, in order, at the element
fn caEnd(f Int, S Bs, z Int, p Int, m Mem) Int := !cbOk(f, bempty(), S, z, p, m) ? -1 : caTail(f, S, z, tok(S, cbEnd(f,bempty(),S,z,p,m)), cbMem(f,bempty(),S,z,p,m))
fn caTail(f Int, S Bs, z Int, t Int, m Mem) Int := t >= blen(S) ? -1 : bat(S,t) == ']' ? t+1 : bat(S,t) == ',' ? caEnd(f, S, z, t+1, m) : -1
fn caMem(f Int, S Bs, z Int, p Int, m Mem) Mem := caMemT(f, S, z, tok(S, cbEnd(f,bempty(),S,z,p,m)), cbMem(f,bempty(),S,z,p,m))
fn caMemT(f Int, S Bs, z Int, t Int, m Mem) Mem := bat(S,t) == ',' ? caMem(f, S, z, t+1, m) : m
pool cacb
  inv $p pos :: caEnd(cb, it.S, it.rd, $p, mem()) == in(caEnd(cb, it.S, it.rd, $p, mem()))
  inv $p pos :: caMem(cb, it.S, it.rd, $p, mem()) == in(caMem(cb, it.S, it.rd, $p, mem()))
func (it *Iterator) ReadArrayCB(cb) (err)
  props C02 C03 C17
  theory cb
  flag fuel:2
  pool cacb
  requires inv(it) && cb != 0
  modifies D(it)
  let S := it.S
  let t := tok(S, pos(it))
  let arr := t < blen(S) && bat(S,t) == '['
  let t1 := tok(S, t+1)
  let empty := arr && t1 < blen(S) && bat(S,t1) == ']'
  let e := empty ? t1+1 : arr && t1 < blen(S) ? caEnd(cb, S, it.rd, t1, mem()) : -1
  ensures keep(it)
  ensures err == 0 ==> e >= 0 && pos(it) == e && pos(it) >= old(pos(it)) && mem() == (empty ? old(mem()) : caMem(cb, S, it.rd, t1, old(mem())))
  ensures err != 0 ==> e < 0

iface func._Iterator_string_error(it, field) (err)
  requires inv(it)
  modifies D(it)
  let p := pos(it)
  let m := mem()
  let k := bytes(field)
  ensures keep(it)
  case ok: err == 0
    ensures cbOk(self, k, it.S, it.rd, p, m) && pos(it) == cbEnd(self, k, it.S, it.rd, p, m) && pos(it) >= p && mem() == cbMem(self, k, it.S, it.rd, p, m)
  case bad: err != 0
    ensures !cbOk(self, k, it.S, it.rd, p, m)

// p is after the opening quote of the key
fn coEnd(f Int, S Bs, z Int, p Int, m Mem) Int := fieldEnd(S,p) < 0 ? -1 : !cbOk(f, strDec(S,p,bempty()), S, z, fieldEnd(S,p), m) ? -1
  : coTail(f, S, z, tok(S, cbEnd(f,strDec(S,p,bempty()),S,z,fieldEnd(S,p),m)), cbMem(f,strDec(S,p,bempty()),S,z,fieldEnd(S,p),m))
fn coTail(f Int, S Bs, z Int, t Int, m Mem) Int := t >= blen(S) ? -1 : bat(S,t) == '}' ? t+1 : bat(S,t) != ',' ? -1 : tok(S,t+1) >= blen(S) ? -1 : bat(S,tok(S,t+1)) == '"' ? coEnd(f, S, z, tok(S,t+1)+1, m) : -1
fn coMem(f Int, S Bs, z Int, p Int, m Mem) Mem := coMemT(f, S, z, tok(S, cbEnd(f,strDec(S,p,bempty()),S,z,fieldEnd(S,p),m)), cbMem(f,strDec(S,p,bempty()),S,z,fieldEnd(S,p),m))
fn coMemT(f Int, S Bs, z Int, t Int, m Mem) Mem := bat(S,t) == ',' ? coMem(f, S, z, tok(S,t+1)+1, m) : m
pool cocb
  inv $p pos :: coEnd(cb, it.S, it.rd, $p, mem()) == in(coEnd(cb, it.S, it.rd, $p, mem()))
  inv $p pos :: coMem(cb, it.S, it.rd, $p, mem()) == in(coMem(cb, it.S, it.rd, $p, mem()))
func (it *Iterator) ReadObjectCB(cb) (err)
  props C02 C03 C17 C06
  theory cb
  flag fuel:2
  pool cocb
  requires inv(it) && cb != 0
  modifies D(it)
  let S := it.S
  let t := tok(S, pos(it))
  let obj := t < blen(S) && bat(S,t) == '{'
  let t1 := tok(S, t+1)
  let empty := obj && t1 < blen(S) && bat(S,t1) == '}'
  let e := empty ? t1+1 : obj && t1 < blen(S) && bat(S,t1) == '"' ? coEnd(cb, S, it.rd, t1+1, mem()) : -1
  ensures keep(it)
  ensures err == 0 ==> e >= 0 && pos(it) == e && pos(it) >= old(pos(it)) && mem() == (empty ? old(mem()) : coMem(cb, S, it.rd, t1+1, old(mem())))
  ensures err != 0 ==> e < 0
