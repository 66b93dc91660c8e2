// ---- interface targets
// the data word of an empty interface in memory is the data word of its value
axiom efaceWord(m Mem, a Int) trigger {ld_eface(m, a)} := ld_ptr(m, a+8) == efData(ld_eface(m, a))
ufn tyElem(t Int) Int
iface reflect.Type.Elem() (t)
  ensures t != 0 && tyRef(t) == tyElem(tyRef(self))
func (dec *ifaceDecoder) Decode(ptr, it, opts) (err)
  props C12 C02 C03 C17
  theory coll
  theory iface
  flag nilable:dec, nilable:opts
  requires inv(it) && it.cfg != 0 && ptr != 0 && ptr + 16 < 18446744073709551616 && ld_ptr(mem(), ptr) + 16 < 18446744073709551616
  modifies D(it)
  let S := it.S
  let t := tok(S, pos(it))
  let m := mem()
  let o := ifaceVal(m, ptr)
  let d := decFor(it.cfg, efType(o))
  let isn := t < blen(S) && bat(S,t) == 'n'
  let e := t >= blen(S) ? -2 : lit(S, t+1, bytes("ull"), 0)
  ensures keep(it)
  ensures isn ==> (err == 0 ==> pos(it) == e && mem() == st_eface(m, ptr, jnil())) && (err != 0 ==> e < 0 && mem() == m)
  ensures err == 0 && !isn ==> o != jnil() && efData(o) != 0 && isPtr(efType(o)) && dOk(d, 0, S, it.rd, t, m, efData(o)) && pos(it) == dEnd(d, 0, S, it.rd, t, m, efData(o)) && mem() == dMem(d, 0, S, it.rd, t, m, efData(o))
  ensures err != 0 && !isn ==> t >= blen(S) || o == jnil() || efData(o) == 0 || !isPtr(efType(o)) || !dOk(d, 0, S, it.rd, t, m, efData(o))
  ensures err != 0 && !isn && (o == jnil() || efData(o) == 0 || !isPtr(efType(o))) ==> mem() == m

// what reflect.New gives for a type: its value, the memory with the new object
ufn newObj(m Mem, t Int) Int
ufn efOf(p Int) JV
def newEf(m, t) := efOf(newObj(m, t))
ufn newEfMem(m Mem, t Int) Mem
ext reflect.New(typ) (v)
  modifies mem
  ensures mem() == newEfMem(old(mem()), tyRef(typ)) && v.ptr == newObj(old(mem()), tyRef(typ))
ext reflect.Value.Interface(v) (r)
  ensures r == efOf(v.ptr)
func (dec *efaceDecoder) Decode(ptr, it, opts) (err)
  props C12 C19 C10 C02 C03 C17
  theory coll
  theory iface
  flag nilable:dec, nilable:opts
  requires inv(it) && it.cfg != 0 && ptr != 0 && ptr + 16 < 18446744073709551616 && it.efaceCount < 9223372036854775807
  modifies D(it)
  let S := it.S
  let t := tok(S, pos(it))
  let m := mem()
  let o := ld_eface(m, ptr)
  let a := efData(o)
  let loop := it.lastEfacePtr != 0 && pos(it) == it.lastEfaceOffset && ptr == it.lastEfacePtr
  let ptrd := a != 0 && isPtr(efType(o))
  let r := untVal(S, it.rd, it.useNumber, pos(it))
  let isn := t < blen(S) && bat(S,t) == 'n'
  let n := lit(S, t+1, bytes("ull"), 0)
  let d := decFor(it.cfg, efType(o))
  let et := tyElem(efType(o))
  ensures keep(it)
  case loop: loop
    ensures err != 0 && pos(it) == old(pos(it)) && mem() == m
  case untyped: !loop && !ptrd
    ensures err == 0 ==> ue(r) >= 0 && pos(it) == ue(r) && mem() == st_eface(m, ptr, uv(r))
    ensures err != 0 ==> ue(r) < 0 && mem() == m
  case null: !loop && ptrd && isn
    ensures err == 0 ==> n >= 0 && pos(it) == n && mem() == (isPtr(et) ? st_eface(newEfMem(m, et), ptr, newEf(m, et)) : st_eface(m, ptr, jnil()))
    ensures err != 0 ==> n < 0 && mem() == m
  case typed: !loop && ptrd && !isn
    ensures err == 0 ==> dOk(d, 0, S, it.rd, t, m, a) && pos(it) == dEnd(d, 0, S, it.rd, t, m, a) && mem() == st_eface(dMem(d, 0, S, it.rd, t, m, a), ptr, o)
    ensures err != 0 ==> t >= blen(S) || !dOk(d, 0, S, it.rd, t, m, a)
