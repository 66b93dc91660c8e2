// ---- json.Number: the literal's own bytes, bare or in quotes
func (d *jsonNumberDecoder) Decode(ptr, it, opts) (err)
  props C11 C16 C03 C17
  flag nilable:opts nilable:d
  requires inv(it) && ptr != 0 && it.cfg != 0
  modifies M(it), mem
  let S := it.S
  let t := tok(S, pos(it))
  let bare := t < blen(S) && isnum(bat(S,t)) && numRest(S, it.rd, bat(S,t), t+1) >= 0
  let e := numRest(S, it.rd, bat(S,t), t+1)
  let quo := t + 1 < blen(S) && bat(S,t) == '"' && isnum(bat(S,t+1)) && numRest(S, it.rd, bat(S,t+1), t+2) >= 0 && numRest(S, it.rd, bat(S,t+1), t+2) < blen(S) && bat(S,numRest(S, it.rd, bat(S,t+1), t+2)) == '"'
  let eq := numRest(S, it.rd, bat(S,t+1), t+2)
  ensures keep(it)
  ensures err == 0 ==> (bare && pos(it) == e && mem() == st_str(old(mem()), ptr, appR(bempty(), S, t, e))) || (quo && pos(it) == eq + 1 && mem() == st_str(old(mem()), ptr, appR(bempty(), S, t+1, eq))) || (nullAt(S,t) && mem() == old(mem()) && pos(it) == lit(S, t+1, bytes("ull"), 0))
  ensures err != 0 ==> mem() == old(mem()) && !bare && !quo && !nullAt(S,t)
// ---- json.RawMessage: a copy of the value's bytes
func (d *jsonRawMessageDecoder) Decode(ptr, it, opts) (err)
  props C02 C11 C03 C17
  flag nilable:opts nilable:d
  requires inv(it) && ptr != 0 && it.cfg != 0
  modifies M(it), mem
  let e := valEnd(it.S, it.rd, pos(it))
  let t := tok(it.S, pos(it))
  ensures keep(it)
  ensures err == 0 ==> e >= 0 && pos(it) == e && mem() == st_bytes(old(mem()), ptr, appR(bempty(), it.S, t, e))
  ensures err != 0 ==> e < 0 && mem() == old(mem())
// ---- structs without fields
func (d *emptyObjectDecoder) Decode(ptr, it, opts) (err)
  props C13 C03 C17
  flag nilable:opts nilable:d
  requires inv(it) && it.cfg != 0
  modifies M(it)
  let S := it.S
  let t := tok(S, pos(it))
  let t1 := tok(S, t+1)
  let obj := t < blen(S) && bat(S,t) == '{'
  let e := !obj ? -1 : it.disallowUnknownFields ? (t1 < blen(S) && bat(S,t1) == '}' ? t1+1 : -1) : valEnd(S, it.rd, pos(it))
  ensures keep(it)
  ensures err == 0 ==> (e >= 0 && pos(it) == e) || (nullAt(S,t) && pos(it) == lit(S, t+1, bytes("ull"), 0))
  ensures err != 0 ==> e < 0 && !nullAt(S,t)
// ---- json.Number and json.RawMessage are written verbatim
func (e *jsonNumberEncoder) IsEmpty(ptr) (ret)
  props C14
  flag nilable:e
  requires ptr != 0
  ensures ret == (blen(ld_str(mem(), ptr)) == 0)
func (e *jsonNumberEncoder) Encode(ptr, s, opts)
  props C14
  flag nilable:opts nilable:e
  modifies W(s)
  let v := ld_str(mem(), ptr)
  ensures encd(s, ptr == 0 ? nullTxt(old(sep(s))) : blen(v) == 0 ? snoc(old(sep(s)), '0') : put(old(sep(s)), v))
func (e *jsonRawMessageEncoder) IsEmpty(ptr) (ret)
  props C14
  flag nilable:e
  requires ptr != 0
  ensures ret == (blen(ld_bytes(mem(), ptr)) == 0)
func (e *jsonRawMessageEncoder) Encode(ptr, s, opts)
  props C14
  flag nilable:opts nilable:e
  modifies W(s)
  let v := ld_bytes(mem(), ptr)
  ensures encd(s, ptr == 0 || ldnil(mem(), ptr) ? nullTxt(old(sep(s))) : put(old(sep(s)), v))
