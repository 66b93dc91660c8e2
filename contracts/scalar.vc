// ---- scalar targets in raw memory: mem() is the memory, st_k(m, a, v) stores v at a
def sDig(S, p) := p < blen(S) && (bat(S,p) == '-' ? p+1 < blen(S) && isdig(bat(S,p+1)) : isdig(bat(S,p)))
def sVal(S, p) := bat(S,p) == '-' ? -uvalC(S, p+2, bat(S,p+1)) : uvalC(S, p+1, bat(S,p))
def sEnd(S, p) := bat(S,p) == '-' ? uendC(S, p+2, bat(S,p+1)) : uendC(S, p+1, bat(S,p))
def sFit(S, p, max) := sDig(S,p) && -max - 1 <= sVal(S,p) && sVal(S,p) <= max
def uDig(S, p) := p < blen(S) && isdig(bat(S,p))
def uVal(S, p) := uvalC(S, p+1, bat(S,p))
def uEnd(S, p) := uendC(S, p+1, bat(S,p))
def uFit(S, p, max) := uDig(S,p) && uVal(S,p) <= max
def nullAt(S, t) := t < blen(S) && bat(S,t) == 'n' && lit(S, t+1, bytes("ull"), 0) >= 0
def scalar(it, err, t, good, e, m0, m1) := (err == 0 ==> (good && mem() == m1 && pos(it) == e) || (nullAt(it.S,t) && mem() == m0 && pos(it) == lit(it.S, t+1, bytes("ull"), 0)))
  && (err != 0 ==> mem() == m0 && !nullAt(it.S,t) && (good ==> it.rd != 0 && err == eofErr(it)))
def quot(S, t, q) := t < blen(S) && bat(S,t) != 'n' && (q ==> bat(S,t) == '"')
def unquot(S, e, q) := q ==> e < blen(S) && bat(S,e) == '"'

func (d *int8Decoder) Decode(ptr, it, opts) (err)
  props C11 C03 C17
  flag nilable:opts nilable:d
  requires inv(it) && ptr != 0
  modifies M(it), mem
  let q := opts != 0 && (opts.Quoted || opts.MapKey)
  let t := tok(it.S, pos(it))
  let v := q ? t+1 : t
  let e := sEnd(it.S, v)
  ensures keep(it)
  ensures scalar(it, err, t, quot(it.S,t,q) && sFit(it.S, v, 127) && unquot(it.S,e,q), q ? e+1 : e, old(mem()), st_i8(old(mem()), ptr, sVal(it.S, v)))
func (d *int16Decoder) Decode(ptr, it, opts) (err)
  props C11 C03 C17
  flag nilable:opts nilable:d
  requires inv(it) && ptr != 0
  modifies M(it), mem
  let q := opts != 0 && (opts.Quoted || opts.MapKey)
  let t := tok(it.S, pos(it))
  let v := q ? t+1 : t
  let e := sEnd(it.S, v)
  ensures keep(it)
  ensures scalar(it, err, t, quot(it.S,t,q) && sFit(it.S, v, 32767) && unquot(it.S,e,q), q ? e+1 : e, old(mem()), st_i16(old(mem()), ptr, sVal(it.S, v)))
func (d *int32Decoder) Decode(ptr, it, opts) (err)
  props C11 C03 C17
  flag nilable:opts nilable:d
  requires inv(it) && ptr != 0
  modifies M(it), mem
  let q := opts != 0 && (opts.Quoted || opts.MapKey)
  let t := tok(it.S, pos(it))
  let v := q ? t+1 : t
  let e := sEnd(it.S, v)
  ensures keep(it)
  ensures scalar(it, err, t, quot(it.S,t,q) && sFit(it.S, v, 2147483647) && unquot(it.S,e,q), q ? e+1 : e, old(mem()), st_i32(old(mem()), ptr, sVal(it.S, v)))
func (d *int64Decoder) Decode(ptr, it, opts) (err)
  props C11 C03 C17
  flag nilable:opts nilable:d
  requires inv(it) && ptr != 0
  modifies M(it), mem
  let q := opts != 0 && (opts.Quoted || opts.MapKey)
  let t := tok(it.S, pos(it))
  let v := q ? t+1 : t
  let e := sEnd(it.S, v)
  ensures keep(it)
  ensures scalar(it, err, t, quot(it.S,t,q) && sFit(it.S, v, 9223372036854775807) && unquot(it.S,e,q), q ? e+1 : e, old(mem()), st_i64(old(mem()), ptr, sVal(it.S, v)))
func (d *uint8Decoder) Decode(ptr, it, opts) (err)
  props C11 C03 C17
  flag nilable:opts nilable:d
  requires inv(it) && ptr != 0
  modifies M(it), mem
  let q := opts != 0 && (opts.Quoted || opts.MapKey)
  let t := tok(it.S, pos(it))
  let v := q ? t+1 : t
  let e := uEnd(it.S, v)
  ensures keep(it)
  ensures scalar(it, err, t, quot(it.S,t,q) && uFit(it.S, v, 255) && unquot(it.S,e,q), q ? e+1 : e, old(mem()), st_u8(old(mem()), ptr, uVal(it.S, v)))
func (d *uint16Decoder) Decode(ptr, it, opts) (err)
  props C11 C03 C17
  flag nilable:opts nilable:d
  requires inv(it) && ptr != 0
  modifies M(it), mem
  let q := opts != 0 && (opts.Quoted || opts.MapKey)
  let t := tok(it.S, pos(it))
  let v := q ? t+1 : t
  let e := uEnd(it.S, v)
  ensures keep(it)
  ensures scalar(it, err, t, quot(it.S,t,q) && uFit(it.S, v, 65535) && unquot(it.S,e,q), q ? e+1 : e, old(mem()), st_u16(old(mem()), ptr, uVal(it.S, v)))
func (d *uint32Decoder) Decode(ptr, it, opts) (err)
  props C11 C03 C17
  flag nilable:opts nilable:d
  requires inv(it) && ptr != 0
  modifies M(it), mem
  let q := opts != 0 && (opts.Quoted || opts.MapKey)
  let t := tok(it.S, pos(it))
  let v := q ? t+1 : t
  let e := uEnd(it.S, v)
  ensures keep(it)
  ensures scalar(it, err, t, quot(it.S,t,q) && uFit(it.S, v, 4294967295) && unquot(it.S,e,q), q ? e+1 : e, old(mem()), st_u32(old(mem()), ptr, uVal(it.S, v)))
func (d *uint64Decoder) Decode(ptr, it, opts) (err)
  props C11 C03 C17
  flag nilable:opts nilable:d
  requires inv(it) && ptr != 0
  modifies M(it), mem
  let q := opts != 0 && (opts.Quoted || opts.MapKey)
  let t := tok(it.S, pos(it))
  let v := q ? t+1 : t
  let e := uEnd(it.S, v)
  ensures keep(it)
  ensures scalar(it, err, t, quot(it.S,t,q) && uFit(it.S, v, 18446744073709551615) && unquot(it.S,e,q), q ? e+1 : e, old(mem()), st_u64(old(mem()), ptr, uVal(it.S, v)))
// floating point and boolean targets
func (d *float64Decoder) Decode(ptr, it, opts) (err)
  props C11 C16 C03 C17
  theory float
  flag nilable:opts nilable:d
  requires inv(it) && ptr != 0
  modifies M(it), it.tmpBuffer, mem
  let t := tok(it.S, pos(it))
  let e := numEnd(it.S, it.rd, pos(it))
  let T := appR(bempty(), it.S, t, e)
  ensures keep(it)
  ensures scalar(it, err, t, e >= 0 && pfOk64(T), e, old(mem()), st_f64(old(mem()), ptr, pf64(T)))
func (d *float32Decoder) Decode(ptr, it, opts) (err)
  props C11 C16 C03 C17
  theory float
  flag nilable:opts nilable:d
  requires inv(it) && ptr != 0
  modifies M(it), it.tmpBuffer, mem
  let t := tok(it.S, pos(it))
  let e := numEnd(it.S, it.rd, pos(it))
  let T := appR(bempty(), it.S, t, e)
  ensures keep(it)
  ensures scalar(it, err, t, e >= 0 && pfOk32(T), e, old(mem()), st_f32(old(mem()), ptr, pf32(T)))
def litAt(S, u, c, s) := u < blen(S) && bat(S,u) == c ? lit(S, u+1, s, 0) : -1
func (d *boolDecoder) Decode(ptr, it, opts) (err)
  props C11 C03 C17
  flag nilable:opts nilable:d
  requires inv(it) && ptr != 0
  modifies M(it), mem
  let q := opts != 0 && opts.Quoted
  let t := tok(it.S, pos(it))
  let Q := q && t < blen(it.S) && bat(it.S,t) == '"'
  let u := Q ? tok(it.S, t+1) : t
  let et := litAt(it.S, u, 't', Q ? bytes("rue\"") : bytes("rue"))
  let ef := litAt(it.S, u, 'f', Q ? bytes("alse\"") : bytes("alse"))
  let en := litAt(it.S, u, 'n', Q ? bytes("ull\"") : bytes("ull"))
  ensures keep(it)
  ensures err == 0 ==> (et >= 0 && pos(it) == et && mem() == st_bool(old(mem()), ptr, true)) || (ef >= 0 && pos(it) == ef && mem() == st_bool(old(mem()), ptr, false)) || (en >= 0 && pos(it) == en && mem() == old(mem()))
  ensures err != 0 ==> mem() == old(mem()) && et < 0 && ef < 0 && en < 0
// a string target; with the string option the text is itself a JSON string (or null)
func (d *stringDecoder) Decode(ptr, it, opts) (err)
  props C11 C03 C17
  flag nilable:opts nilable:d
  requires inv(it) && ptr != 0 && it.cfg != 0
  modifies M(it), it.tmpBuffer, mem
  let q := opts != 0 && opts.Quoted
  let t := tok(it.S, pos(it))
  let e := qEnd(it.S, pos(it))
  let s := strDec(it.S, t+1, bempty())
  let n := blen(s)
  let e2 := qEnd(s, 0)
  let good := e >= 0 && (q ==> n >= 2 && bat(s,0) == '"' && bat(s,n-1) == '"' && e2 >= 0 && tok(s,e2) >= n)
  let nul := q && e >= 0 && s == bytes("null")
  ensures keep(it)
  ensures err == 0 ==> (good && pos(it) == e && mem() == st_str(old(mem()), ptr, q ? strDec(s, 1, bempty()) : s)) || (nul && pos(it) == e && mem() == old(mem())) || (nullAt(it.S,t) && mem() == old(mem()) && pos(it) == lit(it.S, t+1, bytes("ull"), 0))
  ensures err != 0 ==> mem() == old(mem()) && !good && !nul && !nullAt(it.S,t)
