// ---- user marshalers: functions of the value (assumed to change nothing); their text is written verbatim or as a string
ufn asIface(v JV) Int
ufn isType_encoding_json_Marshaler(v JV) Bool
ufn isType_encoding_TextMarshaler(v JV) Bool
ufn mjErr(i Int, m Mem) Int
ufn mjTxt(i Int, m Mem) Bs
ufn mtErr(i Int, m Mem) Int
ufn mtTxt(i Int, m Mem) Bs
iface json.Marshaler.MarshalJSON() (ret, err)
  ensures err == mjErr(self, mem()) && bytes(ret) == mjTxt(self, mem())
iface encoding.TextMarshaler.MarshalText() (ret, err)
  ensures err == mtErr(self, mem()) && bytes(ret) == mtTxt(self, mem())
def mjOut(s, i) := old(s.Error) != 0 ? same(s) : mjErr(i, mem()) != 0 ? s.Error == mjErr(i, mem()) && bytes(s.buffer) == old(bytes(s.buffer)) && s.poped == old(s.poped) : wrote(s, put(old(sep(s)), mjTxt(i, mem())), true)
def mtOut(s, i) := old(s.Error) != 0 ? same(s) : mtErr(i, mem()) != 0 ? s.Error == mtErr(i, mem()) && bytes(s.buffer) == old(bytes(s.buffer)) && s.poped == old(s.poped) : wrote(s, esc(q(old(sep(s))), mtTxt(i, mem()), 0, blen(mtTxt(i, mem())), s.safeSet), true)
ufn isEmp(f Int, m Mem, a Int) Bool
iface func.jzon.isEmptyFunc(ptr) (ret)
  ensures ret == isEmp(self, mem(), ptr)
func (enc *jsonMarshalerEncoder) Encode(ptr, s, opts)
  props C14
  flag nilable:opts
  requires forall p Int :: isType_encoding_json_Marshaler(mkEf(enc.rtype, p))
  modifies W(s)
  ensures ptr == 0 ==> encd(s, nullTxt(old(sep(s))))
  ensures ptr != 0 ==> mjOut(s, asIface(mkEf(enc.rtype, ptr)))
func (enc *directJSONMarshalerEncoder) Encode(ptr, s, opts)
  props C14
  flag nilable:opts
  requires forall p Int :: isType_encoding_json_Marshaler(mkEf(enc.rtype, p))
  modifies W(s)
  ensures ptr == 0 ==> encd(s, nullTxt(old(sep(s))))
  ensures ptr != 0 ==> mjOut(s, asIface(mkEf(enc.rtype, ld_ptr(mem(), ptr))))
func (enc pointerJSONMarshalerEncoder) Encode(ptr, s, opts)
  props C14
  flag nilable:opts
  requires forall p Int :: isType_encoding_json_Marshaler(mkEf(enc, p))
  modifies W(s)
  ensures ptr == 0 || ld_ptr(mem(), ptr) == 0 ==> encd(s, nullTxt(old(sep(s))))
  ensures ptr != 0 && ld_ptr(mem(), ptr) != 0 ==> mjOut(s, asIface(mkEf(enc, ld_ptr(mem(), ptr))))
func (enc *dynamicJSONMarshalerEncoder) Encode(ptr, s, opts)
  props C14
  flag nilable:opts nilable:enc
  modifies W(s)
  ensures ptr == 0 || ld_iface(mem(), ptr) == 0 ==> encd(s, nullTxt(old(sep(s))))
  ensures ptr != 0 && ld_iface(mem(), ptr) != 0 ==> mjOut(s, ld_iface(mem(), ptr))
func (enc *jsonMarshalerEncoder) IsEmpty(ptr) (ret)
  props C14
  requires enc.isEmpty != 0
  ensures ret == isEmp(enc.isEmpty, mem(), ptr)
func (enc *directJSONMarshalerEncoder) IsEmpty(ptr) (ret)
  props C14
  requires enc.isEmpty != 0
  ensures ret == isEmp(enc.isEmpty, mem(), ptr)
func (enc pointerJSONMarshalerEncoder) IsEmpty(ptr) (ret)
  props C14
  requires ptr != 0
  ensures ret == (ld_ptr(mem(), ptr) == 0)
func (enc *dynamicJSONMarshalerEncoder) IsEmpty(ptr) (ret)
  props C14
  flag nilable:enc
  requires ptr != 0
  ensures ret == (ld_iface(mem(), ptr) == 0)
func (enc *textMarshalerEncoder) Encode(ptr, s, opts)
  props C14
  flag nilable:opts
  requires tabs(s)
  requires forall p Int :: isType_encoding_TextMarshaler(mkEf(enc.rtype, p))
  modifies W(s)
  ensures ptr == 0 ==> encd(s, nullTxt(old(sep(s))))
  ensures ptr != 0 ==> mtOut(s, asIface(mkEf(enc.rtype, ptr)))
func (enc *directTextMarshalerEncoder) Encode(ptr, s, opts)
  props C14
  flag nilable:opts
  requires tabs(s)
  requires forall p Int :: isType_encoding_TextMarshaler(mkEf(enc.rtype, p))
  modifies W(s)
  ensures ptr == 0 ==> encd(s, nullTxt(old(sep(s))))
  ensures ptr != 0 ==> mtOut(s, asIface(mkEf(enc.rtype, ld_ptr(mem(), ptr))))
func (enc pointerTextMarshalerEncoder) Encode(ptr, s, opts)
  props C14
  flag nilable:opts
  requires tabs(s)
  requires forall p Int :: isType_encoding_TextMarshaler(mkEf(enc, p))
  modifies W(s)
  ensures ptr == 0 || ld_ptr(mem(), ptr) == 0 ==> encd(s, nullTxt(old(sep(s))))
  ensures ptr != 0 && ld_ptr(mem(), ptr) != 0 ==> mtOut(s, asIface(mkEf(enc, ld_ptr(mem(), ptr))))
func (enc *dynamicTextMarshalerEncoder) Encode(ptr, s, opts)
  props C14
  flag nilable:opts nilable:enc
  requires tabs(s)
  modifies W(s)
  ensures ptr == 0 || ld_iface(mem(), ptr) == 0 ==> encd(s, nullTxt(old(sep(s))))
  ensures ptr != 0 && ld_iface(mem(), ptr) != 0 ==> mtOut(s, ld_iface(mem(), ptr))
func (enc *textMarshalerEncoder) IsEmpty(ptr) (ret)
  props C14
  requires enc.isEmpty != 0
  ensures ret == isEmp(enc.isEmpty, mem(), ptr)
func (enc *directTextMarshalerEncoder) IsEmpty(ptr) (ret)
  props C14
  requires enc.isEmpty != 0
  ensures ret == isEmp(enc.isEmpty, mem(), ptr)
func (enc pointerTextMarshalerEncoder) IsEmpty(ptr) (ret)
  props C14
  requires ptr != 0
  ensures ret == (ld_ptr(mem(), ptr) == 0)
func (enc *dynamicTextMarshalerEncoder) IsEmpty(ptr) (ret)
  props C14
  flag nilable:enc
  requires ptr != 0
  ensures ret == (ld_iface(mem(), ptr) == 0)
// ---- user unmarshalers get exactly the bytes of the value (resp. the decoded string) and decide the rest
ufn isType_encoding_json_Unmarshaler(v JV) Bool
ufn isType_encoding_TextUnmarshaler(v JV) Bool
ufn ujErr(i Int, b Bs, m Mem) Int
ufn ujMem(i Int, b Bs, m Mem) Mem
ufn utErr(i Int, b Bs, m Mem) Int
ufn utMem(i Int, b Bs, m Mem) Mem
iface json.Unmarshaler.UnmarshalJSON(b) (err)
  modifies mem
  ensures err == ujErr(self, bytes(b), old(mem())) && mem() == ujMem(self, bytes(b), old(mem()))
iface encoding.TextUnmarshaler.UnmarshalText(b) (err)
  modifies mem
  ensures err == utErr(self, bytes(b), old(mem())) && mem() == utMem(self, bytes(b), old(mem()))
func (dec jsonUnmarshalerDecoder) Decode(ptr, it, opts) (err)
  props C02 C11 C03 C17
  flag nilable:opts
  requires inv(it) && it.cfg != 0
  requires forall p Int :: isType_encoding_json_Unmarshaler(mkEf(dec, p))
  modifies M(it), mem
  let e := valEnd(it.S, it.rd, pos(it))
  let b := appR(bempty(), it.S, tok(it.S, pos(it)), e)
  let u := asIface(mkEf(dec, ptr))
  ensures keep(it)
  ensures e >= 0 ==> err == ujErr(u, b, old(mem())) && mem() == ujMem(u, b, old(mem())) && pos(it) == e
  ensures e < 0 ==> err != 0 && mem() == old(mem())
func (dec textUnmarshalerDecoder) Decode(ptr, it, opts) (err)
  props C06 C11 C03 C17
  flag nilable:opts
  requires inv(it) && it.cfg != 0
  requires forall p Int :: isType_encoding_TextUnmarshaler(mkEf(dec, p))
  modifies M(it), it.tmpBuffer, mem
  let e := qEnd(it.S, pos(it))
  let t := tok(it.S, pos(it))
  let b := strDec(it.S, t+1, bempty())
  let u := asIface(mkEf(dec, ptr))
  ensures keep(it)
  ensures e >= 0 ==> err == utErr(u, b, old(mem())) && mem() == utMem(u, b, old(mem())) && pos(it) == e
  ensures e < 0 ==> mem() == old(mem())
  ensures err == 0 ==> e >= 0 || (nullAt(it.S,t) && pos(it) == lit(it.S, t+1, bytes("ull"), 0))
// ---- map keys that marshal to text: the text as a string, then a colon
def mtKey(s, i) := old(s.Error) != 0 ? same(s) : mtErr(i, mem()) != 0 ? s.Error == mtErr(i, mem()) && bytes(s.buffer) == old(bytes(s.buffer)) && s.poped == old(s.poped) : wrote(s, snoc(esc(q(old(sep(s))), mtTxt(i, mem()), 0, blen(mtTxt(i, mem())), s.safeSet), ':'), false)
func (enc textMarshalerKeyEncoder) Encode(ptr, s)
  props C14
  requires tabs(s) && ptr != 0
  requires forall p Int :: isType_encoding_TextMarshaler(mkEf(enc, p))
  modifies W(s)
  ensures mtKey(s, asIface(mkEf(enc, ptr)))
func (enc directTextMarshalerKeyEncoder) Encode(ptr, s)
  props C14
  requires tabs(s) && ptr != 0
  requires forall p Int :: isType_encoding_TextMarshaler(mkEf(enc, p))
  modifies W(s)
  let a := ld_ptr(mem(), ptr)
  ensures a != 0 ==> mtKey(s, asIface(mkEf(enc, a)))
  ensures a == 0 ==> wrote(s, snoc(esc(q(old(sep(s))), bempty(), 0, 0, s.safeSet), ':'), false)
