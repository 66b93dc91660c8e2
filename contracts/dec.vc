// ---- the streaming decoder
// decoding through a reflective decoder
func (decCfg *DecoderConfig) getDecoderFromCache(rType) (res)
  flag trusted
  ensures res == 0 || (res == decFor(decCfg, rType) && isPtr(rType))
func (decCfg *DecoderConfig) createDecoder(rType, ptrType) (res)
  flag trusted
  ensures res != 0 && res == decFor(decCfg, rType)
ufn tyRef(t Int) Int
iface reflect.Type.Kind() (k)
  ensures 0 <= k && k <= 26 && k == tyKind(tyRef(self)) && (k == 22) == isPtr(tyRef(self))
func (it *Iterator) ReadVal(obj) (err)
  props C12 C18 C17 C02 C03
  theory coll
  requires inv(it) && it.cfg != 0
  modifies D(it)
  let d := decFor(it.cfg, efType(obj))
  let a := efData(obj)
  let p := tok(it.S, pos(it))
  let m := mem()
  ensures keep(it)
  case nil: a == 0
    ensures err != 0 && pos(it) == old(pos(it)) && mem() == m
  case notptr: a != 0 && !isPtr(efType(obj))
    ensures err != 0 && pos(it) == old(pos(it)) && mem() == m
  case ok: a != 0 && isPtr(efType(obj)) && err == 0
    ensures dOk(d, 0, it.S, it.rd, p, m, a) && pos(it) == dEnd(d, 0, it.S, it.rd, p, m, a) && pos(it) >= old(pos(it)) && mem() == dMem(d, 0, it.S, it.rd, p, m, a)
  case bad: a != 0 && isPtr(efType(obj)) && err != 0
    ensures !dOk(d, 0, it.S, it.rd, p, m, a)

func (dec *Decoder) Decode(v) (err)
  props C18
  theory coll
  requires dec.it != 0 && inv(dec.it) && dec.it.cfg != 0
  modifies dec.err, D(dec.it)
  let d := decFor(dec.it.cfg, efType(v))
  let a := efData(v)
  let p := tok(dec.it.S, pos(dec.it))
  let m := mem()
  ensures keep(dec.it) && err == dec.err
  ensures old(dec.err) != 0 ==> dec.err == old(dec.err) && pos(dec.it) == old(pos(dec.it)) && mem() == old(mem())
  ensures err == 0 ==> a != 0 && isPtr(efType(v)) && dOk(d, 0, dec.it.S, dec.it.rd, p, m, a) && pos(dec.it) == dEnd(d, 0, dec.it.S, dec.it.rd, p, m, a) && mem() == dMem(d, 0, dec.it.S, dec.it.rd, p, m, a)
  ensures err != 0 && old(dec.err) == 0 && a != 0 && isPtr(efType(v)) ==> !dOk(d, 0, dec.it.S, dec.it.rd, p, m, a)

// ---- whole documents: one value and nothing else
def docOk(S, z, c, v, m) := efData(v) != 0 && isPtr(efType(v)) && dOk(decFor(c, efType(v)), 0, S, z, tok(S,0), m, efData(v)) && tok(S, dEnd(decFor(c, efType(v)), 0, S, z, tok(S,0), m, efData(v))) >= blen(S) && z == 0
def docMem(S, z, c, v, m) := dMem(decFor(c, efType(v)), 0, S, z, tok(S,0), m, efData(v))
func (it *Iterator) unmarshal(obj) (err)
  props C02 C03 C12 C17
  theory coll
  requires inv(it) && it.cfg != 0 && pos(it) == 0
  modifies D(it)
  let m := mem()
  ensures keep(it)
  case ok: err == 0
    ensures docOk(it.S, it.rd, it.cfg, obj, m) && mem() == docMem(it.S, it.rd, it.cfg, obj, m)
  case bad: err != 0
    ensures !docOk(it.S, it.rd, it.cfg, obj, m)
func (it *Iterator) Unmarshal(data, obj) (err)
  props C02 C12 C17 C15
  theory coll
  requires it.cfg != 0
  modifies R(it), D(it)
  let m := mem()
  ensures inv(it)
  case ok: err == 0
    ensures docOk(bytes(data), 0, it.cfg, obj, m) && mem() == docMem(bytes(data), 0, it.cfg, obj, m)
  case bad: err != 0
    ensures !docOk(bytes(data), 0, it.cfg, obj, m)
func (it *Iterator) UnmarshalFromReader(r, obj) (err)
  props C02 C03 C12 C17 C15
  theory coll
  requires it.cfg != 0 && r != 0
  modifies R(it), D(it)
  let m := mem()
  ensures inv(it)
  case ok: err == 0
    ensures docOk(readerS(r), readerErr(r), it.cfg, obj, m) && mem() == docMem(readerS(r), readerErr(r), it.cfg, obj, m)
  case bad: err != 0
    ensures !docOk(readerS(r), readerErr(r), it.cfg, obj, m)

func (decCfg *DecoderConfig) Unmarshal(data, obj) (err)
  props C02 C12 C17
  theory coll
  modifies mem
  let m := mem()
  case ok: err == 0
    ensures docOk(bytes(data), 0, decCfg, obj, m) && mem() == docMem(bytes(data), 0, decCfg, obj, m)
  case bad: err != 0
    ensures !docOk(bytes(data), 0, decCfg, obj, m)
func (decCfg *DecoderConfig) UnmarshalFromString(s, obj) (err)
  props C02 C12 C17
  theory coll
  modifies mem
  let m := mem()
  case ok: err == 0
    ensures docOk(bytes(s), 0, decCfg, obj, m) && mem() == docMem(bytes(s), 0, decCfg, obj, m)
  case bad: err != 0
    ensures !docOk(bytes(s), 0, decCfg, obj, m)
func (decCfg *DecoderConfig) UnmarshalFromReader(r, obj) (err)
  props C02 C03 C12 C17
  theory coll
  requires r != 0
  modifies mem
  let m := mem()
  case ok: err == 0
    ensures docOk(readerS(r), readerErr(r), decCfg, obj, m) && mem() == docMem(readerS(r), readerErr(r), decCfg, obj, m)
  case bad: err != 0
    ensures !docOk(readerS(r), readerErr(r), decCfg, obj, m)

func (dec *Decoder) More() (r)
  props C18
  requires dec.it != 0 && inv(dec.it)
  modifies M(dec.it)
  ensures keep(dec.it)
  ensures r == (dec.err == 0 && tok(dec.it.S, old(pos(dec.it))) < blen(dec.it.S))
  ensures dec.err == 0 ==> pos(dec.it) == tok(dec.it.S, old(pos(dec.it)))
  ensures dec.err != 0 ==> pos(dec.it) == old(pos(dec.it))

func (dec *Decoder) InputOffset() (r)
  props C18
  requires dec.it != 0 && inv(dec.it)
  ensures r == pos(dec.it)

ext bytes.NewReader(b) (r)
  ensures readerS(r) == bytes(b)
func (dec *Decoder) Buffered() (r)
  props C18
  requires dec.it != 0 && inv(dec.it)
  ensures readerS(r) == appR(bempty(), dec.it.S, pos(dec.it), dec.it.offset + dec.it.tail)

func (dec *Decoder) UseNumber()
  props C18
  requires dec.it != 0
  modifies dec.it.useNumber
  ensures dec.it.useNumber
func (dec *Decoder) DisallowUnknownFields()
  props C18
  requires dec.it != 0
  modifies dec.it.disallowUnknownFields
  ensures dec.it.disallowUnknownFields
