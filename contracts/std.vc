// ---- the package-level functions and the small wrappers
func Unmarshal(data, o) (err)
  props C02 C12 C17
  theory coll
  requires DefaultDecoderConfig != nil
  modifies mem
  let m := mem()
  case ok: err == 0
    ensures docOk(bytes(data), 0, DefaultDecoderConfig, o, m) && mem() == docMem(bytes(data), 0, DefaultDecoderConfig, o, m)
  case bad: err != 0
    ensures !docOk(bytes(data), 0, DefaultDecoderConfig, o, m)
func UnmarshalFromString(s, o) (err)
  props C02 C12 C17
  theory coll
  requires DefaultDecoderConfig != nil
  modifies mem
  let m := mem()
  case ok: err == 0
    ensures docOk(bytes(s), 0, DefaultDecoderConfig, o, m) && mem() == docMem(bytes(s), 0, DefaultDecoderConfig, o, m)
  case bad: err != 0
    ensures !docOk(bytes(s), 0, DefaultDecoderConfig, o, m)
func UnmarshalFromReader(r, o) (err)
  props C02 C03 C12 C17
  theory coll
  requires r != 0 && DefaultDecoderConfig != nil
  modifies mem
  let m := mem()
  case ok: err == 0
    ensures docOk(readerS(r), readerErr(r), DefaultDecoderConfig, o, m) && mem() == docMem(readerS(r), readerErr(r), DefaultDecoderConfig, o, m)
  case bad: err != 0
    ensures !docOk(readerS(r), readerErr(r), DefaultDecoderConfig, o, m)
func Valid(data) (ok)
  props C01 C15
  requires DefaultDecoderConfig != nil
  let D := bytes(data)
  let e := valEnd(D, 0, 0)
  ensures ok == (e >= 0 && tok(D, e) == blen(D))
func Marshal(o) (ret, err)
  props C14 C07
  requires DefaultEncoderConfig != nil
  ensures err == 0 ==> owned(ret) && bytes(ret) == (o == jnil() ? nullTxt(bempty()) : eT(encFor(DefaultEncoderConfig, efType(o)), 0, DefaultEncoderConfig.escapeHTML ? 2 : 1, mem(), efData(o)))
  ensures o != jnil() ==> err == eErr(encFor(DefaultEncoderConfig, efType(o)), 0, DefaultEncoderConfig.escapeHTML ? 2 : 1, mem(), efData(o))
func (decCfg *DecoderConfig) NewDecoder(r) (dec)
  props C18 C03
  requires r != 0
  ensures dec != nil && dec.it != nil && dec.err == 0 && inv(dec.it) && dec.it.S == readerS(r) && dec.it.rd == readerErr(r) && pos(dec.it) == 0 && dec.it.cfg == decCfg && dec.it.useNumber == decCfg.useNumber && dec.it.disallowUnknownFields == decCfg.disallowUnknownFields
func NewDecoder(r) (dec)
  props C18 C03
  requires r != 0 && DefaultDecoderConfig != nil
  ensures dec != nil && dec.it != nil && dec.err == 0 && inv(dec.it) && dec.it.S == readerS(r) && dec.it.rd == readerErr(r) && pos(dec.it) == 0 && dec.it.cfg == DefaultDecoderConfig
func (dec *Decoder) Release()
  props C15
  requires dec.it != nil && dec.it.cfg != nil && inv(dec.it)
  modifies R(dec.it), dec.it.cfg, dec.it
  ensures dec.it == nil
func (encCfg *EncoderConfig) NewEncoder(w) (e)
  props C09 C14
  requires w != 0
  ensures e != nil && e.s != nil && e.err == 0 && tabs(e.s) && e.s.writer == w && e.s.Error == 0 && !e.s.poped && len(e.s.buffer) == 0 && e.s.cfg == encCfg && e.s.escapeHTML == encCfg.escapeHTML
func NewEncoder(w) (e)
  props C09 C14
  requires w != 0 && DefaultEncoderConfig != nil
  ensures e != nil && e.s != nil && e.err == 0 && tabs(e.s) && e.s.writer == w && e.s.Error == 0 && !e.s.poped && len(e.s.buffer) == 0 && e.s.cfg == DefaultEncoderConfig
func (e *Encoder) Release()
  props C15
  requires e.s != nil && e.s.cfg != nil
  modifies W(e.s), e.s.writer, e.s.Context, e.s.cfg, e.s
  ensures e.s == nil
func (e *Encoder) SetEscapeHTML(on)
  props C07
  requires e.s != nil
  modifies e.s.escapeHTML, e.s.safeSet
  ensures e.s.escapeHTML == on && tabs(e.s)
func NewStreamer() (s)
  props C15 C07
  requires DefaultEncoderConfig != nil
  ensures pool_Streamer(s) && s.cfg == DefaultEncoderConfig && tabs(s) && s.escapeHTML == DefaultEncoderConfig.escapeHTML
// types that cannot be coded: nothing is read or written
func (dec notSupportedDecoder) Decode(ptr, it, opts) (err)
  props C12
  flag nilable:opts
  ensures err != 0
func (enc notSupportedEncoder) IsEmpty(ptr) (ret)
  props C14
  ensures !ret
func (enc notSupportedEncoder) Encode(ptr, s, opts)
  props C14
  flag nilable:opts
  modifies s.Error
  ensures old(s.Error) != 0 ==> s.Error == old(s.Error)
  ensures s.Error != 0
// ---- configurations
ext atomic.Value.Store(v, x)
func NewDecoderConfig(opt) (ret)
  props C12
  flag nilable:opt
  flag noterm
  ensures ret != nil && ret.caseSensitive == (opt != nil && opt.CaseSensitive) && ret.onlyTaggedField == (opt != nil && opt.OnlyTaggedField) && ret.useNumber == (opt != nil && opt.UseNumber) && ret.disallowUnknownFields == (opt != nil && opt.DisallowUnknownFields)
  ensures opt != nil && len(opt.Tag) > 0 ==> bytes(ret.tag) == bytes(opt.Tag)
  ensures opt == nil || len(opt.Tag) == 0 ==> len(ret.tag) == 4 && bat(src(ret.tag), lo(ret.tag)) == 'j' && bat(src(ret.tag), lo(ret.tag)+1) == 's' && bat(src(ret.tag), lo(ret.tag)+2) == 'o' && bat(src(ret.tag), lo(ret.tag)+3) == 'n'
func NewEncoderConfig(opt) (ret)
  props C14
  flag nilable:opt
  flag noterm
  ensures ret != nil && ret.escapeHTML == (opt == nil || opt.EscapeHTML) && ret.onlyTaggedField == (opt != nil && opt.OnlyTaggedField) && ret.internalCache != nil
  ensures opt != nil && len(opt.Tag) > 0 ==> bytes(ret.tag) == bytes(opt.Tag)
  ensures opt == nil || len(opt.Tag) == 0 ==> len(ret.tag) == 4 && bat(src(ret.tag), lo(ret.tag)) == 'j' && bat(src(ret.tag), lo(ret.tag)+1) == 's' && bat(src(ret.tag), lo(ret.tag)+2) == 'o' && bat(src(ret.tag), lo(ret.tag)+3) == 'n'
