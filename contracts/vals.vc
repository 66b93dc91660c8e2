// ---- values by type: the word pair of an interface, and the coder the configuration keeps for a type
ufn efType(v JV) Int
ufn efData(v JV) Int
ufn mkEf(t Int, d Int) JV
ufn encFor(c Int, t Int) Int
ufn decFor(c Int, t Int) Int
ufn isPtr(t Int) Bool

func (encCfg *EncoderConfig) getEncoderFromCache(rtype) (res)
  flag trusted
  ensures res == 0 || res == encFor(encCfg, rtype)
func (encCfg *EncoderConfig) createEncoder(rtype, typ) (res)
  flag trusted
  ensures res != 0 && res == encFor(encCfg, rtype)
ext reflect.TypeOf(i) (t)
  ensures t != 0 && tyRef(t) == efType(i)

def valued(s, obj, o) := old(s.Error) != 0 ? same(s) : obj == jnil() ? wrote(s, nullTxt(old(sep(s))), true)
  : s.Error == eErr(encFor(s.cfg, efType(obj)), o, s.safeSet, mem(), efData(obj)) && (s.Error == 0 ==> s.poped && bytes(s.buffer) == put(old(sep(s)), eT(encFor(s.cfg, efType(obj)), o, s.safeSet, mem(), efData(obj))))
func (s *Streamer) value(obj, opts) (ret)
  props C14
  returns ret s
  flag nilable:opts
  requires tabs(s) && s.cfg != 0
  modifies W(s)
  ensures valued(s, obj, ecode(opts))
func (s *Streamer) Value(obj) (ret)
  props C14 C08
  returns ret s
  requires tabs(s) && s.cfg != 0
  modifies W(s)
  ensures valued(s, obj, 0)

// ---- Encoder: every value that encodes is delivered followed by a newline, nothing of one that does not
def txt(s, v) := eT(encFor(s.cfg, efType(v)), 0, s.safeSet, mem(), efData(v))
def verr(s, v) := v == jnil() ? 0 : eErr(encFor(s.cfg, efType(v)), 0, s.safeSet, mem(), efData(v))
def idle(s) := len(s.buffer) == 0 && !s.poped && s.Error == 0
lemma appSrcSnoc(O Bs, X Bs, c Int, p Int, e Int) trigger {appR(O, snoc(X,c), p, e)} induct e down {p} hint {snoc(appR(O,snoc(X,c),p,e-1), bat(snoc(X,c),e-1)), snoc(appR(O,X,p,e-1), bat(X,e-1))} := 0 <= p && e <= blen(X) ==> appR(O, snoc(X,c), p, e) == appR(O, X, p, e)
lemma putBuf(O Bs, B Bs, T Bs, n Int, k Int) trigger {appR(O, appR(B, T, 0, n), 0, k)} induct n down {0} hint {snoc(appR(B,T,0,n-1),bat(T,n-1)), appR(O,snoc(appR(B,T,0,n-1),bat(T,n-1)),0,n-1), snoc(appR(O,appR(B,T,0,n-1),0,n-1),bat(T,n-1)), snoc(appR(O,appR(B,T,0,n),0,n-1),bat(appR(B,T,0,n),n-1)), snoc(appR(O,T,0,n-1),bat(T,n-1))} := blen(B) == 0 && k == n ==> appR(O, appR(B, T, 0, n), 0, k) == appR(O, T, 0, n)
lemma appLast(O Bs, X Bs, c Int, p Int, n Int) trigger {appR(O, snoc(X,c), p, n)} hint {snoc(appR(O,snoc(X,c),p,n-1), bat(snoc(X,c),n-1)), appR(O,snoc(X,c),p,n-1)} := 0 <= p && p < n && n == blen(X)+1 ==> appR(O, snoc(X,c), p, n) == snoc(appR(O,X,p,n-1), c)
func encodeInternal(s, v) (err)
  props C09
  theory vals
  requires tabs(s) && s.cfg != 0 && idle(s)
  modifies W(s), s.out, s.writer, s.Context
  let t := txt(s, v)
  ensures verr(s, v) != 0 ==> err != 0 && s.out == old(s.out)
  ensures err == 0 ==> idle(s) && s.writer == old(s.writer) && s.out == snoc(v == jnil() ? nullTxt(old(s.out)) : put(old(s.out), t), 10)
func (e *Encoder) Encode(v) (err)
  props C09
  theory vals
  requires e.s != 0 && tabs(e.s) && e.s.cfg != 0 && (e.err == 0 ==> idle(e.s))
  modifies e.err, W(e.s), e.s.out, e.s.writer, e.s.Context
  ensures err == e.err && (old(e.err) != 0 ==> err == old(e.err) && e.s.out == old(e.s.out))
  ensures old(e.err) == 0 && verr(e.s, v) != 0 ==> err != 0 && e.s.out == old(e.s.out)
  ensures e.err == 0 ==> idle(e.s) && e.s.out == snoc(v == jnil() ? nullTxt(old(e.s.out)) : put(old(e.s.out), txt(e.s, v)), 10)

func packEFace(rtype, data) (res)
  flag trusted
  ensures res == mkEf(rtype, data) && res != jnil() && efType(res) == rtype && efData(res) == data
def ifaceVal(m, p) := ld_ptr(m, p) == 0 ? jnil() : mkEf(ld_u64(m, ld_ptr(m, p)+8), ld_ptr(m, p+8))
func packIFace(ptr) (res)
  props C14 C12
  requires ptr != 0 && ptr + 16 < 18446744073709551616 && ld_ptr(mem(), ptr) + 16 < 18446744073709551616
  ensures res == ifaceVal(mem(), ptr)
func (enc *efaceEncoder) IsEmpty(ptr) (ret)
  props C14
  requires ptr != 0
  ensures ret == (ld_eface(mem(), ptr) == jnil())
func (enc *efaceEncoder) Encode(ptr, s, opts)
  props C14
  flag nilable:opts
  requires tabs(s) && s.cfg != 0
  modifies W(s)
  ensures ptr == 0 ==> encd(s, nullTxt(old(sep(s))))
  ensures ptr != 0 ==> valued(s, ld_eface(mem(), ptr), ecode(opts))
func (enc *ifaceEncoder) IsEmpty(ptr) (ret)
  props C14
  requires ptr != 0 && ptr + 16 < 18446744073709551616 && ld_ptr(mem(), ptr) + 16 < 18446744073709551616
  ensures ret == (ifaceVal(mem(), ptr) == jnil())
func (enc *ifaceEncoder) Encode(ptr, s, opts)
  props C14
  flag nilable:opts
  requires tabs(s) && s.cfg != 0 && ptr + 16 < 18446744073709551616 && ld_ptr(mem(), ptr) + 16 < 18446744073709551616
  modifies W(s)
  ensures ptr == 0 ==> encd(s, nullTxt(old(sep(s))))
  ensures ptr != 0 ==> valued(s, ifaceVal(mem(), ptr), ecode(opts))
func (encCfg *EncoderConfig) Marshal(obj) (ret, err)
  props C14 C07
  ensures err == 0 ==> owned(ret) && bytes(ret) == (obj == jnil() ? nullTxt(bempty()) : eT(encFor(encCfg, efType(obj)), 0, encCfg.escapeHTML ? 2 : 1, mem(), efData(obj)))
  ensures obj != jnil() ==> err == eErr(encFor(encCfg, efType(obj)), 0, encCfg.escapeHTML ? 2 : 1, mem(), efData(obj))
