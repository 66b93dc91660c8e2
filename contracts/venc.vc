// ---- value encoders. An encoder e is a function of (options, HTML mode, memory, target): eErr is the
// error it records (0: none), eT the text it appends after the separator due. It changes no memory.
ufn eErr(e Int, q Int, h Int, m Mem, a Int) Int
ufn eT(e Int, q Int, h Int, m Mem, a Int) Bs
ufn eEmpty(e Int, m Mem, a Int) Bool
def ecode(o) := o == 0 ? 0 : o.Quoted ? 1 : 0
def put(B, T) := appR(B, T, 0, blen(T))
iface ValEncoder.Encode(ptr, s, opts)
  flag nilable:opts
  requires tabs(s)
  modifies W(s)
  ensures old(s.Error) != 0 ==> same(s)
  ensures old(s.Error) == 0 ==> s.Error == eErr(self, ecode(opts), s.safeSet, mem(), ptr)
  ensures s.Error == 0 ==> s.poped && bytes(s.buffer) == put(old(sep(s)), eT(self, ecode(opts), s.safeSet, mem(), ptr))
iface ValEncoder.IsEmpty(ptr) (ret)
  ensures ret == eEmpty(self, mem(), ptr)
// elements n, n-1, .. written one after the other, a comma before each but the first
fn aOut(e Int, h Int, m Mem, a Int, sz Int, n Int, B Bs, c Bool) Bs := n <= 0 ? B : aOut(e, h, m, a+sz, sz, n-1, put(c ? snoc(B, ',') : B, eT(e,0,h,m,a)), true)
fn aErr(e Int, h Int, m Mem, a Int, sz Int, n Int) Int := n <= 0 ? 0 : eErr(e,0,h,m,a) != 0 ? eErr(e,0,h,m,a) : aErr(e, h, m, a+sz, sz, n-1)
pool aenc
  inv $a addr, $i int :: $a + mul(enc.length - $i, enc.elemSize) == in($a + mul(enc.length - $i, enc.elemSize))
  inv $a addr, $i int :: aOut(enc.encoder, s.safeSet, mem(), $a, enc.elemSize, $i, bytes(s.buffer), s.poped) == in(aOut(enc.encoder, s.safeSet, mem(), $a, enc.elemSize, $i, bytes(s.buffer), s.poped))
  inv $a addr, $i int :: aErr(enc.encoder, s.safeSet, mem(), $a, enc.elemSize, $i) == in(aErr(enc.encoder, s.safeSet, mem(), $a, enc.elemSize, $i))
  inv $a addr, $i int :: aOut(enc.encoder, s.safeSet, mem(), ($i == 0 ? $a : $a + enc.elemSize), enc.elemSize, enc.length - $i, bytes(s.buffer), s.poped) == in(aOut(enc.encoder, s.safeSet, mem(), ($i == 0 ? $a : $a + enc.elemSize), enc.elemSize, enc.length - $i, bytes(s.buffer), s.poped))
  inv $a addr, $i int :: aErr(enc.encoder, s.safeSet, mem(), ($i == 0 ? $a : $a + enc.elemSize), enc.elemSize, enc.length - $i) == in(aErr(enc.encoder, s.safeSet, mem(), ($i == 0 ? $a : $a + enc.elemSize), enc.elemSize, enc.length - $i))
  inv $i int, $a addr :: $i == 0 ? $a == ptr : $a + enc.elemSize == ptr + mul($i, enc.elemSize)
  inv $i int, $a addr :: $i == 0 ? $a == ptr : $a + mul(enc.length - $i + 1, enc.elemSize) == ptr + mul(enc.length, enc.elemSize)
  inv $i int, $a addr :: $a + mul($i, enc.elemSize) == ptr + mul(enc.length, enc.elemSize)
  inv $i int :: s.Error == old(s.Error)
  inv $i int :: old(s.Error) != 0 ==> same(s)
  inv $i int :: $i <= enc.length
  inv $i int :: $i >= 1
  inv $i int :: $i > 0 ==> old(s.Error) == 0
  inv $a addr, $i int :: aOut(enc.encoder, s.safeSet, mem(), $a, enc.elemSize, enc.length - $i, bytes(s.buffer), s.poped) == in(aOut(enc.encoder, s.safeSet, mem(), $a, enc.elemSize, enc.length - $i, bytes(s.buffer), s.poped))
  inv $a addr, $i int :: aErr(enc.encoder, s.safeSet, mem(), $a, enc.elemSize, enc.length - $i) == in(aErr(enc.encoder, s.safeSet, mem(), $a, enc.elemSize, enc.length - $i))
  inv $i int :: aOut(enc.encoder, s.safeSet, mem(), ptr + ($i * enc.elemSize) % 18446744073709551616, enc.elemSize, enc.length - $i, bytes(s.buffer), s.poped) == in(aOut(enc.encoder, s.safeSet, mem(), ptr + ($i * enc.elemSize) % 18446744073709551616, enc.elemSize, enc.length - $i, bytes(s.buffer), s.poped))
  inv $i int :: aErr(enc.encoder, s.safeSet, mem(), ptr + ($i * enc.elemSize) % 18446744073709551616, enc.elemSize, enc.length - $i) == in(aErr(enc.encoder, s.safeSet, mem(), ptr + ($i * enc.elemSize) % 18446744073709551616, enc.elemSize, enc.length - $i))
  inv $i int :: mul($i, enc.elemSize) + mul(enc.length - $i, enc.elemSize) == mul(enc.length, enc.elemSize)
  inv $i int :: $i < enc.length
  inv $a addr :: s.Error == old(s.Error)
  inv $a addr :: old(s.Error) != 0 ==> same(s)
  inv $a addr :: $a != 0
func (enc *arrayEncoder) Encode(ptr, s, opts)
  props C14
  theory coll
  flag nilable:opts
  flag fuel:2
  pool aenc
  requires tabs(s) && enc.length >= 1 && enc.encoder != 0 && ptr + mul(enc.length, enc.elemSize) < 18446744073709551616
  modifies W(s)
  let err := aErr(enc.encoder, s.safeSet, mem(), ptr, enc.elemSize, enc.length)
  ensures old(s.Error) != 0 ==> same(s)
  ensures old(s.Error) == 0 && ptr == 0 ==> wrote(s, put(old(sep(s)), bytes("null")), true)
  ensures old(s.Error) == 0 && ptr != 0 ==> s.Error == err
  ensures s.Error == 0 && ptr != 0 ==> s.poped && bytes(s.buffer) == snoc(aOut(enc.encoder, s.safeSet, mem(), ptr, enc.elemSize, enc.length, snoc(old(sep(s)), '['), false), ']')

// ---- scalar encoders: null for a nil target, else the value's text, quoted under ",string"
def encd(s, t) := wrote(s, t, true)
def nullTxt(B) := appR(B, bytes("null"), 0, 4)
def isq(o) := o != 0 && o.Quoted
func (enc *int8Encoder) IsEmpty(ptr) (ret)
  props C14
  requires ptr != 0
  ensures ret == (ld_i8(mem(), ptr) == 0)
func (enc *int8Encoder) Encode(ptr, s, opts)
  props C14
  flag nilable:opts
  modifies W(s)
  let v := ld_i8(mem(), ptr)
  ensures encd(s, ptr == 0 ? nullTxt(old(sep(s))) : isq(opts) ? q(sdecK(q(old(sep(s))), v)) : sdecK(old(sep(s)), v))
func (enc *int16Encoder) IsEmpty(ptr) (ret)
  props C14
  requires ptr != 0
  ensures ret == (ld_i16(mem(), ptr) == 0)
func (enc *int16Encoder) Encode(ptr, s, opts)
  props C14
  flag nilable:opts
  modifies W(s)
  let v := ld_i16(mem(), ptr)
  ensures encd(s, ptr == 0 ? nullTxt(old(sep(s))) : isq(opts) ? q(sdecK(q(old(sep(s))), v)) : sdecK(old(sep(s)), v))
func (enc *int32Encoder) IsEmpty(ptr) (ret)
  props C14
  requires ptr != 0
  ensures ret == (ld_i32(mem(), ptr) == 0)
func (enc *int32Encoder) Encode(ptr, s, opts)
  props C14
  flag nilable:opts
  modifies W(s)
  let v := ld_i32(mem(), ptr)
  ensures encd(s, ptr == 0 ? nullTxt(old(sep(s))) : isq(opts) ? q(sdecK(q(old(sep(s))), v)) : sdecK(old(sep(s)), v))
func (enc *int64Encoder) IsEmpty(ptr) (ret)
  props C14
  requires ptr != 0
  ensures ret == (ld_i64(mem(), ptr) == 0)
func (enc *int64Encoder) Encode(ptr, s, opts)
  props C14
  flag nilable:opts
  modifies W(s)
  let v := ld_i64(mem(), ptr)
  ensures encd(s, ptr == 0 ? nullTxt(old(sep(s))) : isq(opts) ? q(sdecK(q(old(sep(s))), v)) : sdecK(old(sep(s)), v))
func (enc *uint8Encoder) IsEmpty(ptr) (ret)
  props C14
  requires ptr != 0
  ensures ret == (ld_u8(mem(), ptr) == 0)
func (enc *uint8Encoder) Encode(ptr, s, opts)
  props C14
  flag nilable:opts
  modifies W(s)
  let v := ld_u8(mem(), ptr)
  ensures encd(s, ptr == 0 ? nullTxt(old(sep(s))) : isq(opts) ? q(decK(q(old(sep(s))), v)) : decK(old(sep(s)), v))
func (enc *uint16Encoder) IsEmpty(ptr) (ret)
  props C14
  requires ptr != 0
  ensures ret == (ld_u16(mem(), ptr) == 0)
func (enc *uint16Encoder) Encode(ptr, s, opts)
  props C14
  flag nilable:opts
  modifies W(s)
  let v := ld_u16(mem(), ptr)
  ensures encd(s, ptr == 0 ? nullTxt(old(sep(s))) : isq(opts) ? q(decK(q(old(sep(s))), v)) : decK(old(sep(s)), v))
func (enc *uint32Encoder) IsEmpty(ptr) (ret)
  props C14
  requires ptr != 0
  ensures ret == (ld_u32(mem(), ptr) == 0)
func (enc *uint32Encoder) Encode(ptr, s, opts)
  props C14
  flag nilable:opts
  modifies W(s)
  let v := ld_u32(mem(), ptr)
  ensures encd(s, ptr == 0 ? nullTxt(old(sep(s))) : isq(opts) ? q(decK(q(old(sep(s))), v)) : decK(old(sep(s)), v))
func (enc *uint64Encoder) IsEmpty(ptr) (ret)
  props C14
  requires ptr != 0
  ensures ret == (ld_u64(mem(), ptr) == 0)
func (enc *uint64Encoder) Encode(ptr, s, opts)
  props C14
  flag nilable:opts
  modifies W(s)
  let v := ld_u64(mem(), ptr)
  ensures encd(s, ptr == 0 ? nullTxt(old(sep(s))) : isq(opts) ? q(decK(q(old(sep(s))), v)) : decK(old(sep(s)), v))
func (enc *boolEncoder) IsEmpty(ptr) (ret)
  props C14
  requires ptr != 0
  ensures ret == !ld_bool(mem(), ptr)
func (enc *boolEncoder) Encode(ptr, s, opts)
  props C14
  flag nilable:opts
  requires tabs(s)
  modifies W(s)
  let b := ld_bool(mem(), ptr)
  ensures ptr == 0 ==> encd(s, nullTxt(old(sep(s))))
  ensures ptr != 0 && !isq(opts) ==> encd(s, b ? appR(old(sep(s)), bytes("true"), 0, 4) : appR(old(sep(s)), bytes("false"), 0, 5))
  ensures ptr != 0 && isq(opts) && b ==> encd(s, esc(q(old(sep(s))), bytes("true"), 0, 4, s.safeSet))
  ensures ptr != 0 && isq(opts) && !b ==> encd(s, esc(q(old(sep(s))), bytes("false"), 0, 5, s.safeSet))
func (enc *stringEncoder) IsEmpty(ptr) (ret)
  props C14
  requires ptr != 0
  ensures ret == (blen(ld_str(mem(), ptr)) == 0)
func (enc *emptyArrayEncoder) Encode(ptr, s, opts)
  props C14
  flag nilable:opts
  modifies W(s)
  ensures encd(s, ptr == 0 ? nullTxt(old(sep(s))) : appR(old(sep(s)), bytes("[]"), 0, 2))
func (enc *emptyStructEncoder) Encode(ptr, s, opts)
  props C14
  flag nilable:opts
  modifies W(s)
  ensures encd(s, ptr == 0 ? nullTxt(old(sep(s))) : appR(old(sep(s)), bytes("{}"), 0, 2))
func (enc *emptyArrayEncoder) IsEmpty(ptr) (ret)
  props C14
  ensures ret
func (enc *emptyStructEncoder) IsEmpty(ptr) (ret)
  props C14
  ensures !ret
func (enc *arrayEncoder) IsEmpty(ptr) (ret)
  props C14
  ensures !ret
func (enc *structEncoder) IsEmpty(ptr) (ret)
  props C14
  ensures !ret
func (enc *sliceEncoder) IsEmpty(ptr) (ret)
  props C14
  requires ptr != 0
  ensures ret == (ld_ptr(mem(), ptr) == 0 || ld_i64(mem(), ptr+8) == 0)
func (enc *pointerEncoder) IsEmpty(ptr) (ret)
  props C14
  requires ptr != 0
  ensures ret == (ld_ptr(mem(), ptr) == 0)
func (enc *pointerEncoder) Encode(ptr, s, opts)
  props C14
  flag nilable:opts
  requires tabs(s) && enc.encoder != 0
  modifies W(s)
  ensures ptr == 0 ==> encd(s, nullTxt(old(sep(s))))
  ensures old(s.Error) != 0 ==> same(s)
  ensures old(s.Error) == 0 && ptr != 0 ==> s.Error == eErr(enc.encoder, ecode(opts), s.safeSet, mem(), ld_ptr(mem(), ptr))
  ensures s.Error == 0 && ptr != 0 ==> s.poped && bytes(s.buffer) == put(old(sep(s)), eT(enc.encoder, ecode(opts), s.safeSet, mem(), ld_ptr(mem(), ptr)))
fn sOut(e Int, h Int, m Mem, d Int, sz Int, i Int, n Int, B Bs, c Bool) Bs := i >= n ? B : sOut(e, h, m, d, sz, i+1, n, put(c ? snoc(B, ',') : B, eT(e,0,h,m,elemAt(d,sz,i))), true)
fn sErr(e Int, h Int, m Mem, d Int, sz Int, i Int, n Int) Int := i >= n ? 0 : eErr(e,0,h,m,elemAt(d,sz,i)) != 0 ? eErr(e,0,h,m,elemAt(d,sz,i)) : sErr(e, h, m, d, sz, i+1, n)
def elemAt(d, sz, i) := (d + (i * sz) % 18446744073709551616) % 18446744073709551616
pool senc
  inv $i int :: sOut(enc.elemEncoder, s.safeSet, mem(), ld_ptr(mem(),ptr), enc.elemSize, $i, ld_i64(mem(),ptr+8), bytes(s.buffer), s.poped) == in(sOut(enc.elemEncoder, s.safeSet, mem(), ld_ptr(mem(),ptr), enc.elemSize, $i, ld_i64(mem(),ptr+8), bytes(s.buffer), s.poped))
  inv $i int :: sErr(enc.elemEncoder, s.safeSet, mem(), ld_ptr(mem(),ptr), enc.elemSize, $i, ld_i64(mem(),ptr+8)) == in(sErr(enc.elemEncoder, s.safeSet, mem(), ld_ptr(mem(),ptr), enc.elemSize, $i, ld_i64(mem(),ptr+8)))
  inv $i int :: $i <= ld_i64(mem(),ptr+8)
  inv $i int :: s.Error == 0
func (enc *sliceEncoder) Encode(ptr, s, opts)
  props C14
  theory coll
  flag nilable:opts
  flag fuel:2
  pool senc
  requires tabs(s) && enc.elemEncoder != 0 && ptr + 24 < 18446744073709551616 && ld_i64(mem(), ptr+8) >= 0
  modifies W(s)
  let d := ld_ptr(mem(), ptr)
  let n := ld_i64(mem(), ptr+8)
  ensures old(s.Error) != 0 ==> same(s)
  ensures ptr == 0 || d == 0 ==> encd(s, nullTxt(old(sep(s))))
  ensures ptr != 0 && d != 0 && old(s.Error) == 0 ==> s.Error == sErr(enc.elemEncoder, s.safeSet, mem(), d, enc.elemSize, 0, n)
  ensures ptr != 0 && d != 0 && s.Error == 0 ==> s.poped && bytes(s.buffer) == snoc(sOut(enc.elemEncoder, s.safeSet, mem(), d, enc.elemSize, 0, n, snoc(old(sep(s)), '['), false), ']')
func (enc *float64Encoder) IsEmpty(ptr) (ret)
  props C14
  requires ptr != 0
  ensures ret == (!fnan64(ld_f64(mem(), ptr)) && frank64(ld_f64(mem(), ptr)) == 0)
func (enc *float32Encoder) IsEmpty(ptr) (ret)
  props C14
  requires ptr != 0
  ensures ret == (!fnan32(ld_f32(mem(), ptr)) && frank32(ld_f32(mem(), ptr)) == 0)
func (enc *float64Encoder) Encode(ptr, s, opts)
  props C14 C16
  theory wfloat
  flag nilable:opts
  modifies W(s)
  let f := ld_f64(mem(), ptr)
  let bad := fnan64(f) || abs(frank64(f)) == 9218868437227405312
  ensures ptr == 0 ==> encd(s, nullTxt(old(sep(s))))
  ensures old(s.Error) != 0 ==> same(s)
  ensures ptr != 0 && bad && old(s.Error) == 0 ==> bytes(s.buffer) == old(bytes(s.buffer)) && s.poped == old(s.poped) && s.Error != 0
  ensures ptr != 0 && !bad ==> wrote(s, big64(f) ? clean0(app(old(sep(s)), ftext(f, 'e', 64))) : app(old(sep(s)), ftext(f, 'f', 64)), true)
func (enc *float32Encoder) Encode(ptr, s, opts)
  props C14 C16
  theory wfloat
  flag nilable:opts
  modifies W(s)
  let f := ld_f32(mem(), ptr)
  let g := conv_F32_F64(f)
  let bad := fnan32(f) || abs(frank32(f)) == 2139095040
  ensures ptr == 0 ==> encd(s, nullTxt(old(sep(s))))
  ensures old(s.Error) != 0 ==> same(s)
  ensures ptr != 0 && bad && old(s.Error) == 0 ==> bytes(s.buffer) == old(bytes(s.buffer)) && s.poped == old(s.poped) && s.Error != 0
  ensures ptr != 0 && !bad ==> wrote(s, big32(f) ? clean0(app(old(sep(s)), ftext(g, 'e', 32))) : app(old(sep(s)), ftext(g, 'f', 32)), true)
func (enc *directEncoder) Encode(ptr, s, opts)
  props C14
  flag nilable:opts
  requires tabs(s) && enc.encoder != 0
  modifies W(s)
  ensures old(s.Error) != 0 ==> same(s)
ufn ldnil(m Mem, a Int) Bool
ufn b64Enc(b Bs) Bs
axiom b64Len(b Bs) trigger {b64Enc(b)} := blen(b64Enc(b)) == 4 * ((blen(b) + 2) / 3)
ext base64.Encoding.EncodedLen(enc, n) (r)
  ensures r == 4 * ((n + 2) / 3)
ext base64.Encoding.Encode(enc, dst, src)
  requires len(dst) == 4 * ((len(src) + 2) / 3)
  modifies elems(dst)
  ensures bytes(dst) == b64Enc(bytes(src))
func (enc *base64Encoder) IsEmpty(ptr) (ret)
  props C14
  requires ptr != 0
  ensures ret == (blen(ld_bytes(mem(), ptr)) == 0)
func (enc *base64Encoder) Encode(ptr, s, opts)
  props C14
  flag nilable:opts
  theory venc
  requires tabs(s)
  modifies W(s)
  let b := ld_bytes(mem(), ptr)
  let B := q(sep(s))
  ensures old(s.Error) != 0 ==> same(s)
  ensures ptr == 0 ==> encd(s, nullTxt(old(sep(s))))
  ensures ptr != 0 && ldnil(mem(), ptr) ==> encd(s, nullTxt(old(sep(s))))
  ensures ptr != 0 && !ldnil(mem(), ptr) ==> encd(s, q(put(B, b64Enc(b))))
func (enc *stringEncoder) Encode(ptr, s, opts)
  props C14 C07
  flag nilable:opts
  requires tabs(s) && s.cfg != 0
  modifies W(s)
  let v := ld_str(mem(), ptr)
  let B := sep(s)
  let in := esc(q(bempty()), v, 0, blen(v), s.safeSet)
  ensures ptr == 0 ==> encd(s, nullTxt(B))
  ensures ptr != 0 && !isq(opts) ==> encd(s, esc(q(B), v, 0, blen(v), s.safeSet))
  ensures ptr != 0 && isq(opts) ==> encd(s, esc(q(B), in, 0, blen(in), s.safeSet))
ufn mapLen(m Mem, h Int) Int
func maplen(m) (n)
  flag trusted
  ensures n == mapLen(mem(), m)
func (enc *directMapEncoder) IsEmpty(ptr) (ret)
  props C14
  requires ptr != 0
  ensures ret == (mapLen(mem(), ld_ptr(mem(), ptr)) == 0)

// ---- map encoder: the runtime visits entries 0..mapN-1 of the map h in some order fixed by (memory, map);
// each is written key, colon, element
ghost hiter.ix Int
ghost hiter.hm Int
ufn itKey(m Mem, h Int, i Int) Int
ufn itElem(m Mem, h Int, i Int) Int
ufn mapN(m Mem, h Int) Int
ufn kErr(k Int, h Int, m Mem, a Int) Int
ufn kT(k Int, h Int, m Mem, a Int) Bs
axiom itKeyN(m Mem, h Int, i Int) trigger {itKey(m,h,i)} := (itKey(m,h,i) == 0) == (i >= mapN(m,h)) && mapN(m,h) >= 0 && mapN(m,h) < 281474976710656
iface keyEncoder.Encode(ptr, s)
  requires tabs(s) && ptr != 0
  modifies W(s)
  ensures old(s.Error) != 0 ==> same(s)
  ensures old(s.Error) == 0 ==> s.Error == kErr(self, s.safeSet, mem(), ptr)
  ensures s.Error == 0 ==> !s.poped && bytes(s.buffer) == snoc(put(old(sep(s)), kT(self, s.safeSet, mem(), ptr)), ':')
func mapiterinit(t, m, it)
  flag trusted
  modifies deref(it)
  ensures it.ix == 0 && it.hm == m && it.key == itKey(mem(), m, 0) && it.elem == itElem(mem(), m, 0)
func mapiternext(it)
  flag trusted
  modifies deref(it)
  ensures it.ix == old(it.ix) + 1 && it.hm == old(it.hm) && it.key == itKey(mem(), it.hm, it.ix) && it.elem == itElem(mem(), it.hm, it.ix)
fn mOut(k Int, e Int, h Int, m Mem, M Int, i Int, B Bs, c Bool) Bs := i >= mapN(m,M) ? B
  : mOut(k, e, h, m, M, i+1, put(snoc(put(c ? snoc(B, ',') : B, kT(k,h,m,itKey(m,M,i))), ':'), eT(e,0,h,m,itElem(m,M,i))), true)
fn mErr(k Int, e Int, h Int, m Mem, M Int, i Int) Int := i >= mapN(m,M) ? 0
  : kErr(k,h,m,itKey(m,M,i)) != 0 ? kErr(k,h,m,itKey(m,M,i)) : eErr(e,0,h,m,itElem(m,M,i)) != 0 ? eErr(e,0,h,m,itElem(m,M,i)) : mErr(k, e, h, m, M, i+1)
pool menc
  inv $i int :: mOut(enc.keyEncoder, enc.elemEncoder, s.safeSet, mem(), ld_ptr(mem(), ptr), $i, bytes(s.buffer), s.poped) == in(mOut(enc.keyEncoder, enc.elemEncoder, s.safeSet, mem(), ld_ptr(mem(), ptr), $i, bytes(s.buffer), s.poped))
  inv $i int :: mErr(enc.keyEncoder, enc.elemEncoder, s.safeSet, mem(), ld_ptr(mem(), ptr), $i) == in(mErr(enc.keyEncoder, enc.elemEncoder, s.safeSet, mem(), ld_ptr(mem(), ptr), $i))
  inv $i int :: s.Error == 0
  inv $i int, $t hiter :: $t.key == itKey(mem(), ld_ptr(mem(), ptr), $i)
  inv $i int, $t hiter :: $t.elem == itElem(mem(), ld_ptr(mem(), ptr), $i)
  inv $i int, $t hiter :: $t.ix == $i && $t.hm == ld_ptr(mem(), ptr)
  inv $i int :: $i <= mapN(mem(), ld_ptr(mem(), ptr))
func (enc *directMapEncoder) Encode(ptr, s, opts)
  props C14
  theory venc
  flag nilable:opts
  flag fuel:2
  pool menc
  requires tabs(s) && enc.keyEncoder != 0 && enc.elemEncoder != 0
  modifies W(s)
  let M := ld_ptr(mem(), ptr)
  ensures old(s.Error) != 0 ==> same(s)
  ensures ptr == 0 || M == 0 ==> encd(s, nullTxt(old(sep(s))))
  ensures ptr != 0 && M != 0 && old(s.Error) == 0 ==> s.Error == mErr(enc.keyEncoder, enc.elemEncoder, s.safeSet, mem(), M, 0)
  ensures ptr != 0 && M != 0 && s.Error == 0 ==> s.poped && bytes(s.buffer) == snoc(mOut(enc.keyEncoder, enc.elemEncoder, s.safeSet, mem(), M, 0, snoc(old(sep(s)), '{'), false), '}')

// ---- map keys: the decimal text in quotes, then a colon
func (enc *int8KeyEncoder) Encode(ptr, s)
  props C14
  theory venc
  requires ptr != 0
  modifies W(s)
  let t := q(sdecK(q(bempty()), ld_i8(mem(), ptr)))
  ensures wrote(s, snoc(put(old(sep(s)), t), ':'), false)
func (enc *int16KeyEncoder) Encode(ptr, s)
  props C14
  theory venc
  requires ptr != 0
  modifies W(s)
  let t := q(sdecK(q(bempty()), ld_i16(mem(), ptr)))
  ensures wrote(s, snoc(put(old(sep(s)), t), ':'), false)
func (enc *int32KeyEncoder) Encode(ptr, s)
  props C14
  theory venc
  requires ptr != 0
  modifies W(s)
  let t := q(sdecK(q(bempty()), ld_i32(mem(), ptr)))
  ensures wrote(s, snoc(put(old(sep(s)), t), ':'), false)
func (enc *int64KeyEncoder) Encode(ptr, s)
  props C14
  theory venc
  requires ptr != 0
  modifies W(s)
  let t := q(sdecK(q(bempty()), ld_i64(mem(), ptr)))
  ensures wrote(s, snoc(put(old(sep(s)), t), ':'), false)
func (enc *uint8KeyEncoder) Encode(ptr, s)
  props C14
  theory venc
  requires ptr != 0
  modifies W(s)
  let t := q(decK(q(bempty()), ld_u8(mem(), ptr)))
  ensures wrote(s, snoc(put(old(sep(s)), t), ':'), false)
func (enc *uint16KeyEncoder) Encode(ptr, s)
  props C14
  theory venc
  requires ptr != 0
  modifies W(s)
  let t := q(decK(q(bempty()), ld_u16(mem(), ptr)))
  ensures wrote(s, snoc(put(old(sep(s)), t), ':'), false)
func (enc *uint32KeyEncoder) Encode(ptr, s)
  props C14
  theory venc
  requires ptr != 0
  modifies W(s)
  let t := q(decK(q(bempty()), ld_u32(mem(), ptr)))
  ensures wrote(s, snoc(put(old(sep(s)), t), ':'), false)
func (enc *uint64KeyEncoder) Encode(ptr, s)
  props C14
  theory venc
  requires ptr != 0
  modifies W(s)
  let t := q(decK(q(bempty()), ld_u64(mem(), ptr)))
  ensures wrote(s, snoc(put(old(sep(s)), t), ':'), false)
func (enc *stringKeyEncoder) Encode(ptr, s)
  props C14 C07
  requires ptr != 0 && tabs(s)
  modifies W(s)
  let v := ld_str(mem(), ptr)
  ensures wrote(s, snoc(esc(q(old(sep(s))), v, 0, blen(v), s.safeSet), ':'), false)
