// ---- structs. The field lists are read-only once built: fields are functions of (list, index).
readonly encoderFieldInfo decoderFieldInfo offset uintptr
ufn slLen(l Int) Int
ufn sl_uintptr(l Int, i Int) Int
ufn sl_encoderFieldInfo_offsets(l Int, i Int) Int
ufn sl_encoderFieldInfo_rawField(l Int, i Int) Bs
ufn sl_encoderFieldInfo_safeRawField(l Int, i Int) Bs
ufn sl_encoderFieldInfo_quoted(l Int, i Int) Bool
ufn sl_encoderFieldInfo_omitEmpty(l Int, i Int) Bool
ufn sl_encoderFieldInfo_encoder(l Int, i Int) Int
axiom slLenB(l Int) trigger {slLen(l)} := 0 <= slLen(l) && slLen(l) < 281474976710656
// addresses stay below 2^63 and offsets below 2^47: no wrap-around
axiom ptrRange(m Mem, a Int) trigger {ld_ptr(m,a)} := 0 <= ld_ptr(m,a) && ld_ptr(m,a) < 9223372036854775808
axiom uoffRange(l Int, i Int) trigger {sl_uintptr(l,i)} := 0 <= sl_uintptr(l,i) && sl_uintptr(l,i) < 140737488355328
def wadd(a, b) := a + b
// a field behind embedded pointers: offsets o[j..] from address a; ewNil: one of the pointers is nil
fn ewNil(m Mem, o Int, j Int, a Int) Bool := j >= slLen(o) ? false : ld_ptr(m,a) == 0 ? true : ewNil(m, o, j+1, wadd(ld_ptr(m,a), sl_uintptr(o,j)))
fn ewAdr(m Mem, o Int, j Int, a Int) Int := j >= slLen(o) ? a : ewAdr(m, o, j+1, wadd(ld_ptr(m,a), sl_uintptr(o,j)))
def efo(L, i) := sl_encoderFieldInfo_offsets(L,i)
def efe(L, i) := sl_encoderFieldInfo_encoder(L,i)
def eAdr(m, L, i, a) := ewAdr(m, efo(L,i), 1, wadd(a, sl_uintptr(efo(L,i),0)))
def eSkip(m, L, i, a) := ewNil(m, efo(L,i), 1, wadd(a, sl_uintptr(efo(L,i),0))) || (sl_encoderFieldInfo_omitEmpty(L,i) && eEmpty(efe(L,i), m, eAdr(m,L,i,a)))
def eName(L, i, h) := h == 2 ? sl_encoderFieldInfo_safeRawField(L,i) : sl_encoderFieldInfo_rawField(L,i)
def eq01(L, i) := sl_encoderFieldInfo_quoted(L,i) ? 1 : 0
// text and error of the fields i.. of the struct at a, written after B (c: a field was written before)
fn stOut(L Int, i Int, h Int, m Mem, a Int, B Bs, c Bool) Bs := i >= slLen(L) ? B
  : eSkip(m,L,i,a) ? stOut(L, i+1, h, m, a, B, c)
  : stOut(L, i+1, h, m, a, put(snoc(put(c ? snoc(B, ',') : B, eName(L,i,h)), ':'), eT(efe(L,i), eq01(L,i), h, m, eAdr(m,L,i,a))), true)
fn stErr(L Int, i Int, h Int, m Mem, a Int) Int := i >= slLen(L) ? 0
  : eSkip(m,L,i,a) ? stErr(L, i+1, h, m, a)
  : eErr(efe(L,i), eq01(L,i), h, m, eAdr(m,L,i,a)) != 0 ? eErr(efe(L,i), eq01(L,i), h, m, eAdr(m,L,i,a)) : stErr(L, i+1, h, m, a)
pool senc
  inv $i int :: stOut(enc.fields.list, $i, s.safeSet, mem(), ptr, bytes(s.buffer), s.poped) == in(stOut(enc.fields.list, $i, s.safeSet, mem(), ptr, bytes(s.buffer), s.poped))
  inv $i int :: stOut(enc.fields.list, $i+1, s.safeSet, mem(), ptr, bytes(s.buffer), s.poped) == in(stOut(enc.fields.list, $i+1, s.safeSet, mem(), ptr, bytes(s.buffer), s.poped))
  inv $i int :: stErr(enc.fields.list, $i+1, s.safeSet, mem(), ptr) == in(stErr(enc.fields.list, $i+1, s.safeSet, mem(), ptr))
  inv $i int :: s.Error == 0
  inv $i int :: $i <= slLen(enc.fields.list)
  inv $o rs, $j int, $a addr :: ewNil(mem(), listOf($o), $j+1+indexOf($o), $a) == in(ewNil(mem(), listOf($o), $j+1+indexOf($o), $a))
  inv $o rs, $j int, $a addr :: ewAdr(mem(), listOf($o), $j+1+indexOf($o), $a) == in(ewAdr(mem(), listOf($o), $j+1+indexOf($o), $a))
  inv $o rs, $j int :: $j < len($o)
  inv $a addr :: $a != 0
func (enc *structEncoder) Encode(ptr, s, opts)
  props C14
  theory structs
  flag nilable:opts
  flag fuel:2
  pool senc
  requires tabs(s) && ptr < 9223372036854775808
  requires forall i Int :: 0 <= i && i < slLen(enc.fields.list) ==> slLen(efo(enc.fields.list,i)) >= 1 && efe(enc.fields.list,i) != 0
  modifies W(s)
  ensures old(s.Error) != 0 ==> same(s)
  ensures old(s.Error) == 0 && ptr == 0 ==> encd(s, nullTxt(old(sep(s))))
  ensures old(s.Error) == 0 && ptr != 0 ==> s.Error == stErr(enc.fields.list, 0, s.safeSet, mem(), ptr)
  ensures s.Error == 0 && ptr != 0 ==> s.poped && bytes(s.buffer) == snoc(stOut(enc.fields.list, 0, s.safeSet, mem(), ptr, snoc(old(sep(s)), '{'), false), '}')

// ---- struct decoders
readonly map[string]int
ufn rmHas(m Int, k Bs) Bool
ufn rmGet(m Int, k Bs) Int
ufn sl_offset_val(l Int, i Int) Int
ufn sl_offset_rtype(l Int, i Int) Int
ufn sl_decoderFieldInfo_offsets(l Int, i Int) Int
ufn sl_decoderFieldInfo_nameBytes(l Int, i Int) Bs
ufn sl_decoderFieldInfo_equalFold(l Int, i Int) Int
ufn sl_decoderFieldInfo_quoted(l Int, i Int) Bool
ufn sl_decoderFieldInfo_decoder(l Int, i Int) Int
axiom newRange(m Mem, t Int) trigger {newAt(m,t)} := 0 < newAt(m,t) && newAt(m,t) < 9223372036854775808
axiom offRange(l Int, i Int) trigger {sl_offset_val(l,i)} := 0 <= sl_offset_val(l,i) && sl_offset_val(l,i) < 140737488355328
ufn foldEq(f Int, a Bs, b Bs) Bool
iface func.bytes_bytes_bool(s, t) (ret)
  ensures ret == foldEq(self, bytes(s), bytes(t))
ext bytes.Equal(a, b) (ret)
  ensures ret == (bytes(a) == bytes(b))
def dfo(L, i) := sl_decoderFieldInfo_offsets(L,i)
def dfn(L, i) := sl_decoderFieldInfo_nameBytes(L,i)
def dfd(L, i) := sl_decoderFieldInfo_decoder(L,i)
def wfD(L) := forall i Int :: 0 <= i && i < slLen(L) ==> slLen(dfo(L,i)) >= 1 && dfd(L,i) != 0 && sl_decoderFieldInfo_equalFold(L,i) != 0
// first field with exactly this name; first field whose folding matches
fn exIx(L Int, i Int, k Bs) Int := i >= slLen(L) ? -1 : dfn(L,i) == k ? i : exIx(L, i+1, k)
fn foIx(L Int, i Int, k Bs) Int := i >= slLen(L) ? -1 : foldEq(sl_decoderFieldInfo_equalFold(L,i), dfn(L,i), k) ? i : foIx(L, i+1, k)
def smIx(L, cs, k) := exIx(L,0,k) >= 0 ? exIx(L,0,k) : cs ? -1 : foIx(L,0,k)
lemma exIxR(L Int, i Int, k Bs) trigger {exIx(L,i,k)} induct i up {slLen(L)} := i >= 0 ==> exIx(L,i,k) == -1 || (i <= exIx(L,i,k) && exIx(L,i,k) < slLen(L))
lemma foIxR(L Int, i Int, k Bs) trigger {foIx(L,i,k)} induct i up {slLen(L)} := i >= 0 ==> foIx(L,i,k) == -1 || (i <= foIx(L,i,k) && foIx(L,i,k) < slLen(L))
pool sfind
  inv $i int :: exIx(dec.fields, $i+1, bytes(field)) == in(exIx(dec.fields, $i+1, bytes(field)))
  inv $i int :: foIx(dec.fields, $i+1, bytes(field)) == in(foIx(dec.fields, $i+1, bytes(field)))
  inv $i int :: exIx(dec.fields, $i, bytes(field)) == in(exIx(dec.fields, $i, bytes(field)))
  inv $i int :: foIx(dec.fields, $i, bytes(field)) == in(foIx(dec.fields, $i, bytes(field)))
  inv $i int :: $i < slLen(dec.fields)
func (dec *smallStructDecoder) find(field, caseSensitive) (res)
  flag nilable:res
  theory structs
  pool sfind
  requires wfD(dec.fields)
  let ix := smIx(dec.fields, caseSensitive, bytes(field))
  ensures ix < 0 ==> res == 0
  ensures ix >= 0 ==> res != 0 && listOf(res) == listOf(dec.fields) && indexOf(res) == ix
// key text after its opening quote: position after the colon, or negative
def colon(S, p) := fieldEnd(S, p)
func (it *Iterator) readObjectFieldAsSlice() (ret, err)
  alias ret tmpBuffer
  ends fieldEnd(it.S, pos(it))
  modifies it.tmpBuffer
  ok bytes(ret) == strDec(it.S, old(pos(it)), bempty()) && e > old(pos(it))
// following the offsets of a field: nil embedded pointers are allocated, dwBad: one of them cannot be
def nxM(m, o, j, a) := ld_ptr(m,a) == 0 ? st_ptr(newMem(m, sl_offset_rtype(o,j)), a, newAt(m, sl_offset_rtype(o,j))) : m
def nxA(m, o, j, a) := (ld_ptr(m,a) == 0 ? newAt(m, sl_offset_rtype(o,j)) : ld_ptr(m,a)) + sl_offset_val(o,j)
fn dwBad(m Mem, o Int, j Int, a Int) Bool := j >= slLen(o) ? false : ld_ptr(m,a) == 0 && sl_offset_rtype(o,j) == 0 ? true : dwBad(nxM(m,o,j,a), o, j+1, nxA(m,o,j,a))
fn dwAdr(m Mem, o Int, j Int, a Int) Int := j >= slLen(o) ? a : dwAdr(nxM(m,o,j,a), o, j+1, nxA(m,o,j,a))
fn dwMem(m Mem, o Int, j Int, a Int) Mem := j >= slLen(o) ? m : dwMem(nxM(m,o,j,a), o, j+1, nxA(m,o,j,a))
// which field a key names: by exact name, else by folding
ufn sfold(r Int) Int
ext unicode.SimpleFold(r) (ret)
  ensures ret == sfold(r)
ext utf8.DecodeRune(s) (r, size)
  ensures len(s) == 0 ? r == 65533 && size == 0 : r == uval8(src(s), lo(s), hi(s)) && size == ulen(src(s), lo(s), hi(s))
// the folding orbit from f on, up to the first rune that is not above r
fn orbit(r Int, f Int) Int := f > r ? orbit(r, sfold(f)) : f
fn upB(T Bs, p Int, h Int, B Bs) Bs := p >= h ? B : upB(T, p + ulen(T,p,h), h, utf8(B, orbit(uval8(T,p,h), sfold(uval8(T,p,h)))))
pool upper
  inv $i int, $b bytes :: upB(bytes(in_), $i, len(in_), bytes($b)) == in(upB(bytes(in_), $i, len(in_), bytes($b)))
  inv $f int, $r env_int32 :: orbit($r, $f) == in(orbit($r, $f))
  inv $i int :: 0 <= $i && $i <= len(in_)
func toUpper(in_, out) (ret)
  alias ret @out
  flag noterm
  pool upper
  ensures bytes(ret) == upB(bytes(in_), 0, len(in_), bytes(out))
ufn upcnt(n Int) Int
lemma upLenN(T Bs, p Int, h Int, B Bs, n Int) trigger {upB(T,p,h,B), upcnt(n)} induct n down {0} hint {upcnt(n-1)} := h - p < n ==> blen(upB(T,p,h,B)) >= blen(B)
lemma upLen(T Bs, p Int, h Int, B Bs) trigger {upB(T,p,h,B)} hint {upcnt(h-p+1)} := blen(upB(T,p,h,B)) >= blen(B)
fn upK(k Bs, b Bs) Bs := appR(bempty(), upB(k, 0, blen(k), b), blen(b), blen(upB(k, 0, blen(k), b)))
fn lgIx(N Int, U Int, cs Bool, k Bs, b Bs) Int := rmHas(N,k) ? rmGet(N,k) : cs || !rmHas(U,upK(k,b)) ? -1 : rmGet(U,upK(k,b))
fn fIx(L Int, N Int, U Int, cs Bool, k Bs) Int := N == 0 ? smIx(L, cs, k) : lgIx(N, U, cs, k, k)
def fa0(L, i, a) := a + sl_offset_val(dfo(L,i), 0)
def fMem(L, i, m, a) := dwMem(m, dfo(L,i), 1, fa0(L,i,a))
def fAdr(L, i, m, a) := dwAdr(m, dfo(L,i), 1, fa0(L,i,a))
def fq(L, i) := sl_decoderFieldInfo_quoted(L,i) ? 1 : 0
// one member: whether it is accepted, its end, the memory after it
def mbOk(L, ix, dis, S, z, a, m, v) := ix < 0 ? !dis && valEnd(S,z,v) >= 0 : !dwBad(m, dfo(L,ix), 1, fa0(L,ix,a)) && dOk(dfd(L,ix), fq(L,ix), S, z, tok(S,v), fMem(L,ix,m,a), fAdr(L,ix,m,a))
def mbEnd(L, ix, S, z, a, m, v) := ix < 0 ? valEnd(S,z,v) : dEnd(dfd(L,ix), fq(L,ix), S, z, tok(S,v), fMem(L,ix,m,a), fAdr(L,ix,m,a))
def mbMem(L, ix, S, z, a, m, v) := ix < 0 ? m : dMem(dfd(L,ix), fq(L,ix), S, z, tok(S,v), fMem(L,ix,m,a), fAdr(L,ix,m,a))
def keyAt(S, p) := strDec(S, p, bempty())
fn stEnd(L Int, N Int, U Int, cs Bool, dis Bool, S Bs, z Int, a Int, m Mem, p Int) Int := colon(S,p) < 0 ? -1
  : !mbOk(L, fIx(L,N,U,cs,keyAt(S,p)), dis, S, z, a, m, colon(S,p)) ? -1
  : stTail(L, N, U, cs, dis, S, z, a, mbMem(L, fIx(L,N,U,cs,keyAt(S,p)), S, z, a, m, colon(S,p)), tok(S, mbEnd(L, fIx(L,N,U,cs,keyAt(S,p)), S, z, a, m, colon(S,p))))
fn stTail(L Int, N Int, U Int, cs Bool, dis Bool, S Bs, z Int, a Int, m Mem, t Int) Int := t >= blen(S) ? -1 : bat(S,t) == '}' ? t+1 : bat(S,t) != ',' ? -1
  : tok(S,t+1) < blen(S) && bat(S,tok(S,t+1)) == '"' ? stEnd(L, N, U, cs, dis, S, z, a, m, tok(S,t+1)+1) : -1
fn stMem(L Int, N Int, U Int, cs Bool, S Bs, z Int, a Int, m Mem, p Int) Mem := stMemT(L, N, U, cs, S, z, a, mbMem(L, fIx(L,N,U,cs,keyAt(S,p)), S, z, a, m, colon(S,p)), tok(S, mbEnd(L, fIx(L,N,U,cs,keyAt(S,p)), S, z, a, m, colon(S,p))))
fn stMemT(L Int, N Int, U Int, cs Bool, S Bs, z Int, a Int, m Mem, t Int) Mem := bat(S,t) == ',' ? stMem(L, N, U, cs, S, z, a, m, tok(S,t+1)+1) : m
pool sdec
  inv $p pos :: stEnd(dec.fields, 0, 0, it.cfg.caseSensitive, it.disallowUnknownFields, it.S, it.rd, ptr, mem(), $p) == in(stEnd(dec.fields, 0, 0, it.cfg.caseSensitive, it.disallowUnknownFields, it.S, it.rd, ptr, mem(), $p))
  inv $p pos :: stMem(dec.fields, 0, 0, it.cfg.caseSensitive, it.S, it.rd, ptr, mem(), $p) == in(stMem(dec.fields, 0, 0, it.cfg.caseSensitive, it.S, it.rd, ptr, mem(), $p))
  inv $o rs, $j int, $a addr :: dwBad(mem(), listOf($o), $j+1+indexOf($o), $a) == in(dwBad(mem(), listOf($o), $j+1+indexOf($o), $a))
  inv $o rs, $j int, $a addr :: dwAdr(mem(), listOf($o), $j+1+indexOf($o), $a) == in(dwAdr(mem(), listOf($o), $j+1+indexOf($o), $a))
  inv $o rs, $j int, $a addr :: dwMem(mem(), listOf($o), $j+1+indexOf($o), $a) == in(dwMem(mem(), listOf($o), $j+1+indexOf($o), $a))
  inv $o rs, $j int :: $j < len($o)
  inv $a addr :: 0 < $a
func (dec *smallStructDecoder) Decode(ptr, it, opts) (err)
  props C13 C02 C03 C17
  theory structs
  flag nilable:opts
  flag fuel:2
  pool sdec
  requires inv(it) && it.cfg != 0 && ptr != 0 && ptr < 9223372036854775808 && wfD(dec.fields)
  modifies D(it)
  let S := it.S
  let t := tok(S, pos(it))
  let isNull := t < blen(S) && bat(S,t) == 'n'
  let obj := t < blen(S) && bat(S,t) == '{'
  let t1 := tok(S, t+1)
  let empty := obj && t1 < blen(S) && bat(S,t1) == '}'
  let e := empty ? t1+1 : obj && t1 < blen(S) && bat(S,t1) == '"' ? stEnd(dec.fields, 0, 0, it.cfg.caseSensitive, it.disallowUnknownFields, S, it.rd, ptr, mem(), t1+1) : -1
  ensures keep(it)
  ensures err == 0 && isNull ==> nullAt(S,t) && pos(it) == lit(S, t+1, bytes("ull"), 0) && mem() == old(mem())
  ensures err == 0 && !isNull ==> e >= 0 && pos(it) == e && mem() == (empty ? old(mem()) : stMem(dec.fields, 0, 0, it.cfg.caseSensitive, S, it.rd, ptr, old(mem()), t1+1))
  ensures err != 0 ==> isNull ? !nullAt(S,t) : e < 0

def wfM(N, L) := N != 0 && (forall k Bs :: rmHas(N,k) ==> 0 <= rmGet(N,k) && rmGet(N,k) < slLen(L))
func (df *decoderFields) find(key, buf, caseSensitive) (res, out)
  flag nilable:res
  alias out @buf
  theory structs
  requires wfD(df.list) && wfM(df.nameIndex, df.list) && wfM(df.nameIndexUpper, df.list)
  let ix := lgIx(df.nameIndex, df.nameIndexUpper, caseSensitive, bytes(key), bytes(buf))
  ensures ix < slLen(df.list)
  ensures ix < 0 ==> res == 0
  ensures ix >= 0 ==> res != 0 && listOf(res) == listOf(df.list) && indexOf(res) == ix
pool ldec
  inv $p pos :: stEnd(dec.fields.list, dec.fields.nameIndex, dec.fields.nameIndexUpper, it.cfg.caseSensitive, it.disallowUnknownFields, it.S, it.rd, ptr, mem(), $p) == in(stEnd(dec.fields.list, dec.fields.nameIndex, dec.fields.nameIndexUpper, it.cfg.caseSensitive, it.disallowUnknownFields, it.S, it.rd, ptr, mem(), $p))
  inv $p pos :: stMem(dec.fields.list, dec.fields.nameIndex, dec.fields.nameIndexUpper, it.cfg.caseSensitive, it.S, it.rd, ptr, mem(), $p) == in(stMem(dec.fields.list, dec.fields.nameIndex, dec.fields.nameIndexUpper, it.cfg.caseSensitive, it.S, it.rd, ptr, mem(), $p))
  inv $o rs, $j int, $a addr :: dwBad(mem(), listOf($o), $j+1+indexOf($o), $a) == in(dwBad(mem(), listOf($o), $j+1+indexOf($o), $a))
  inv $o rs, $j int, $a addr :: dwAdr(mem(), listOf($o), $j+1+indexOf($o), $a) == in(dwAdr(mem(), listOf($o), $j+1+indexOf($o), $a))
  inv $o rs, $j int, $a addr :: dwMem(mem(), listOf($o), $j+1+indexOf($o), $a) == in(dwMem(mem(), listOf($o), $j+1+indexOf($o), $a))
  inv $o rs, $j int :: $j < len($o)
  inv $a addr :: 0 < $a
func (dec *structDecoder) Decode(ptr, it, opts) (err)
  props C13 C02 C03 C17
  theory structs
  flag nilable:opts
  flag fuel:2
  pool ldec
  requires inv(it) && it.cfg != 0 && ptr != 0 && ptr < 9223372036854775808
  requires wfD(dec.fields.list) && wfM(dec.fields.nameIndex, dec.fields.list) && wfM(dec.fields.nameIndexUpper, dec.fields.list)
  modifies D(it)
  let S := it.S
  let t := tok(S, pos(it))
  let isNull := t < blen(S) && bat(S,t) == 'n'
  let obj := t < blen(S) && bat(S,t) == '{'
  let t1 := tok(S, t+1)
  let empty := obj && t1 < blen(S) && bat(S,t1) == '}'
  let e := empty ? t1+1 : obj && t1 < blen(S) && bat(S,t1) == '"' ? stEnd(dec.fields.list, dec.fields.nameIndex, dec.fields.nameIndexUpper, it.cfg.caseSensitive, it.disallowUnknownFields, S, it.rd, ptr, mem(), t1+1) : -1
  ensures keep(it)
  ensures err == 0 && isNull ==> nullAt(S,t) && pos(it) == lit(S, t+1, bytes("ull"), 0) && mem() == old(mem())
  ensures err == 0 && !isNull ==> e >= 0 && pos(it) == e && mem() == (empty ? old(mem()) : stMem(dec.fields.list, dec.fields.nameIndex, dec.fields.nameIndexUpper, it.cfg.caseSensitive, S, it.rd, ptr, old(mem()), t1+1))
  ensures err != 0 ==> isNull ? !nullAt(S,t) : e < 0

// ---- structs with one field: the field is held by the decoder (o offsets, f folding, n name, d decoder, q quoted)
def o1Mem(o, m, a) := dwMem(m, o, 1, a + sl_offset_val(o,0))
def o1Adr(o, m, a) := dwAdr(m, o, 1, a + sl_offset_val(o,0))
def o1Ok(hit, o, d, q, dis, S, z, a, m, v) := !hit ? !dis && valEnd(S,z,v) >= 0 : !dwBad(m, o, 1, a + sl_offset_val(o,0)) && dOk(d, q, S, z, tok(S,v), o1Mem(o,m,a), o1Adr(o,m,a))
def o1End(hit, o, d, q, S, z, a, m, v) := !hit ? valEnd(S,z,v) : dEnd(d, q, S, z, tok(S,v), o1Mem(o,m,a), o1Adr(o,m,a))
def o1M(hit, o, d, q, S, z, a, m, v) := !hit ? m : dMem(d, q, S, z, tok(S,v), o1Mem(o,m,a), o1Adr(o,m,a))
fn ofEnd(o Int, f Int, n Bs, d Int, q Int, dis Bool, S Bs, z Int, a Int, m Mem, p Int) Int := colon(S,p) < 0 ? -1
  : !o1Ok(foldEq(f,n,keyAt(S,p)), o, d, q, dis, S, z, a, m, colon(S,p)) ? -1
  : ofTail(o, f, n, d, q, dis, S, z, a, o1M(foldEq(f,n,keyAt(S,p)), o, d, q, S, z, a, m, colon(S,p)), tok(S, o1End(foldEq(f,n,keyAt(S,p)), o, d, q, S, z, a, m, colon(S,p))))
fn ofTail(o Int, f Int, n Bs, d Int, q Int, dis Bool, S Bs, z Int, a Int, m Mem, t Int) Int := t >= blen(S) ? -1 : bat(S,t) == '}' ? t+1 : bat(S,t) != ',' ? -1
  : tok(S,t+1) < blen(S) && bat(S,tok(S,t+1)) == '"' ? ofEnd(o, f, n, d, q, dis, S, z, a, m, tok(S,t+1)+1) : -1
fn ofMem(o Int, f Int, n Bs, d Int, q Int, S Bs, z Int, a Int, m Mem, p Int) Mem := ofMemT(o, f, n, d, q, S, z, a, o1M(foldEq(f,n,keyAt(S,p)), o, d, q, S, z, a, m, colon(S,p)), tok(S, o1End(foldEq(f,n,keyAt(S,p)), o, d, q, S, z, a, m, colon(S,p))))
fn ofMemT(o Int, f Int, n Bs, d Int, q Int, S Bs, z Int, a Int, m Mem, t Int) Mem := bat(S,t) == ',' ? ofMem(o, f, n, d, q, S, z, a, m, tok(S,t+1)+1) : m
def d01(b) := b ? 1 : 0
pool odec
  inv $p pos :: ofEnd(dec.offsets, dec.equalFold, bytes(dec.nameBytes), dec.decoder, d01(dec.quoted), it.disallowUnknownFields, it.S, it.rd, ptr, mem(), $p) == in(ofEnd(dec.offsets, dec.equalFold, bytes(dec.nameBytes), dec.decoder, d01(dec.quoted), it.disallowUnknownFields, it.S, it.rd, ptr, mem(), $p))
  inv $p pos :: ofMem(dec.offsets, dec.equalFold, bytes(dec.nameBytes), dec.decoder, d01(dec.quoted), it.S, it.rd, ptr, mem(), $p) == in(ofMem(dec.offsets, dec.equalFold, bytes(dec.nameBytes), dec.decoder, d01(dec.quoted), it.S, it.rd, ptr, mem(), $p))
  inv $o rs, $j int, $a addr :: dwBad(mem(), listOf($o), $j+1+indexOf($o), $a) == in(dwBad(mem(), listOf($o), $j+1+indexOf($o), $a))
  inv $o rs, $j int, $a addr :: dwAdr(mem(), listOf($o), $j+1+indexOf($o), $a) == in(dwAdr(mem(), listOf($o), $j+1+indexOf($o), $a))
  inv $o rs, $j int, $a addr :: dwMem(mem(), listOf($o), $j+1+indexOf($o), $a) == in(dwMem(mem(), listOf($o), $j+1+indexOf($o), $a))
  inv $o rs, $j int :: $j < len($o)
  inv $a addr :: 0 < $a
func (dec *oneFieldStructDecoder) Decode(ptr, it, opts) (err)
  props C13 C02 C03 C17
  theory structs
  flag nilable:opts
  flag fuel:2
  pool odec
  requires inv(it) && it.cfg != 0 && ptr != 0 && ptr < 9223372036854775808
  requires len(dec.offsets) >= 1 && dec.decoder != 0 && dec.equalFold != 0
  modifies D(it)
  let S := it.S
  let t := tok(S, pos(it))
  let isNull := t < blen(S) && bat(S,t) == 'n'
  let obj := t < blen(S) && bat(S,t) == '{'
  let t1 := tok(S, t+1)
  let empty := obj && t1 < blen(S) && bat(S,t1) == '}'
  let e := empty ? t1+1 : obj && t1 < blen(S) && bat(S,t1) == '"' ? ofEnd(dec.offsets, dec.equalFold, bytes(dec.nameBytes), dec.decoder, d01(dec.quoted), it.disallowUnknownFields, S, it.rd, ptr, mem(), t1+1) : -1
  ensures keep(it)
  ensures err == 0 && isNull ==> nullAt(S,t) && pos(it) == lit(S, t+1, bytes("ull"), 0) && mem() == old(mem())
  ensures err == 0 && !isNull ==> e >= 0 && pos(it) == e && mem() == (empty ? old(mem()) : ofMem(dec.offsets, dec.equalFold, bytes(dec.nameBytes), dec.decoder, d01(dec.quoted), S, it.rd, ptr, old(mem()), t1+1))
  ensures err != 0 ==> isNull ? !nullAt(S,t) : e < 0
