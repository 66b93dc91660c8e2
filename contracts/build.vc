// ---- which coder is built for which type
sort IM
sort SM
sort UM
ufn imHas(m IM, k Int) Bool
ufn imGet(m IM, k Int) Int
ufn imPut(m IM, k Int, v Int) IM
ufn imempty() IM
ufn umHas(m UM, k Int) Bool
ufn umempty() UM
ufn smHas(m SM, k Bs) Bool
ufn smGet(m SM, k Bs) Int
ufn smPut(m SM, k Bs, v Int) SM
ufn smempty() SM
// attributes of a type, by its number
ufn tySize(t Int) Int
ufn tyLen(t Int) Int
ufn tyPtr(t Int) Int
ufn tyKey(t Int) Int
ufn tyKind(t Int) Int
ufn tyMethods(t Int) Int
ufn tyImpl(t Int, u Int) Bool
iface reflect.Type.Size() (n)
  ensures n == tySize(tyRef(self)) && 0 <= n
iface reflect.Type.Len() (n)
  ensures n == tyLen(tyRef(self)) && 0 <= n
iface reflect.Type.Key() (t)
  ensures t != 0 && tyRef(t) == tyKey(tyRef(self))
iface reflect.Type.NumMethod() (n)
  ensures n == tyMethods(tyRef(self)) && 0 <= n
iface reflect.Type.Implements(u) (b)
  ensures b == tyImpl(tyRef(self), tyRef(u))
iface reflect.Type.String() (s)
ext reflect.PtrTo(typ) (t)
  ensures t != 0 && tyRef(t) == tyPtr(tyRef(typ))
func rtypeOfType(typ) (ret)
  flag trusted
  ensures ret == tyRef(typ)
def look(c, k) := imHas(c, k) ? imGet(c, k) : 0

func newArrayDecoder(arrType) (ret)
  props C12
  requires arrType != 0
  ensures ret != nil && ret.decoder != nil && ret.elemPtrRType == tyPtr(tyElem(tyRef(arrType)))
  ensures ret.decoder.rtype == tyRef(arrType) && ret.decoder.size == tySize(tyRef(arrType)) && ret.decoder.length == tyLen(tyRef(arrType)) && ret.decoder.elemSize == tySize(tyElem(tyRef(arrType)))
func (builder *arrayDecoderBuilder) build(cache)
  props C12
  modifies builder.decoder.elemDec
  requires builder != nil && builder.decoder != nil
  ensures builder.decoder.elemDec == look(cache, builder.elemPtrRType)
func newPointerDecoder(typ) (ret)
  props C12
  requires typ != 0
  ensures ret != nil && ret.decoder != nil && ret.ptrRType == tyRef(typ) && ret.decoder.elemRType == tyElem(tyRef(typ))
func (builder *pointerDecoderBuilder) build(cache)
  props C12
  modifies builder.decoder.elemDec
  requires builder != nil && builder.decoder != nil
  ensures builder.decoder.elemDec == look(cache, builder.ptrRType)
func newSliceDecoder(sliceType) (ret)
  props C12
  requires sliceType != 0
  let e := tyElem(tyRef(sliceType))
  ensures ret != nil && ret.decoder != nil && ret.elemPtrRType == tyPtr(e) && ret.decoder.elemRType == e && ret.decoder.elemSize == tySize(e) && ret.decoder.elemKind == tyKind(e)
func (builder *sliceDecoderBuilder) build(cache)
  props C12
  modifies builder.decoder.elemDec
  requires builder != nil && builder.decoder != nil
  ensures builder.decoder.elemDec == look(cache, builder.elemPtrRType)
func (builder *mapDecoderBuilder) build(cache)
  props C12
  modifies builder.decoder.valDec
  requires builder != nil && builder.decoder != nil
  ensures builder.decoder.valDec == look(cache, builder.valPtrRType)
ufn tab_keyDecoders(i Int) Int
ufn tab_kindDecoders(i Int) Int
ufn tab_decoderKindMap(i Int) Int
ufn tab_keyEncoders(i Int) Int
ufn tab_kindEncoders(i Int) Int
ufn tab_encoderKindMap(i Int) Int
func newMapDecoder(mapType) (ret)
  props C12
  flag nilable:ret
  requires mapType != 0
  let t := tyRef(mapType)
  let k := tyKey(t)
  let text := tyImpl(tyPtr(k), tyRef(textUnmarshalerType))
  let kd := tab_keyDecoders(tyKind(k))
  ensures (ret == nil) == (!text && tyKind(k) != 24 && kd == 0)
  ensures ret != nil ==> ret.decoder != nil && ret.valPtrRType == tyPtr(tyElem(t)) && ret.decoder.rtype == t && ret.decoder.keyRType == k && ret.decoder.valRType == tyElem(t)
  ensures ret != nil && !text ==> ret.decoder.keyDec == kd
  ensures ret != nil && tyKind(k) != 24 ==> ret.decoder.keyDec != nil
  ensures ret != nil && text ==> isdyn(ret.decoder.keyDec, textUnmarshalerDecoder) && dyn(ret.decoder.keyDec) == tyPtr(k)

func newPointerEncoder(elemType) (ret)
  props C14
  requires elemType != 0
  ensures ret != nil && ret.encoder != nil && ret.elemRType == tyRef(elemType)
func newArrayEncoder(typ) (ret)
  props C14
  requires typ != 0
  let e := tyElem(tyRef(typ))
  ensures ret != nil && ret.encoder != nil && ret.encoder.elemSize == tySize(e) && ret.encoder.length == tyLen(tyRef(typ)) && ret.elemRType == e && tyRef(ret.elemType) == e && ret.elemType != 0
func newSliceEncoder(typ) (ret)
  props C14
  requires typ != 0
  let e := tyElem(tyRef(typ))
  ensures ret != nil && ret.encoder != nil && ret.encoder.elemSize == tySize(e) && tyRef(ret.elemType) == e && ret.elemType != 0
ufn indir(t Int) Bool
func ifaceIndir(t) (ret)
  flag trusted
  ensures ret == indir(t)
func newMapEncoder(mapType) (ret)
  props C14
  flag nilable:ret
  requires mapType != 0
  let t := tyRef(mapType)
  let k := tyKey(t)
  let str := tyKind(k) == 24
  let text := !str && tyImpl(k, tyRef(textMarshalerType))
  let ke := tab_keyEncoders(tyKind(k))
  ensures (ret == nil) == (!text && !str && ke == 0)
  ensures ret != nil ==> ret.encoder != nil && ret.encoder.mapRType == t && ret.elemRType == tyElem(t)
  ensures ret != nil && !text ==> ret.encoder.keyEncoder == ke
  ensures ret != nil && text && indir(k) ==> isdyn(ret.encoder.keyEncoder, textMarshalerKeyEncoder) && dyn(ret.encoder.keyEncoder) == k
  ensures ret != nil && text && !indir(k) ==> isdyn(ret.encoder.keyEncoder, directTextMarshalerKeyEncoder) && dyn(ret.encoder.keyEncoder) == k
func (cache encoderCache) has(rtype) (ret)
  props C14
  ensures ret == imHas(cache, rtype)

// ---- how a decoder is chosen
func (tq *typeQueue) push(t)
  props C12
  requires tq != 0
  modifies deref(tq)
func (tq *typeQueue) pop() (t)
  props C12
  flag nilable:t
  requires tq != 0
  modifies deref(tq)
pool mkfields
  inv $o rs, $i int :: $i < len($o)
func newOneFieldStructDecoder(field, caseSensitive) (ret)
  props C12
  requires field != 0
  ensures ret != nil && ret.decoder != nil && tyRef(ret.fieldPtrType) == tyRef(field.ptrType) && bytes(ret.decoder.nameBytes) == bytes(field.nameBytes) && ret.decoder.quoted == field.quoted
func newSmallStructDecoder(fields) (ret)
  props C12
  pool mkfields
  requires 0 <= len(fields) && len(fields) < 281474976710656
  ensures ret != nil && ret.decoder != nil && len(ret.decoder.fields) == len(fields)
func newStructDecoder(fields) (ret)
  props C12
  ensures ret != nil && ret.decoder != nil
ufn nFields(t Int, tag Bs, only Bool) Int
func describeStruct(st, tagKey, onlyTaggedField) (ret)
  flag trusted
  requires st != 0
  ensures forall i Int :: 0 <= i && i < len(ret) ==> sl_field_ptrType(listOf(ret), i) != 0
  ensures len(ret) == nFields(tyRef(st), bytes(tagKey), onlyTaggedField) && 0 <= len(ret) && len(ret) < 281474976710656
iface decoderBuilder.build(cache)
// what is decided before the kind of the type is looked at
def dGlob(k) := imHas(globalValDecoders, k)
def dJson(k) := !dGlob(k) && tyImpl(k, tyRef(jsonUnmarshalerType))
def dText(k) := !dGlob(k) && !dJson(k) && tyImpl(k, tyRef(textUnmarshalerType))
def dLate(k) := !dGlob(k) && !dJson(k) && !dText(k)
def dKind(k) := tyKind(tyElem(k))
def dNat(k) := tab_decoderKindMap(dKind(k))
def dOwn(c, k) := !imHas(c, k) && dLate(k) && (dNat(k) == 0 || !imHas(c, dNat(k)) && tab_kindDecoders(dKind(k)) == 0)
func (decCfg *DecoderConfig) createDecoderInternal(cache, typesToCreate)
  props C12
  inittab decoderKindMap 1=*bool 2=*int 3=*int8 4=*int16 5=*int32 6=*int64 7=*uint 8=*uint8 9=*uint16 10=*uint32 11=*uint64 12=*uintptr 13=*float32 14=*float64 24=*string
  inittab kindDecoders 1=*boolDecoder 2=*int64Decoder 3=*int8Decoder 4=*int16Decoder 5=*int32Decoder 6=*int64Decoder 7=*uint64Decoder 8=*uint8Decoder 9=*uint16Decoder 10=*uint32Decoder 11=*uint64Decoder 12=*uint64Decoder 13=*float32Decoder 14=*float64Decoder 24=*stringDecoder
  inittab keyDecoders 2=*int64Decoder 3=*int8Decoder 4=*int16Decoder 5=*int32Decoder 6=*int64Decoder 7=*uint64Decoder 8=*uint8Decoder 9=*uint16Decoder 10=*uint32Decoder 11=*uint64Decoder 12=*uint64Decoder 24=*stringDecoder
  inittab globalValDecoders *json.Number=*jsonNumberDecoder *json.RawMessage=*jsonRawMessageDecoder
  pool mkfields
  modifies elems(cache)
  flag noterm
  requires cache != nil && decCfg != 0
  puts cache(k, v jsonUnmarshalerDecoder) !imHas(cache, k) && dJson(k) && v == k
  puts cache(k, v textUnmarshalerDecoder) !imHas(cache, k) && dText(k) && v == k
  puts cache(k, v any) !imHas(cache, k) && (dGlob(k) ? v == imGet(globalValDecoders, k) : dLate(k) && dNat(k) != 0 && (imHas(cache, dNat(k)) ? v == imGet(cache, dNat(k)) : v != 0 && v == tab_kindDecoders(dKind(k))))
  puts cache(k, v *efaceDecoder) dOwn(cache, k) && dKind(k) == 20 && tyMethods(tyElem(k)) == 0
  puts cache(k, v *ifaceDecoder) dOwn(cache, k) && dKind(k) == 20 && tyMethods(tyElem(k)) != 0
  puts cache(k, v *emptyObjectDecoder) dOwn(cache, k) && dKind(k) == 25 && nFields(tyElem(k), bytes(decCfg.tag), decCfg.onlyTaggedField) == 0
  puts cache(k, v *oneFieldStructDecoder) dOwn(cache, k) && dKind(k) == 25 && nFields(tyElem(k), bytes(decCfg.tag), decCfg.onlyTaggedField) == 1
  puts cache(k, v *smallStructDecoder) dOwn(cache, k) && dKind(k) == 25 && nFields(tyElem(k), bytes(decCfg.tag), decCfg.onlyTaggedField) == len(v.fields)
  puts cache(k, v *structDecoder) dOwn(cache, k) && dKind(k) == 25 && nFields(tyElem(k), bytes(decCfg.tag), decCfg.onlyTaggedField) > 0
  puts cache(k, v *pointerDecoder) dOwn(cache, k) && dKind(k) == 22 && v.elemRType == tyElem(tyElem(k))
  puts cache(k, v *arrayDecoder) dOwn(cache, k) && dKind(k) == 17 && v.rtype == tyElem(k) && v.size == tySize(tyElem(k)) && v.length == tyLen(tyElem(k)) && v.elemSize == tySize(tyElem(tyElem(k)))
  puts cache(k, v *sliceDecoder) dOwn(cache, k) && dKind(k) == 23 && v.elemRType == tyElem(tyElem(k)) && v.elemSize == tySize(tyElem(tyElem(k))) && v.elemKind == tyKind(tyElem(tyElem(k)))
  puts cache(k, v *mapDecoder) dOwn(cache, k) && dKind(k) == 21 && v.rtype == tyElem(k) && v.keyRType == tyKey(tyElem(k)) && v.valRType == tyElem(tyElem(k)) && (tyKind(tyKey(tyElem(k))) != 24 ==> v.keyDec != nil)
  puts cache(k, v notSupportedDecoder) dOwn(cache, k) && dKind(k) != 17 && dKind(k) != 20 && dKind(k) != 22 && dKind(k) != 23 && dKind(k) != 25 && (dKind(k) == 21 ==> !tyImpl(tyPtr(tyKey(tyElem(k))), tyRef(textUnmarshalerType)) && tyKind(tyKey(tyElem(k))) != 24 && tab_keyDecoders(tyKind(tyKey(tyElem(k)))) == 0)
// ---- how an encoder is chosen
ufn tab_isEmptyFunctions(i Int) Int
func (encCfg *EncoderConfig) newStructEncoder(typ) (ret)
  props C14
  flag nilable:ret
  requires typ != 0 && encCfg != 0
  let n := nFields(tyRef(typ), bytes(encCfg.tag), encCfg.onlyTaggedField)
  ensures (ret == nil) == (n == 0)
  ensures 0 <= n && n < 281474976710656
  ensures ret != nil ==> ret.encoder != nil && len(ret.fields) == n
  ensures ret != nil ==> (forall i Int :: 0 <= i && i < len(ret.fields) ==> sl_field_ptrType(listOf(ret.fields), i) != 0)
def eGlob(k) := imHas(globalValEncoders, k)
def eJson(k) := !eGlob(k) && tyKind(k) != 20 && tyImpl(k, tyRef(jsonMarshalerType))
def eText(k) := !eGlob(k) && !eJson(k) && tyKind(k) != 20 && tyImpl(k, tyRef(textMarshalerType))
def eLate(k) := !eGlob(k) && !eJson(k) && !eText(k)
def eNat(k) := tab_encoderKindMap(tyKind(k))
def eOwn(c, k) := !imHas(c, k) && eLate(k) && (eNat(k) == 0 || !imHas(c, eNat(k)) && tab_kindEncoders(tyKind(k)) == 0)
def ePtrM(k) := !indir(k) && tyKind(k) == 22 && (eJson(k) && tyImpl(tyElem(k), tyRef(jsonMarshalerType)) || eText(k) && tyImpl(tyElem(k), tyRef(textMarshalerType)))
func (encCfg *EncoderConfig) createEncoderInternal(cache, internalCache, typesToCreate)
  props C14
  inittab encoderKindMap 1=bool 2=int 3=int8 4=int16 5=int32 6=int64 7=uint 8=uint8 9=uint16 10=uint32 11=uint64 12=uintptr 13=float32 14=float64 24=string
  inittab kindEncoders 1=*boolEncoder 2=*int64Encoder 3=*int8Encoder 4=*int16Encoder 5=*int32Encoder 6=*int64Encoder 7=*uint64Encoder 8=*uint8Encoder 9=*uint16Encoder 10=*uint32Encoder 11=*uint64Encoder 12=*uint64Encoder 13=*float32Encoder 14=*float64Encoder 24=*stringEncoder
  inittab keyEncoders 2=*int64KeyEncoder 3=*int8KeyEncoder 4=*int16KeyEncoder 5=*int32KeyEncoder 6=*int64KeyEncoder 7=*uint64KeyEncoder 8=*uint8KeyEncoder 9=*uint16KeyEncoder 10=*uint32KeyEncoder 11=*uint64KeyEncoder 12=*uint64KeyEncoder 24=*stringKeyEncoder
  inittab isEmptyFunctions 1=(*boolEncoder).IsEmpty-fm 2=(*int64Encoder).IsEmpty-fm 3=(*int8Encoder).IsEmpty-fm 4=(*int16Encoder).IsEmpty-fm 5=(*int32Encoder).IsEmpty-fm 6=(*int64Encoder).IsEmpty-fm 7=(*uint64Encoder).IsEmpty-fm 8=(*uint8Encoder).IsEmpty-fm 9=(*uint16Encoder).IsEmpty-fm 10=(*uint32Encoder).IsEmpty-fm 11=(*uint64Encoder).IsEmpty-fm 12=(*uint64Encoder).IsEmpty-fm 13=(*float32Encoder).IsEmpty-fm 14=(*float64Encoder).IsEmpty-fm 15=closure 16=closure 17=(*arrayEncoder).IsEmpty-fm 18=closure 19=closure 21=(*directMapEncoder).IsEmpty-fm 23=(*sliceEncoder).IsEmpty-fm 24=(*stringEncoder).IsEmpty-fm 25=(*structEncoder).IsEmpty-fm 26=closure
  inittab globalValEncoders encoding.TextMarshaler=*dynamicTextMarshalerEncoder json.Marshaler=*dynamicJSONMarshalerEncoder json.Number=*jsonNumberEncoder json.RawMessage=*jsonRawMessageEncoder
  theory structs
  pool mkfields
  modifies elems(cache), elems(internalCache)
  flag noterm
  requires cache != nil && internalCache != nil && encCfg != 0
  each (k, v *pointerEncoder) v != nil
  each (k, v *pointerEncoderBuilder) v != nil && v.encoder != nil && tyKind(k) == 22 && v.elemRType == tyElem(k)
  each (k, v *arrayEncoderBuilder) v != nil && v.encoder != nil && tyKind(k) == 17 && v.elemType != 0 && tyRef(v.elemType) == tyElem(k)
  each (k, v *sliceEncoderBuilder) v != nil && v.encoder != nil && tyKind(k) == 23 && v.elemType != 0 && tyRef(v.elemType) == tyElem(k)
  each (k, v *mapEncoderBuilder) v != nil && v.encoder != nil && tyKind(k) == 21 && v.elemRType == tyElem(k)
  each (k, v *structEncoderBuilder) v != nil && v.encoder != nil && tyKind(k) == 25 && (forall i Int :: 0 <= i && i < len(v.fields) ==> sl_field_ptrType(listOf(v.fields), i) != 0)
  puts internalCache(k, v *jsonMarshalerEncoder) !imHas(internalCache, k) && eJson(k) && indir(k) && v.rtype == k
  puts cache(k, v *jsonMarshalerEncoder) eJson(k) && indir(k) && v.rtype == k
  puts internalCache(k, v *textMarshalerEncoder) !imHas(internalCache, k) && eText(k) && indir(k) && v.rtype == k
  puts cache(k, v *textMarshalerEncoder) eText(k) && indir(k) && v.rtype == k
  puts internalCache(k, v *directJSONMarshalerEncoder) !imHas(internalCache, k) && eJson(k) && !indir(k) && tyKind(k) != 22 && v.rtype == k
  puts internalCache(k, v *directTextMarshalerEncoder) !imHas(internalCache, k) && eText(k) && !indir(k) && tyKind(k) != 22 && v.rtype == k
  puts internalCache(k, v pointerJSONMarshalerEncoder) !imHas(internalCache, k) && eJson(k) && !indir(k) && tyKind(k) == 22 && !tyImpl(tyElem(k), tyRef(jsonMarshalerType)) && v == k
  puts internalCache(k, v pointerTextMarshalerEncoder) !imHas(internalCache, k) && eText(k) && !indir(k) && tyKind(k) == 22 && !tyImpl(tyElem(k), tyRef(textMarshalerType)) && v == k
  puts internalCache(k, v *pointerEncoder) !imHas(internalCache, k) && tyKind(k) == 22 && (eOwn(internalCache, k) || ePtrM(k))
  puts internalCache(k, v *efaceEncoder) eOwn(internalCache, k) && tyKind(k) == 20 && tyMethods(k) == 0
  puts internalCache(k, v *ifaceEncoder) eOwn(internalCache, k) && tyKind(k) == 20 && tyMethods(k) != 0
  puts cache(k, v *efaceEncoder) tyKind(k) == 20 && tyMethods(k) == 0
  puts cache(k, v *ifaceEncoder) tyKind(k) == 20 && tyMethods(k) != 0
  puts internalCache(k, v *emptyArrayEncoder) eOwn(internalCache, k) && tyKind(k) == 17 && tyLen(k) == 0
  puts cache(k, v *emptyArrayEncoder) tyKind(k) == 17 && tyLen(k) == 0
  puts internalCache(k, v *arrayEncoder) eOwn(internalCache, k) && tyKind(k) == 17 && v.length == tyLen(k) && v.length > 0 && v.elemSize == tySize(tyElem(k))
  puts cache(k, v *arrayEncoder) tyKind(k) == 17 && indir(k)
  puts internalCache(k, v *directMapEncoder) eOwn(internalCache, k) && tyKind(k) == 21 && v.mapRType == k
  puts internalCache(k, v *sliceEncoder) eOwn(internalCache, k) && tyKind(k) == 23 && v.elemSize == tySize(tyElem(k))
  puts cache(k, v *sliceEncoder) tyKind(k) == 23
  puts internalCache(k, v *base64Encoder) tyKind(k) == 23 && tyKind(tyElem(k)) == 8 && imHas(internalCache, tyPtr(tyElem(k))) && isnilptr(imGet(internalCache, tyElem(k)), uint8Encoder)
  puts cache(k, v *base64Encoder) tyKind(k) == 23 && tyKind(tyElem(k)) == 8
  puts internalCache(k, v *emptyStructEncoder) eOwn(internalCache, k) && tyKind(k) == 25 && nFields(k, bytes(encCfg.tag), encCfg.onlyTaggedField) == 0
  puts cache(k, v *emptyStructEncoder) tyKind(k) == 25 && indir(k)
  puts internalCache(k, v *structEncoder) eOwn(internalCache, k) && tyKind(k) == 25 && nFields(k, bytes(encCfg.tag), encCfg.onlyTaggedField) > 0
  puts cache(k, v *structEncoder) tyKind(k) == 25 && indir(k)
  puts internalCache(k, v notSupportedEncoder) eOwn(internalCache, k) && tyKind(k) != 17 && tyKind(k) != 20 && tyKind(k) != 22 && tyKind(k) != 23 && tyKind(k) != 25 && (tyKind(k) == 21 ==> tyKind(tyKey(k)) != 24 && !tyImpl(tyKey(k), tyRef(textMarshalerType)) && tab_keyEncoders(tyKind(tyKey(k))) == 0)
  puts cache(k, v notSupportedEncoder) tyKind(k) != 17 && tyKind(k) != 20 && tyKind(k) != 22 && tyKind(k) != 23 && tyKind(k) != 25
  puts cache(k, v *directEncoder) tyKind(k) == 21 || !indir(k)
  puts internalCache(k, v any) !imHas(internalCache, k) && (eGlob(k) ? v == imGet(globalValEncoders, k) : eLate(k) && eNat(k) != 0 && (imHas(internalCache, eNat(k)) ? v == imGet(internalCache, eNat(k)) : v != 0 && v == tab_kindEncoders(tyKind(k))))
  puts cache(k, v any) v == imGet(internalCache, k) || tyKind(k) == 22 && v == look(internalCache, tyElem(k))
