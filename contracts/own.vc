// ---- what goroutines that use one configuration share
own props C21
own shared DecoderConfig EncoderConfig ValDecoder ValEncoder
own building arrayDecoderBuilder mapDecoderBuilder pointerDecoderBuilder sliceDecoderBuilder structDecoderBuilder oneFieldStructDecoderBuilder smallStructDecoderBuilder
own building arrayEncoderBuilder mapEncoderBuilder pointerEncoderBuilder sliceEncoderBuilder structEncoderBuilder
own guarded EncoderConfig.internalCache by cacheMu
own published EncoderConfig.encoderCache by cacheMu
own published DecoderConfig.decoderCache by cacheMu
own reads ValEncoder.Encode 1
own reads ValEncoder.IsEmpty 1
own writes typedmemmove 1
own writes typedmemclrpartial 1
own writes typedslicecopy 1
own writes mapassign 1
own writes mapiterinit 2
own writes mapiternext 0
