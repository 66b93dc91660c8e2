// ---- raw capture, literals, validity
func (it *Iterator) SkipRaw() (ret, err)
  props C02 C03 C17
  alias ret buffer
  ends valEnd(it.S, it.rd, pos(it))
  ok src(ret) == it.S && lo(ret) == tok(it.S, old(pos(it))) && hi(ret) == e && e > old(pos(it))
func (it *Iterator) AppendRaw(in) (ret, err)
  props C02 C15 C03 C17
  alias ret @in
  ends valEnd(it.S, it.rd, pos(it))
  ok bytes(ret) == appR(bytes(in), it.S, tok(it.S, old(pos(it))), e) && e > old(pos(it))
func (it *Iterator) ReadRaw() (ret, err)
  props C02 C15 C03 C17
  ends valEnd(it.S, it.rd, pos(it))
  ok bytes(ret) == appR(bempty(), it.S, tok(it.S, old(pos(it))), e) && e > old(pos(it))
func (it *Iterator) readNumberAsString(c) (ret, err)
  requires isnum(c) && it.head >= 1 && bat(it.S, pos(it) - 1) == c
  ends numRest(it.S, it.rd, c, pos(it))
  ok bytes(ret) == appR(bempty(), it.S, old(pos(it)) - 1, e) && e >= old(pos(it))
def numEnd(S, z, p) := let t := tok(S,p) in t >= blen(S) ? -2 : isnum(bat(S,t)) ? numRest(S, z, bat(S,t), t+1) : -1
func (it *Iterator) ReadNumber() (ret, err)
  props C02 C15 C03 C17
  ends numEnd(it.S, it.rd, pos(it))
  ok bytes(ret) == appR(bempty(), it.S, tok(it.S, old(pos(it))), e) && e > old(pos(it))
func (it *Iterator) ReadNull() (err)
  props C01 C02 C03 C17
  ends let t := tok(it.S, pos(it)) in t >= blen(it.S) ? -2 : bat(it.S,t) == 'n' ? lit(it.S,t+1,bytes("ull"),0) : -1
  ok e > old(pos(it))
func (it *Iterator) ReadBool() (ret, err)
  props C02 C03 C17
  ends let t := tok(it.S, pos(it)) in t >= blen(it.S) ? -2 : bat(it.S,t) == 't' ? lit(it.S,t+1,bytes("rue"),0) : bat(it.S,t) == 'f' ? lit(it.S,t+1,bytes("alse"),0) : -1
  ok ret == (bat(it.S, tok(it.S, old(pos(it)))) == 't') && e > old(pos(it))
