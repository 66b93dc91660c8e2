// ---- whole documents
func (it *Iterator) Valid(data) (ok)
  props C01 C03 C17
  modifies R(it), it.fixbuf
  let D := bytes(data)
  let e := valEnd(D, 0, 0)
  ensures ok == (e >= 0 && tok(D, e) == blen(D))

func (it *Iterator) NextValueType() (t, err)
  props C02 C18 C03 C17
  requires inv(it)
  modifies M(it)
  ensures keep(it) && pos(it) == tok(it.S, old(pos(it)))
  case ok: err == 0
    ensures it.head < it.tail && !isws(bat(it.S, pos(it)))
  case end: err == eofErr(it)
    ensures pos(it) == blen(it.S)

func (it *Iterator) Buffer() (res)
  props C18
  requires inv(it)
  alias res buffer
  ensures bytes(res) == appR(bempty(), it.S, pos(it), it.offset + it.tail)
