// ---- the text an error shows is input: at most 20 bytes before and 20 after the position, all of them delivered
ufn isType__github_com_zerosnake0_jzon_DecodeError(e Int) Bool
func (it *Iterator) errorLocation() (ret)
  props C17
  alias ret buffer
  requires inv(it)
  let a := it.head > 20 ? it.head - 20 : 0
  let b := it.tail - it.head < 20 ? it.tail : it.head + 20
  ensures src(ret) == it.S && lo(ret) == it.offset + a && hi(ret) == it.offset + b
func (it *Iterator) WrapError(err) (res)
  props C17
  flag nilable:res
  requires inv(it)
  let a := it.offset + (it.head > 20 ? it.head - 20 : 0)
  let b := it.offset + (it.tail - it.head < 20 ? it.tail : it.head + 20)
  ensures !isType__github_com_zerosnake0_jzon_DecodeError(err) ==> res != 0 && res.reason == err && bytes(res.location) == appR(bempty(), it.S, a, b)
