lemmas C05
// ---- integer formatting: B followed by the decimal digits of v
fn dec(B Bs, v Int) Bs := v < 10 ? snoc(B, 48 + v) : snoc(dec(B, v / 10), 48 + v % 10)
def d3(B, r) := snoc(snoc(snoc(B, 48 + r/100), 48 + (r/10)%10), 48 + r%10)
// the same by groups of three digits
def lead3(B, v) := v < 10 ? snoc(B, 48+v) : v < 100 ? snoc(snoc(B, 48 + v/10), 48 + v%10) : d3(B, v)
fn decK(B Bs, v Int) Bs := v < 1000 ? lead3(B, v) : d3(decK(B, v/1000), v % 1000)
lemma decGroups(B Bs, v Int, n Int) trigger {decK(B, v), dec(B, v), n} induct n down {0} hint {dec(B, v/10), dec(B, (v/10)/10), dec(B, v/1000), decK(B, v/1000)} :=
  0 <= v && v < n ==> decK(B, v) == dec(B, v)
tabledef digits(v, i) := (v / 65536) % 256 == 48 + i/100 && (v / 256) % 256 == 48 + (i/10)%10 && v % 256 == 48 + i%10 && v / 16777216 == (i < 10 ? 2 : i < 100 ? 1 : 0)
def sdecK(B, v) := v < 0 ? decK(snoc(B, '-'), -v) : decK(B, v)

func appendUint8(b, v) (ret)
  alias ret @b
  ensures bytes(ret) == decK(bytes(b), v)
func appendUint16(b, v) (ret)
  alias ret @b
  ensures bytes(ret) == decK(bytes(b), v)
func appendUint32(b, v) (ret)
  alias ret @b
  ensures bytes(ret) == decK(bytes(b), v)
func appendUint64(b, v) (ret)
  alias ret @b
  ensures bytes(ret) == decK(bytes(b), v)
func appendInt8(b, v) (ret)
  alias ret @b
  ensures bytes(ret) == sdecK(bytes(b), v)
func appendInt16(b, v) (ret)
  alias ret @b
  ensures bytes(ret) == sdecK(bytes(b), v)
func appendInt32(b, v) (ret)
  alias ret @b
  ensures bytes(ret) == sdecK(bytes(b), v)
func appendInt64(b, v) (ret)
  alias ret @b
  ensures bytes(ret) == sdecK(bytes(b), v)
