// ---- float writers. frank64(f) is the integer of the bits of |f|, negated for negative f: it
// orders the floats. fmt64(f, c) is what strconv writes in format c with the shortest precision.
ufn frank64(f F64) Int
ufn fnan64(f F64) Bool
ufn fabs64(f F64) F64
ufn frank32(f F32) Int
ufn fnan32(f F32) Bool
ufn ftext(f F64, c Int, bits Int) Bs
def abs(x) := x < 0 ? -x : x
ext math.IsInf(f, sign) (r)
  ensures r == (!fnan64(f) && ((sign >= 0 && frank64(f) == 9218868437227405312) || (sign <= 0 && frank64(f) == -9218868437227405312)))
ext math.IsNaN(f) (r)
  ensures r == fnan64(f)
ext math.Abs(f) (r)
  ensures r == fabs64(f)
ext strconv.AppendFloat(dst, f, c, prec, bits) (res)
  alias res @dst
  requires prec == -1 && (bits == 32 || bits == 64)
  ensures bytes(res) == appR(bytes(dst), ftext(f, c, bits), 0, blen(ftext(f, c, bits)))
  ensures blen(ftext(f, c, bits)) >= 1
  ensures c == 'e' && !fnan64(f) && abs(frank64(f)) != 9218868437227405312 ==> blen(ftext(f, c, bits)) >= 5
def big64(f) := frank64(f) != 0 && (abs(frank64(f)) < 4517329193108106637 || abs(frank64(f)) >= 4921056587992461136)
def big32(f) := frank32(f) != 0 && (abs(frank32(f)) < 897988541 || abs(frank32(f)) >= 1649989415)
// e-0d is written e-d
def short(B) := let n := blen(B) in n > 4 && bat(B,n-4) == 'e' && bat(B,n-3) == '-' && bat(B,n-2) == '0'
def clean0(B) := short(B) ? appR(bempty(), bset(B, blen(B)-2, bat(B, blen(B)-1)), 0, blen(B)-1) : B
def app(B, T) := appR(B, T, 0, blen(T))
func (s *Streamer) Float64(f) (ret)
  props C16 C08
  theory wfloat
  returns ret s
  modifies W(s)
  let bad := fnan64(f) || abs(frank64(f)) == 9218868437227405312
  ensures bad && old(s.Error) == 0 ==> bytes(s.buffer) == old(bytes(s.buffer)) && s.poped == old(s.poped) && s.Error != 0
  ensures bad && old(s.Error) != 0 ==> same(s)
  ensures !bad ==> wrote(s, big64(f) ? clean0(app(old(sep(s)), ftext(f, 'e', 64))) : app(old(sep(s)), ftext(f, 'f', 64)), true)
func (s *Streamer) Float32(f) (ret)
  props C16 C08
  theory wfloat
  returns ret s
  modifies W(s)
  let g := conv_F32_F64(f)
  let bad := fnan32(f) || abs(frank32(f)) == 2139095040
  ensures bad && old(s.Error) == 0 ==> bytes(s.buffer) == old(bytes(s.buffer)) && s.poped == old(s.poped) && s.Error != 0
  ensures bad && old(s.Error) != 0 ==> same(s)
  ensures !bad ==> wrote(s, big32(f) ? clean0(app(old(sep(s)), ftext(g, 'e', 32))) : app(old(sep(s)), ftext(g, 'f', 32)), true)
