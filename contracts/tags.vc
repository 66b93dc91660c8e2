// ---- struct tags: name and comma separated options
fn comma(S Bs, p Int, e Int) Int := p >= e ? e : bat(S,p) == ',' ? p : comma(S, p+1, e)
lemma commaLe(S Bs, p Int, e Int) trigger {comma(S,p,e)} induct p up {e} := p <= e ==> p <= comma(S,p,e) && comma(S,p,e) <= e
// the options are the pieces between commas; an empty piece at the end does not count
fn hasOpt(S Bs, N Bs) Bool := blen(S) == 0 ? false : appR(bempty(), S, 0, comma(S,0,blen(S))) == N || hasOpt(appR(bempty(), S, comma(S,0,blen(S))+1, blen(S)), N)
ext strings.Index(s, sub) (i)
  ensures bytes(sub) == bytes(",") ==> i == (comma(src(s), lo(s), hi(s)) < hi(s) ? comma(src(s), lo(s), hi(s)) - lo(s) : -1)
func parseTag(tag) (name, opts)
  props C20
  theory tags
  let n := comma(bytes(tag), 0, len(tag))
  ensures bytes(name) == appR(bempty(), bytes(tag), 0, n) && bytes(opts) == appR(bempty(), bytes(tag), n+1, len(tag))
pool opts
  inv $s bytes :: hasOpt(bytes($s), bytes(optionName)) == in(hasOpt(bytes($s), bytes(optionName)))
func (o tagOptions) Contains(optionName) (r)
  props C20
  theory tags
  pool opts
  ensures r == hasOpt(bytes(o), bytes(optionName))
