// ---- encoding of strings
strtab 128 9 "\\t" 10 "\\n" 13 "\\r" 34 "\\\"" 92 "\\\\"
strtab 128 9 "\\t" 10 "\\n" 13 "\\r" 34 "\\\"" 92 "\\\\" 38 "\\u0026" 60 "\\u003c" 62 "\\u003e"
// UTF-8: length of the well-formed sequence at p in T before h, or 1 if ill-formed
def cont(T, p, h) := p < h && 128 <= bat(T,p) && bat(T,p) <= 191
def in2(T, p, h, a, b) := p < h && a <= bat(T,p) && bat(T,p) <= b
def u2(T, p, h) := 194 <= bat(T,p) && bat(T,p) <= 223 && cont(T,p+1,h)
def u3(T, p, h) := cont(T,p+2,h) && ((bat(T,p) == 224 && in2(T,p+1,h,160,191)) || (225 <= bat(T,p) && bat(T,p) <= 239 && bat(T,p) != 237 && cont(T,p+1,h)) || (bat(T,p) == 237 && in2(T,p+1,h,128,159)))
def u4(T, p, h) := cont(T,p+2,h) && cont(T,p+3,h) && ((bat(T,p) == 240 && in2(T,p+1,h,144,191)) || (241 <= bat(T,p) && bat(T,p) <= 243 && cont(T,p+1,h)) || (bat(T,p) == 244 && in2(T,p+1,h,128,143)))
fn ulen(T Bs, p Int, h Int) Int := bat(T,p) < 128 ? 1 : u2(T,p,h) ? 2 : u3(T,p,h) ? 3 : u4(T,p,h) ? 4 : 1
fn uval8(T Bs, p Int, h Int) Int := bat(T,p) < 128 ? bat(T,p) : u2(T,p,h) ? (bat(T,p)-192)*64 + bat(T,p+1)-128
  : u3(T,p,h) ? (bat(T,p)-224)*4096 + (bat(T,p+1)-128)*64 + bat(T,p+2)-128
  : u4(T,p,h) ? (bat(T,p)-240)*262144 + (bat(T,p+1)-128)*4096 + (bat(T,p+2)-128)*64 + bat(T,p+3)-128 : 65533

ext utf8.DecodeRuneInString(s) (r, size)
  ensures len(s) == 0 ? r == 65533 && size == 0 : r == uval8(src(s), lo(s), hi(s)) && size == ulen(src(s), lo(s), hi(s))

def hexd(v) := v < 10 ? 48 + v : 87 + v
def snoc2(B, a, b) := snoc(snoc(B, a), b)
def u4e(B, a, b, c, d) := snoc2(snoc2(snoc2(B, '\\', 'u'), a, b), c, d)
def escA(B, c, html) := c == '"' ? snoc2(B, '\\', '"') : c == '\\' ? snoc2(B, '\\', '\\') : c == 10 ? snoc2(B, '\\', 'n') : c == 13 ? snoc2(B, '\\', 'r')
  : c == 9 ? snoc2(B, '\\', 't') : c < 32 ? u4e(B, '0', '0', hexd(c / 16), hexd(c % 16))
  : html == 2 && (c == '<' || c == '>' || c == '&') ? u4e(B, '0', '0', hexd(c / 16), hexd(c % 16)) : snoc(B, c)
// B followed by the encoding of T[p..h) and the closing quote
fn esc(B Bs, T Bs, p Int, h Int, html Int) Bs := p >= h ? snoc(B, '"') : bat(T,p) < 128 ? esc(escA(B, bat(T,p), html), T, p+1, h, html)
  : ulen(T,p,h) == 1 ? esc(u4e(B, 'f', 'f', 'f', 'd'), T, p+1, h, html)
  : uval8(T,p,h) == 8232 ? esc(u4e(B, '2', '0', '2', '8'), T, p+3, h, html) : uval8(T,p,h) == 8233 ? esc(u4e(B, '2', '0', '2', '9'), T, p+3, h, html)
  : esc(appR(B, T, p, p + ulen(T,p,h)), T, p + ulen(T,p,h), h, html)
pool esc
  inv $b bytes, $i int, $j int :: esc(appR(bytes($b), src(str), lo(str) + $j, lo(str) + $i), src(str), lo(str) + $i, hi(str), safeSet) == in(esc(appR(bytes($b), src(str), lo(str) + $j, lo(str) + $i), src(str), lo(str) + $i, hi(str), safeSet)) && 0 <= $j && $j <= $i && $i <= len(str)

func encodeString(buffer, str, safeSet) (ret)
  alias ret @buffer
  pool esc
  props C07
  requires safeSet == 1 || safeSet == 2
  ensures bytes(ret) == esc(snoc(bytes(buffer), '"'), src(str), lo(str), hi(str), safeSet)
