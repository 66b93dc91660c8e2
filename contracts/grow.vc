// ---- growing a slice while its elements are decoded; a slice header is (data, length, capacity)
def hData(m, h) := ld_ptr(m, h)
def hLen(m, h) := ld_i64(m, h+8)
def hCap(m, h) := ld_i64(m, h+16)
// the memory after the elements of one header were copied to another
ufn tsCopy(m Mem, t Int, dd Int, dl Int, sd Int, sl Int) Mem
// capacities grow until the length fits
fn gCap(c Int, n Int) Int := c >= n || c < 1 ? c : gCap(c < 1024 ? c*2 : c + c/4, n)
def gNew(c, n) := c == 0 ? n : gCap(c, n)
func typedslicecopy(rtyp, dst, src) (n)
  flag trusted
  requires true
  modifies mem
  ensures mem() == tsCopy(old(mem()), rtyp, dst.Data, dst.Len, src.Data, src.Len)
axiom childDef(m Mem, h Int, sz Int, i Int) trigger {child(m,h,sz,i)} := child(m,h,sz,i) == (hData(m,h) + (sz*i) % 18446744073709551616) % 18446744073709551616
def gM1(m, t, h, n) := mkSlMem(m, t, n, gNew(hCap(m,h), n))
def gH1(m, t, h, n) := mkSl(m, t, n, gNew(hCap(m,h), n))
axiom growDef(m Mem, t Int, h Int, n Int) trigger {grow(m,t,h,n)} := grow(m,t,h,n) == (n < hCap(m,h) ? h : gH1(m,t,h,n))
axiom growMemDef(m Mem, t Int, h Int, n Int) trigger {growMem(m,t,h,n)} := growMem(m,t,h,n) == (n < hCap(m,h) ? st_i64(m,h+8,n) : tsCopy(gM1(m,t,h,n), t, hData(gM1(m,t,h,n),gH1(m,t,h,n)), hLen(gM1(m,t,h,n),gH1(m,t,h,n)), hData(gM1(m,t,h,n),h), hLen(gM1(m,t,h,n),h)))
pool GROW
  inv $c int :: gCap($c, newLength) == gCap(hCap(mem(), ptr), newLength) && $c >= 1 && $c < 1125899906842624
