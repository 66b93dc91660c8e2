// number grammar: RFC 8259 automaton, longest match; z is the error ending the stream
def isdig(c) := '0' <= c && c <= '9'
def ise(c) := c == 'e' || c == 'E'
def atEnd(S, z) := z == 0 ? blen(S) : -2
fn expn(S Bs, z Int, p Int) Int := p >= blen(S) ? atEnd(S,z) : isdig(bat(S,p)) ? expn(S,z,p+1) : p
def exp1(S, z, p) := p >= blen(S) ? -2 : isdig(bat(S,p)) ? expn(S,z,p+1) : -1
fn exp0(S Bs, z Int, p Int) Int := p >= blen(S) ? -2 : (bat(S,p) == '+' || bat(S,p) == '-') ? exp1(S,z,p+1)
  : isdig(bat(S,p)) ? expn(S,z,p+1) : -1
fn frac(S Bs, z Int, p Int) Int := p >= blen(S) ? atEnd(S,z) : isdig(bat(S,p)) ? frac(S,z,p+1) : ise(bat(S,p)) ? exp0(S,z,p+1) : p
fn frac0(S Bs, z Int, p Int) Int := p >= blen(S) ? -2 : isdig(bat(S,p)) ? frac(S,z,p+1) : -1
fn numInt(S Bs, z Int, p Int) Int := p >= blen(S) ? atEnd(S,z) : isdig(bat(S,p)) ? numInt(S,z,p+1)
  : bat(S,p) == '.' ? frac0(S,z,p+1) : ise(bat(S,p)) ? exp0(S,z,p+1) : p
fn numZero(S Bs, z Int, p Int) Int := p >= blen(S) ? atEnd(S,z)
  : bat(S,p) == '.' ? frac0(S,z,p+1) : ise(bat(S,p)) ? exp0(S,z,p+1) : p
fn num1(S Bs, z Int, p Int) Int := p >= blen(S) ? -2 : bat(S,p) == '0' ? numZero(S,z,p+1) : isdig(bat(S,p)) ? numInt(S,z,p+1) : -1
// rest of a number whose first character c has been consumed
def numRest(S, z, c, p) := c == '-' ? num1(S,z,p) : c == '0' ? numZero(S,z,p) : numInt(S,z,p)
def isnum(c) := isdig(c) || c == '-'

pool num
  inv $p pos :: numInt(it.S, it.rd, $p) == in(numInt(it.S, it.rd, $p))
  inv $p pos :: frac(it.S, it.rd, $p) == in(frac(it.S, it.rd, $p))
  inv $p pos :: expn(it.S, it.rd, $p) == in(expn(it.S, it.rd, $p))

func (it *Iterator) skipExponentPart() (err)
  pool num
  ends exp0(it.S, it.rd, pos(it))

func (it *Iterator) skipFractionPart() (err)
  pool num
  ends frac0(it.S, it.rd, pos(it))

func skipNumber(it, c) (err)
  pool num
  requires isnum(c)
  ends numRest(it.S, it.rd, c, pos(it))
