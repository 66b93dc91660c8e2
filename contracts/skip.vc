// ---- the value grammar as an automaton over a stack of enclosing containers (0 object, 1 array)
// states: 0 object just opened, 2 object after a member, 1 array just opened, 3 array after an element

// a value that is not a container, first character at p
def scalarEnd(S, z, p) := bat(S,p) == '"' ? strEnd(S,p+1) : bat(S,p) == 'n' ? lit(S,p+1,bytes("ull"),0)
  : bat(S,p) == 't' ? lit(S,p+1,bytes("rue"),0) : bat(S,p) == 'f' ? lit(S,p+1,bytes("alse"),0)
  : isnum(bat(S,p)) ? numRest(S,z,bat(S,p),p+1) : -1
// value at p inside a container of kind b (0/1), then continue
def valThen(S, z, p, b, k) := bat(S,p) == '[' ? run(S,z,1,p+1,kCons(b,k)) : bat(S,p) == '{' ? run(S,z,0,p+1,kCons(b,k))
  : (let e := scalarEnd(S,z,p) in e < 0 ? e : run(S,z,b+2,e,k))
def closeAt(S, z, p, k) := k == kNil() ? p : run(S, z, khd(k) + 2, p, ktl(k))
// after the opening quote of a key: end of `key" ws :`
fn fieldEnd(S Bs, p Int) Int := let q := strEnd(S,p) in q < 0 ? q : let t := tok(S,q) in t >= blen(S) ? -2 : bat(S,t) == ':' ? t+1 : -1
def afterField(S, z, p, k) := let f := fieldEnd(S,p) in f < 0 ? f : let v := tok(S,f) in v >= blen(S) ? -2 : valThen(S,z,v,0,k)
def member(S, z, t, k) := bat(S,t) == '"' ? afterField(S,z,t+1,k) : -1
def runObj(S, z, st, t, k) := bat(S,t) == '}' ? closeAt(S,z,t+1,k) : st == 0 ? member(S,z,t,k)
  : bat(S,t) != ',' ? -1 : let u := tok(S,t+1) in u >= blen(S) ? -2 : member(S,z,u,k)
def runArr(S, z, st, t, k) := bat(S,t) == ']' ? closeAt(S,z,t+1,k) : st == 1 ? valThen(S,z,t,1,k)
  : bat(S,t) != ',' ? -1 : let u := tok(S,t+1) in u >= blen(S) ? -2 : valThen(S,z,u,1,k)
fn run(S Bs, z Int, st Int, p Int, k K) Int := let t := tok(S,p) in t >= blen(S) ? -2
  : st % 2 == 0 ? runObj(S,z,st,t,k) : runArr(S,z,st,t,k)

// rest of a value whose first character c (at p-1) has been consumed
def valRest(S, z, c, p) := c == '[' ? run(S,z,1,p,kNil()) : c == '{' ? run(S,z,0,p,kNil()) : c == '"' ? strEnd(S,p)
  : c == 'n' ? lit(S,p,bytes("ull"),0) : c == 't' ? lit(S,p,bytes("rue"),0) : c == 'f' ? lit(S,p,bytes("alse"),0)
  : isnum(c) ? numRest(S,z,c,p) : -1
fn valEnd(S Bs, z Int, p Int) Int := let t := tok(S,p) in t >= blen(S) ? -2 : valRest(S,z,bat(S,t),t+1)

func (it *Iterator) skipObjectField() (err)
  ends fieldEnd(it.S, pos(it))
  ok e > old(pos(it))

// ---- bit stack
ufn shl64(a Int, b Int) Int
ufn shr64(a Int, b Int) Int
ufn and64(a Int, b Int) Int
ufn or64(a Int, b Int) Int
def bit(w, i) := shr64(w, i) % 2
fn absK(a (Array Int Int), d Int) K := d <= 0 ? kNil() : kCons(bit(a[(d-1)/64], (d-1)%64), absK(a, d-1))
def stk(s) := absK(s.stack, s.depth)
def stkInv(s) := 0 <= s.depth && s.depth <= 64 * len(s.stack)
modset MS(s) := s.stack, s.depth, elems(s.stack)
def pool_stack(s) := true

func (s *stack) initObject() (ret)
  theory bits
  returns ret s
  modifies MS(s)
  ensures stkInv(s) && stk(s) == kCons(0, kNil())

func (s *stack) initArray() (ret)
  theory bits
  returns ret s
  modifies MS(s)
  ensures stkInv(s) && stk(s) == kCons(1, kNil())

func (s *stack) init() (ret)
  returns ret s
  modifies s.depth
  ensures s.depth == 0

func (s *stack) pop() (ret)
  theory bits
  requires stkInv(s)
  modifies s.depth
  ensures stkInv(s)
  case none: ret == -1
    ensures old(stk(s)) == kNil() && stk(s) == kNil()
  case some: ret != -1
    ensures old(stk(s)) == kCons(ret - 2, stk(s)) && (ret == 2 || ret == 3)

func (s *stack) top() (ret)
  theory bits
  requires stkInv(s)
  case none: ret == -1
    ensures stk(s) == kNil()
  case some: ret != -1
    ensures khd(stk(s)) == ret && (ret == 0 || ret == 1) && stk(s) != kNil()

func (s *stack) pushObject() (ret)
  theory bits
  returns ret s
  requires stkInv(s)
  modifies MS(s)
  ensures stkInv(s) && stk(s) == kCons(0, old(stk(s)))

func (s *stack) pushArray() (ret)
  theory bits
  returns ret s
  requires stkInv(s)
  modifies MS(s)
  ensures stkInv(s) && stk(s) == kCons(1, old(stk(s)))

pool run
  inv stkInv(s)
  inv $t int :: run(it.S, it.rd, $t, pos(it), stk(s)) == in(run(it.S, it.rd, $t, pos(it), stk(s)))
  inv $t int :: $t <= 3

func skipWithStack(it, top, s) (err)
  pool run
  requires stkInv(s) && 0 <= top && top <= 3
  ends run(it.S, it.rd, top, pos(it), stk(s))
  modifies MS(s)

pool skiparr
  inv $c int :: $c == bat(it.S, pos(it) - 1) && pos(it) > old(pos(it))
  inv valThen(it.S, it.rd, pos(it)-1, 1, kNil()) == in(valThen(it.S, it.rd, pos(it)-1, 1, kNil()))
pool skipobj
  inv $c int :: $c == bat(it.S, pos(it))
  inv member(it.S, it.rd, pos(it), kNil()) == in(member(it.S, it.rd, pos(it), kNil()))

func skipArrayWithStack(it, c) (err)
  pool skiparr
  ends run(it.S, it.rd, 1, pos(it), kNil())
  ok e > old(pos(it))

func skipObjectWithStack(it, c) (err)
  pool skipobj
  ends run(it.S, it.rd, 0, pos(it), kNil())
  ok e > old(pos(it))

func (it *Iterator) SkipNumber() (err)
  props C01 C02 C03 C17
  ends let t := tok(it.S, pos(it)) in t >= blen(it.S) ? -2 : isnum(bat(it.S,t)) ? numRest(it.S, it.rd, bat(it.S,t), t+1) : -1

func (it *Iterator) SkipString() (err)
  props C01 C02 C03 C17
  ends let t := tok(it.S, pos(it)) in t >= blen(it.S) ? -2 : bat(it.S,t) == '"' ? strEnd(it.S, t+1) : -1

func (it *Iterator) SkipArray() (err)
  props C01 C02 C03 C17
  ends let t := tok(it.S, pos(it)) in t >= blen(it.S) ? -2 : bat(it.S,t) == '[' ? run(it.S, it.rd, 1, t+1, kNil()) : -1

func (it *Iterator) SkipObject() (err)
  props C01 C02 C03 C17
  ends let t := tok(it.S, pos(it)) in t >= blen(it.S) ? -2 : bat(it.S,t) == '{' ? run(it.S, it.rd, 0, t+1, kNil()) : -1

func (it *Iterator) Skip() (err)
  props C01 C02 C03 C17
  ends valEnd(it.S, it.rd, pos(it))
  ok e > old(pos(it))
