// ---- streamer: each call appends its text after the separator due, or nothing once an error is recorded
def sep(s) := s.poped ? snoc(bytes(s.buffer), ',') : bytes(s.buffer)
def same(s) := bytes(s.buffer) == old(bytes(s.buffer)) && s.poped == old(s.poped) && s.Error == old(s.Error)
def wrote(s, t, pop) := old(s.Error) == 0 ? bytes(s.buffer) == t && s.poped == pop && s.Error == 0 : same(s)
modset W(s) := s.buffer, s.poped, s.Error
def q(B) := snoc(B, '"')

func (s *Streamer) onVal()
  modifies s.buffer, s.poped
  ensures bytes(s.buffer) == old(sep(s)) && s.poped
func (s *Streamer) null()
  modifies s.buffer, s.poped
  ensures bytes(s.buffer) == appR(old(sep(s)), bytes("null"), 0, 4) && s.poped
func (s *Streamer) Raw(raw) (ret)
  props C08
  returns ret s
  modifies W(s)
  ensures wrote(s, appR(old(sep(s)), old(bytes(raw)), 0, len(raw)), true)
func (s *Streamer) RawString(raw) (ret)
  props C08
  returns ret s
  modifies W(s)
  ensures wrote(s, appR(old(sep(s)), old(bytes(raw)), 0, len(raw)), true)
func (s *Streamer) RawField(raw) (ret)
  props C08
  returns ret s
  modifies W(s)
  ensures wrote(s, snoc(appR(old(sep(s)), old(bytes(raw)), 0, len(raw)), ':'), false)
func (s *Streamer) Null() (ret)
  props C08
  returns ret s
  modifies W(s)
  ensures wrote(s, appR(old(sep(s)), bytes("null"), 0, 4), true)
func (s *Streamer) True() (ret)
  props C08
  returns ret s
  modifies W(s)
  ensures wrote(s, appR(old(sep(s)), bytes("true"), 0, 4), true)
func (s *Streamer) False() (ret)
  props C08
  returns ret s
  modifies W(s)
  ensures wrote(s, appR(old(sep(s)), bytes("false"), 0, 5), true)
func (s *Streamer) Bool(b) (ret)
  props C08
  returns ret s
  modifies W(s)
  ensures wrote(s, b ? appR(old(sep(s)), bytes("true"), 0, 4) : appR(old(sep(s)), bytes("false"), 0, 5), true)
func (s *Streamer) ObjectStart() (ret)
  props C08
  returns ret s
  modifies W(s)
  ensures wrote(s, snoc(old(sep(s)), '{'), false)
func (s *Streamer) ArrayStart() (ret)
  props C08
  returns ret s
  modifies W(s)
  ensures wrote(s, snoc(old(sep(s)), '['), false)
func (s *Streamer) ObjectEnd() (ret)
  props C08
  returns ret s
  modifies W(s)
  ensures wrote(s, snoc(old(bytes(s.buffer)), '}'), true)
func (s *Streamer) ArrayEnd() (ret)
  props C08
  returns ret s
  modifies W(s)
  ensures wrote(s, snoc(old(bytes(s.buffer)), ']'), true)
func (s *Streamer) Int8(v) (ret)
  props C05 C08
  returns ret s
  modifies W(s)
  ensures wrote(s, sdecK(old(sep(s)), v), true)
func (s *Streamer) quotedInt8(v) (ret)
  props C05
  returns ret s
  modifies W(s)
  ensures wrote(s, q(sdecK(q(old(sep(s))), v)), true)
func (s *Streamer) Int16(v) (ret)
  props C05 C08
  returns ret s
  modifies W(s)
  ensures wrote(s, sdecK(old(sep(s)), v), true)
func (s *Streamer) quotedInt16(v) (ret)
  props C05
  returns ret s
  modifies W(s)
  ensures wrote(s, q(sdecK(q(old(sep(s))), v)), true)
func (s *Streamer) Int32(v) (ret)
  props C05 C08
  returns ret s
  modifies W(s)
  ensures wrote(s, sdecK(old(sep(s)), v), true)
func (s *Streamer) quotedInt32(v) (ret)
  props C05
  returns ret s
  modifies W(s)
  ensures wrote(s, q(sdecK(q(old(sep(s))), v)), true)
func (s *Streamer) Int64(v) (ret)
  props C05 C08
  returns ret s
  modifies W(s)
  ensures wrote(s, sdecK(old(sep(s)), v), true)
func (s *Streamer) quotedInt64(v) (ret)
  props C05
  returns ret s
  modifies W(s)
  ensures wrote(s, q(sdecK(q(old(sep(s))), v)), true)
func (s *Streamer) Int(v) (ret)
  props C05 C08
  returns ret s
  modifies W(s)
  ensures wrote(s, sdecK(old(sep(s)), v), true)
func (s *Streamer) Uint8(v) (ret)
  props C05 C08
  returns ret s
  modifies W(s)
  ensures wrote(s, decK(old(sep(s)), v), true)
func (s *Streamer) quotedUint8(v) (ret)
  props C05
  returns ret s
  modifies W(s)
  ensures wrote(s, q(decK(q(old(sep(s))), v)), true)
func (s *Streamer) Uint16(v) (ret)
  props C05 C08
  returns ret s
  modifies W(s)
  ensures wrote(s, decK(old(sep(s)), v), true)
func (s *Streamer) quotedUint16(v) (ret)
  props C05
  returns ret s
  modifies W(s)
  ensures wrote(s, q(decK(q(old(sep(s))), v)), true)
func (s *Streamer) Uint32(v) (ret)
  props C05 C08
  returns ret s
  modifies W(s)
  ensures wrote(s, decK(old(sep(s)), v), true)
func (s *Streamer) quotedUint32(v) (ret)
  props C05
  returns ret s
  modifies W(s)
  ensures wrote(s, q(decK(q(old(sep(s))), v)), true)
func (s *Streamer) Uint64(v) (ret)
  props C05 C08
  returns ret s
  modifies W(s)
  ensures wrote(s, decK(old(sep(s)), v), true)
func (s *Streamer) quotedUint64(v) (ret)
  props C05
  returns ret s
  modifies W(s)
  ensures wrote(s, q(decK(q(old(sep(s))), v)), true)
func (s *Streamer) Uint(v) (ret)
  props C05 C08
  returns ret s
  modifies W(s)
  ensures wrote(s, decK(old(sep(s)), v), true)
def tabs(s) := s.escapeHTML ? s.safeSet == 2 : s.safeSet == 1
func (s *Streamer) String(str) (ret)
  props C07 C08
  returns ret s
  requires tabs(s)
  modifies W(s)
  ensures wrote(s, esc(q(old(sep(s))), src(str), lo(str), hi(str), s.safeSet), true)
func (s *Streamer) Field(field) (ret)
  props C07 C08
  returns ret s
  requires tabs(s)
  modifies W(s)
  ensures wrote(s, snoc(esc(q(old(sep(s))), src(field), lo(field), hi(field), s.safeSet), ':'), false)
func (s *Streamer) EscapeHTML(on)
  props C07 C15
  modifies s.escapeHTML, s.safeSet
  ensures s.escapeHTML == on && s.safeSet == (on ? 2 : 1)
