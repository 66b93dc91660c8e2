// ---- pooled objects: what Get may rely on and Put must establish
def pool_Iterator(it) := inv(it) && clean(it) && it.reader == 0 && it.S == bempty() && it.rd == 0
def rep_Iterator(it) := rep(it)
def pool_Streamer(s) := s.writer == 0 && s.Error == 0 && !s.poped && len(s.buffer) == 0 && s.Context == 0

func poolnew:Iterator() (res)
  props C15 C17 C03
  flag concrete poolnew

func poolnew:Streamer() (res)
  props C15
  flag poolnew

func (p *iteratorPool) borrowIterator() (it)
  props C15
  ensures pool_Iterator(it)

func (p *iteratorPool) returnIterator(it)
  props C15
  modifies R(it)

func (decCfg *DecoderConfig) NewIterator() (it)
  props C15
  ensures pool_Iterator(it) && it.cfg == decCfg && it.useNumber == decCfg.useNumber && it.disallowUnknownFields == decCfg.disallowUnknownFields

func (decCfg *DecoderConfig) returnIterator(it)
  props C15
  modifies R(it), it.cfg

func NewIterator() (it)
  props C15
  requires DefaultDecoderConfig != nil
  ensures pool_Iterator(it) && it.cfg == DefaultDecoderConfig

func (p *streamerPool) borrowStreamer() (s)
  props C15
  ensures pool_Streamer(s)

func (p *streamerPool) returnStreamer(s)
  props C15
  modifies W(s), s.writer, s.Context

func (encCfg *EncoderConfig) NewStreamer() (s)
  props C15 C07 C14
  ensures pool_Streamer(s) && s.cfg == encCfg && s.escapeHTML == encCfg.escapeHTML && (s.escapeHTML ? s.safeSet == 2 : s.safeSet == 1)

func (encCfg *EncoderConfig) returnStreamer(s)
  props C15
  modifies W(s), s.writer, s.Context, s.cfg

func (s *Streamer) Reset(w)
  props C15 C09
  modifies W(s), s.writer, s.Context
  ensures s.writer == w && s.Error == 0 && !s.poped && len(s.buffer) == 0 && s.Context == 0
