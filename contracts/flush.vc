// ---- delivery to the writer. out: bytes the writer has accepted so far.
ghost Streamer.out Bs

iface io.Writer.Write(p) (n, err)
  modifies s.out
  ensures 0 <= n && n <= len(p) && (n < len(p) ==> err != 0)
  ensures s.out == appR(old(s.out), bytes(p), 0, n)

// everything emitted so far: accepted by the writer, then still buffered
def flow(s) := appR(s.out, src(s.buffer), lo(s.buffer), hi(s.buffer))

func (s *Streamer) Flush() (err)
  props C09
  modifies s.buffer, s.out
  ensures flow(s) == old(flow(s))
  ensures old(s.Error) != 0 ==> err == s.Error && s.out == old(s.out)
  ensures err == 0 ==> len(s.buffer) == 0 && s.writer != 0
  ensures s.writer == 0 ==> err != 0 && s.out == old(s.out)
