package github.com/dargueta/disko/utilities/compression

// a reader whose tape is finite
def SRC(s) = s != nil && rlog(s) >= 0 && inend(tkey(s)) >= rlog(s) && inend(tkey(s)) <= 281474976710656
def DST(s) = s != nil && wlog(s) >= 0 && wlog(s) <= 9007199254740992 && swell(s)

// The meaning of RLE8. A decoder that has read the bytes b..i-1 of tape k has produced
// dout(k,b,i) bytes; the j-th one is dbyte(k,b,j). Its state is dlast(k,b,i): -1 if the next
// byte starts a run, x if the last byte was x, and 256+x if a repeat count for x comes next.
fn dlast(k, b, i) int
fn dout(k, b, i) int
fn dbyte(k, b, j) u8
axiom d_start [dlast] {k, b; dlast(k, b, b)}: dlast(k, b, b) == 0 - 1
axiom d_start2 [dout] {k, b; dout(k, b, b)}: dout(k, b, b) == 0
axiom d_count [dlast] {k, b, i; dlast(k, b, i), tb(k, i)}: imp(i >= b && dlast(k, b, i) >= 256, dlast(k, b, i + 1) == 0 - 1 && dout(k, b, i + 1) == dout(k, b, i) + tb(k, i))
axiom d_run [dlast dbyte] {k, b, i, j; dlast(k, b, i), tb(k, i), dbyte(k, b, j)}: imp(i >= b && dlast(k, b, i) >= 256 && j >= dout(k, b, i) && j < dout(k, b, i) + tb(k, i), dbyte(k, b, j) == dlast(k, b, i) - 256)
axiom d_second [dlast] {k, b, i; dlast(k, b, i), tb(k, i)}: imp(i >= b && dlast(k, b, i) == tb(k, i), dlast(k, b, i + 1) == 256 + tb(k, i) && dout(k, b, i + 1) == dout(k, b, i) + 1 && dbyte(k, b, dout(k, b, i)) == tb(k, i))
axiom d_first [dlast] {k, b, i; dlast(k, b, i), tb(k, i)}: imp(i >= b && dlast(k, b, i) < 256 && dlast(k, b, i) != tb(k, i), dlast(k, b, i + 1) == tb(k, i) && dout(k, b, i + 1) == dout(k, b, i) + 1 && dbyte(k, b, dout(k, b, i)) == tb(k, i))

func (grouper RLEGrouper) GetNextRun() (run, err)
  props C11 C13 C14 C15
  requires SRC(grouper.rd)
  modifies rlog(grouper.rd)
  ensures SRC(grouper.rd)
  ensures advance: run.RunLength >= 0 && imp(run.RunLength > 0, rlog(grouper.rd) == old(rlog(grouper.rd)) + run.RunLength)
  ensures same: forall(k, 0, run.RunLength, tb(tkey(grouper.rd), old(rlog(grouper.rd)) + k) == run.Byte)
  ensures maximal: imp(run.RunLength > 0, rlog(grouper.rd) == inend(tkey(grouper.rd)) || tb(tkey(grouper.rd), rlog(grouper.rd)) != run.Byte)
  ensures some: imp(err == nil, run.RunLength >= 1)
  ensures ends: imp(is(err, io.EOF), rlog(grouper.rd) == inend(tkey(grouper.rd)) && !inbad(tkey(grouper.rd)) && imp(run.RunLength == 0, old(rlog(grouper.rd)) == inend(tkey(grouper.rd))))
  ensures fails: imp(err != nil && !is(err, io.EOF), run.RunLength == 0 && rlog(grouper.rd) == inend(tkey(grouper.rd)) && inbad(tkey(grouper.rd)) && is(err, inerr(tkey(grouper.rd))))
  inv 1 <= $n
  inv rlog(grouper.rd) == old(rlog(grouper.rd)) + $n
  inv SRC(grouper.rd)
  inv forall(k, 0, $n, tb(tkey(grouper.rd), old(rlog(grouper.rd)) + k) == tb(tkey(grouper.rd), old(rlog(grouper.rd))))

def IN0(s) = old(rlog(s))
def OUT0(s) = old(wlog(s))
// so far the output tape decodes to the first n bytes of the input tape
def ENCODES(i, o, n) = dlast(wkey(o), OUT0(o), wlog(o)) < 256 && dout(wkey(o), OUT0(o), wlog(o)) == n && forall(k, 0, n, dbyte(wkey(o), OUT0(o), k) == tb(tkey(i), IN0(i) + k))

func CompressRLE8(input, output) (n, err)
  props C11 C15
  requires SRC(input) && DST(output) && input != output
  modifies spos(input), rlog(input), iocalls(input), seof(input), sfailed(input), sbyte(output), spos(output), flen(output), iocalls(output), sfailed(output), wlog(output), werr(output)
  ensures count: imp(err == nil, n == wlog(output) - old(wlog(output)))
  ensures encodes: imp(err == nil, ENCODES(input, output, inend(tkey(input)) - old(rlog(input))))
  ensures badinput: imp(inbad(tkey(input)), err != nil)
  ensures writeerr: imp(err == nil, iff(sfailed(output), old(sfailed(output))))
  ensures failure: imp(err != nil, inbad(tkey(input)) && is(err, inerr(tkey(input))) || is(err, werr(output)) && sfailed(output))
  hole SRC($p.rd) && rlog($p.rd) >= old(rlog(input)) && tkey($p.rd) == tkey(input)
  inv tkey($p.rd) == tkey(input)
  inv SRC($p.rd) && rlog($p.rd) >= IN0(input)
  inv $n == wlog(output) - old(wlog(output))
  inv wlog(output) >= OUT0(output)
  inv iff(sfailed(output), old(sfailed(output)))
  inv wlog(output) - OUT0(output) <= 2 * (rlog($p.rd) - IN0(input))
  inv ENCODES(input, output, rlog($p.rd) - IN0(input))
  inv dlast(wkey(output), OUT0(output), wlog(output)) == 0 - 1 || rlog($p.rd) == inend(tkey(input)) || tb(tkey(input), rlog($p.rd)) != dlast(wkey(output), OUT0(output), wlog(output))
  inv 0 <= $v
  inv wlog(output) - OUT0(output) <= 2 * (rlog($p.rd) - IN0(input) - $v)
  inv ENCODES(input, output, rlog($p.rd) - IN0(input) - $v)
  inv imp($v > 0, dlast(wkey(output), OUT0(output), wlog(output)) != tb(tkey(input), rlog($p.rd) - $v))
  inv imp($v == 0, dlast(wkey(output), OUT0(output), wlog(output)) == 0 - 1 || rlog($p.rd) == inend(tkey(input)))
  inv $n == wlog(output) - entry(wlog(output))

func DecompressRLE8(input, output) (n, err)
  props C11 C12 C15
  requires SRC(input) && DST(output) && input != output
  modifies spos(input), rlog(input), iocalls(input), seof(input), sfailed(input), sbyte(output), spos(output), flen(output), iocalls(output), sfailed(output), wlog(output), werr(output)
  ensures count: imp(err == nil, n == wlog(output) - old(wlog(output)))
  ensures decodes: imp(err == nil, !inbad(tkey(input)) && dlast(tkey(input), IN0(input), inend(tkey(input))) < 256 && n == dout(tkey(input), IN0(input), inend(tkey(input))) && forall(k, 0, n, tb(wkey(output), OUT0(output) + k) == dbyte(tkey(input), IN0(input), k)))
  ensures badinput: imp(inbad(tkey(input)) && !sfailed(output), is(err, inerr(tkey(input))))
  ensures truncated: imp(!inbad(tkey(input)) && dlast(tkey(input), IN0(input), inend(tkey(input))) >= 256 && !sfailed(output), is(err, io.ErrUnexpectedEOF))
  ensures writeerr: imp(sfailed(output) && !old(sfailed(output)), err != nil && is(err, werr(output)))
  ensures accepted: imp(!inbad(tkey(input)) && dlast(tkey(input), IN0(input), inend(tkey(input))) < 256 && !sfailed(output), err == nil)
  hole SRC($p) && rlog($p) >= old(rlog(input)) && tkey($p) == tkey(input)
  inv tkey($p) == tkey(input) && $p != nil
  inv SRC($p) && rlog($p) >= IN0(input)
  inv $n == wlog(output) - old(wlog(output))
  inv wlog(output) - OUT0(output) <= 256 * (rlog($p) - IN0(input)) && wlog(output) >= OUT0(output)
  inv wlog(output) - OUT0(output) == dout(tkey(input), IN0(input), rlog($p))
  inv iff(sfailed(output), old(sfailed(output)))
  inv $v == dlast(tkey(input), IN0(input), rlog($p)) && $v < 256
  inv forall(k, 0, wlog(output) - OUT0(output), tb(wkey(output), OUT0(output) + k) == dbyte(tkey(input), IN0(input), k))

// The same for recursive RLE. In state 256+x a part of the repeat count for x comes next;
// the count goes on for as long as its parts are 255.
fn rlast(k, b, i) int
fn rout(k, b, i) int
fn rbyte(k, b, j) u8
axiom r_start [rlast] {k, b; rlast(k, b, b)}: rlast(k, b, b) == 0 - 1
axiom r_start2 [rout] {k, b; rout(k, b, b)}: rout(k, b, b) == 0
axiom r_count [rlast] {k, b, i; rlast(k, b, i), tb(k, i)}: imp(i >= b && rlast(k, b, i) >= 256, rlast(k, b, i + 1) == ite(tb(k, i) == 255, rlast(k, b, i), 0 - 1) && rout(k, b, i + 1) == rout(k, b, i) + tb(k, i))
axiom r_run [rlast rbyte] {k, b, i, j; rlast(k, b, i), tb(k, i), rbyte(k, b, j)}: imp(i >= b && rlast(k, b, i) >= 256 && j >= rout(k, b, i) && j < rout(k, b, i) + tb(k, i), rbyte(k, b, j) == rlast(k, b, i) - 256)
axiom r_second [rlast] {k, b, i; rlast(k, b, i), tb(k, i)}: imp(i >= b && rlast(k, b, i) == tb(k, i), rlast(k, b, i + 1) == 256 + tb(k, i) && rout(k, b, i + 1) == rout(k, b, i) + 1 && rbyte(k, b, rout(k, b, i)) == tb(k, i))
axiom r_first [rlast] {k, b, i; rlast(k, b, i), tb(k, i)}: imp(i >= b && rlast(k, b, i) < 256 && rlast(k, b, i) != tb(k, i), rlast(k, b, i + 1) == tb(k, i) && rout(k, b, i + 1) == rout(k, b, i) + 1 && rbyte(k, b, rout(k, b, i)) == tb(k, i))

// a block of 255s in a repeat count; proved by induction
def ALL255(k, b, i, e) = imp(b <= i && i <= e && rlast(k, b, i) >= 256 && forall(m, i, e, tb(k, m) == 255), rlast(k, b, e) == rlast(k, b, i) && rout(k, b, e) == rout(k, b, i) + 255 * (e - i) && forall(j, rout(k, b, i), rout(k, b, e), rbyte(k, b, j) == rlast(k, b, i) - 256))
axiom r_block [rlast] {k, b, i, e; rlast(k, b, i), rlast(k, b, e)} by verifAll255: ALL255(k, b, i, e)

func verifAll255(k, b, i, e) ()
  props C13
  lemma
  ensures ALL255(k, b, i, e)
  inv i <= $v && imp(i <= e, $v <= e)
  inv imp(b <= i && rlast(k, b, i) >= 256 && forall(m, i, e, tb(k, m) == 255), rlast(k, b, $v) == rlast(k, b, i) && rout(k, b, $v) == rout(k, b, i) + 255 * ($v - i) && forall(j, rout(k, b, i), rout(k, b, $v), rbyte(k, b, j) == rlast(k, b, i) - 256))

def RENCODES(i, o, n) = rlast(wkey(o), OUT0(o), wlog(o)) < 256 && rout(wkey(o), OUT0(o), wlog(o)) == n && forall(k, 0, n, rbyte(wkey(o), OUT0(o), k) == tb(tkey(i), IN0(i) + k))

func CompressRLERecursive(input, output) (n, err)
  props C13
  requires SRC(input) && DST(output) && input != output
  modifies spos(input), rlog(input), iocalls(input), seof(input), sfailed(input), sbyte(output), spos(output), flen(output), iocalls(output), sfailed(output), wlog(output), werr(output)
  ensures count: imp(err == nil, n == wlog(output) - old(wlog(output)))
  ensures encodes: imp(err == nil, RENCODES(input, output, inend(tkey(input)) - old(rlog(input))))
  ensures badinput: imp(inbad(tkey(input)), err != nil)
  ensures writeerr: imp(err == nil, iff(sfailed(output), old(sfailed(output))))
  ensures failure: imp(err != nil, inbad(tkey(input)) && is(err, inerr(tkey(input))) || is(err, werr(output)) && sfailed(output))
  hole SRC($p.rd) && rlog($p.rd) >= old(rlog(input)) && tkey($p.rd) == tkey(input)
  inv tkey($p.rd) == tkey(input)
  inv SRC($p.rd) && rlog($p.rd) >= IN0(input)
  inv $n == wlog(output) - old(wlog(output))
  inv wlog(output) >= OUT0(output)
  inv iff(sfailed(output), old(sfailed(output)))
  inv wlog(output) - OUT0(output) <= 2 * (rlog($p.rd) - IN0(input))
  inv RENCODES(input, output, rlog($p.rd) - IN0(input))
  inv rlast(wkey(output), OUT0(output), wlog(output)) == 0 - 1 || rlog($p.rd) == inend(tkey(input)) || tb(tkey(input), rlog($p.rd)) != rlast(wkey(output), OUT0(output), wlog(output))

func DecompressRLERecursive(input, output) (n, err)
  props C12 C13
  requires SRC(input) && DST(output) && input != output
  modifies spos(input), rlog(input), iocalls(input), seof(input), sfailed(input), sbyte(output), spos(output), flen(output), iocalls(output), sfailed(output), wlog(output), werr(output)
  ensures count: imp(err == nil, n == wlog(output) - old(wlog(output)))
  ensures decodes: imp(err == nil, !inbad(tkey(input)) && rlast(tkey(input), IN0(input), inend(tkey(input))) < 256 && n == rout(tkey(input), IN0(input), inend(tkey(input))) && forall(k, 0, n, tb(wkey(output), OUT0(output) + k) == rbyte(tkey(input), IN0(input), k)))
  ensures badinput: imp(inbad(tkey(input)) && !sfailed(output), is(err, inerr(tkey(input))))
  ensures truncated: imp(!inbad(tkey(input)) && rlast(tkey(input), IN0(input), inend(tkey(input))) >= 256 && !sfailed(output), is(err, io.ErrUnexpectedEOF))
  ensures writeerr: imp(sfailed(output) && !old(sfailed(output)), err != nil && is(err, werr(output)))
  ensures accepted: imp(!inbad(tkey(input)) && rlast(tkey(input), IN0(input), inend(tkey(input))) < 256 && !sfailed(output), err == nil)
  hole SRC($p) && rlog($p) >= old(rlog(input)) && tkey($p) == tkey(input)
  inv tkey($p) == tkey(input) && $p != nil
  inv SRC($p) && rlog($p) >= IN0(input)
  inv $n == wlog(output) - old(wlog(output))
  inv wlog(output) - OUT0(output) <= 256 * (rlog($p) - IN0(input)) && wlog(output) >= OUT0(output)
  inv wlog(output) - OUT0(output) == rout(tkey(input), IN0(input), rlog($p))
  inv iff(sfailed(output), old(sfailed(output)))
  inv $v == rlast(tkey(input), IN0(input), rlog($p)) && $v < 256
  inv $n + 256 == rlast(tkey(input), IN0(input), rlog($p)) && $n < 256
  inv forall(k, 0, wlog(output) - OUT0(output), tb(wkey(output), OUT0(output) + k) == rbyte(tkey(input), IN0(input), k))

def PIPED(i, w, r, o) = SRC(i) && DST(w) && SRC(r) && DST(o) && i != w && i != r && i != o && w != r && w != o && r != o && tkey(r) == wkey(w) && rlog(r) == wlog(w)
def COPIED(i, o) = wlog(o) - OUT0(o) == inend(tkey(i)) - IN0(i) && forall(k, 0, wlog(o) - OUT0(o), tb(wkey(o), OUT0(o) + k) == tb(tkey(i), IN0(i) + k))

func verifRLE8RoundTrip(input, w, r, output) (n1, err1, n2, err2)
  props C11
  lemma
  requires PIPED(input, w, r, output)
  modifies spos(input), rlog(input), iocalls(input), seof(input), sfailed(input), sbyte(w), spos(w), flen(w), iocalls(w), sfailed(w), wlog(w), werr(w)
  modifies spos(r), rlog(r), iocalls(r), seof(r), sfailed(r), sbyte(output), spos(output), flen(output), iocalls(output), sfailed(output), wlog(output), werr(output)
  ensures roundtrip: imp(err1 == nil && err2 == nil && inend(tkey(r)) == wlog(w), COPIED(input, output))
  ensures decodable: imp(err1 == nil && inend(tkey(r)) == wlog(w) && !inbad(tkey(r)) && !sfailed(output), err2 == nil)

func verifRLERecursiveRoundTrip(input, w, r, output) (n1, err1, n2, err2)
  props C13
  lemma
  requires PIPED(input, w, r, output)
  modifies spos(input), rlog(input), iocalls(input), seof(input), sfailed(input), sbyte(w), spos(w), flen(w), iocalls(w), sfailed(w), wlog(w), werr(w)
  modifies spos(r), rlog(r), iocalls(r), seof(r), sfailed(r), sbyte(output), spos(output), flen(output), iocalls(output), sfailed(output), wlog(output), werr(output)
  ensures roundtrip: imp(err1 == nil && err2 == nil && inend(tkey(r)) == wlog(w), COPIED(input, output))
  ensures decodable: imp(err1 == nil && inend(tkey(r)) == wlog(w) && !inbad(tkey(r)) && !sfailed(output), err2 == nil)

// ---- images: RLE8 inside gzip ----
// gzip is a dependency. gz(k, a, z, t, n): the bytes a..z-1 of tape k are a gzip stream of
// the first n bytes of tape t. A gzip writer calls nothing but Write on the writer below,
// which is a countingWriter here; whatever it writes is accounted for when it's closed.
fn gz(k, a, z, t, n) bool
fn gzw(z) int
def CW(z) = as(gzw(z), "*github.com/dargueta/disko/utilities/compression.countingWriter")

extern compress/gzip.NewWriterLevel(w, level) (z, err)
  ensures imp(level >= 0 - 2 && level <= 9, err == nil)
  ensures imp(err == nil, fresh(z) && z != nil && gzw(z) == w && wlog(z) == 0 && swell(z) && !sfailed(z))

extern (*compress/gzip.Writer).Close(z) (err)
  modifies CW(z).BytesWritten, sbyte(CW(z).Writer), spos(CW(z).Writer), flen(CW(z).Writer), iocalls(CW(z).Writer), sfailed(CW(z).Writer), wlog(CW(z).Writer), werr(CW(z).Writer)
  ensures imp(err == nil, CW(z).BytesWritten - old(CW(z).BytesWritten) == wlog(CW(z).Writer) - old(wlog(CW(z).Writer)))
  ensures imp(err == nil, iff(sfailed(CW(z).Writer), old(sfailed(CW(z).Writer))))
  ensures imp(err != nil, sfailed(CW(z).Writer) && is(err, werr(CW(z).Writer)) || sfailed(z) && is(err, werr(z)))
  ensures imp(err == nil, gz(wkey(CW(z).Writer), old(wlog(CW(z).Writer)), wlog(CW(z).Writer), wkey(z), wlog(z)))

// Reading a gzip stream gives what it is a stream of; a stream that's not valid or cut, or
// an input that fails, shows as a reader that can't be made or that fails.
extern compress/gzip.NewReader(rd) (z, err)
  modifies spos(rd), rlog(rd), iocalls(rd), seof(rd), sfailed(rd)
  ensures imp(err == nil, fresh(z) && z != nil && rlog(z) == 0 && inend(tkey(z)) >= 0 && inend(tkey(z)) <= 281474976710656)
  ensures imp(err != nil, imp(inbad(tkey(rd)), is(err, inerr(tkey(rd)))))
  ensures imp(err == nil && inbad(tkey(rd)), inbad(tkey(z)) && inerr(tkey(z)) == inerr(tkey(rd)))
  ensures imp(!inbad(tkey(rd)), iff(err == nil && !inbad(tkey(z)), gz(tkey(rd), old(rlog(rd)), inend(tkey(rd)), tkey(z), inend(tkey(z)))))

extern (*compress/gzip.Reader).Close(z) (err)

// the format is unambiguous
axiom gz_same [gz] {k, a, z, t, n, u, m; gz(k, a, z, t, n), gz(k, a, z, u, m)}: imp(gz(k, a, z, t, n) && gz(k, a, z, u, m), n == m && forall(j, 0, n, tb(t, j) == tb(u, j)))

func (w *countingWriter) Write(b) (n, err)
  props C15
  requires w.Writer != nil && swell(w.Writer) && w.BytesWritten >= 0 && w.BytesWritten <= 1152921504606846976
  modifies w.BytesWritten, sbyte(w.Writer), spos(w.Writer), flen(w.Writer), iocalls(w.Writer), sfailed(w.Writer), wlog(w.Writer), werr(w.Writer)
  ensures passed: wlog(w.Writer) == old(wlog(w.Writer)) + n && 0 <= n && n <= len(b) && forall(k, 0, len(b), imp(k < n, b[k] == tb(wkey(w.Writer), old(wlog(w.Writer)) + k)))
  ensures counted: imp(err == nil, n == len(b) && w.BytesWritten == old(w.BytesWritten) + n)
  ensures failure: iff(sfailed(w.Writer), old(sfailed(w.Writer)) || err != nil) && imp(err != nil, is(err, werr(w.Writer)))
  ensures target: w.Writer == old(w.Writer)

// what was written is a gzip stream of an RLE8 encoding of the input
func CompressImage(input, output) (n, err)
  props C15
  requires SRC(input) && DST(output) && input != output
  modifies spos(input), rlog(input), iocalls(input), seof(input), sfailed(input), sbyte(output), spos(output), flen(output), iocalls(output), sfailed(output), wlog(output), werr(output)
  ensures count: imp(err == nil, n == wlog(output) - old(wlog(output)))
  ensures encodes: imp(err == nil, exists(t, exists(m, gz(wkey(output), OUT0(output), wlog(output), t, m) && dlast(t, 0, m) < 256 && dout(t, 0, m) == inend(tkey(input)) - IN0(input) && forall(k, 0, dout(t, 0, m), dbyte(t, 0, k) == tb(tkey(input), IN0(input) + k)))))
  ensures badinput: imp(inbad(tkey(input)), err != nil)
  ensures writeerr: imp(err == nil, iff(sfailed(output), old(sfailed(output))))

func DecompressImage(input, output) (n, err)
  props C15
  requires SRC(input) && DST(output) && input != output
  modifies spos(input), rlog(input), iocalls(input), seof(input), sfailed(input), sbyte(output), spos(output), flen(output), iocalls(output), sfailed(output), wlog(output), werr(output)
  ensures count: imp(err == nil, n == wlog(output) - old(wlog(output)))
  ensures badinput: imp(inbad(tkey(input)), err != nil && imp(!sfailed(output), is(err, inerr(tkey(input)))))
  ensures writeerr: imp(sfailed(output) && !old(sfailed(output)), err != nil && is(err, werr(output)))
  ensures decodes: imp(err == nil, exists(t, exists(m, gz(tkey(input), IN0(input), inend(tkey(input)), t, m) && dlast(t, 0, m) < 256 && n == dout(t, 0, m) && forall(k, 0, n, tb(wkey(output), OUT0(output) + k) == dbyte(t, 0, k)))))

// a bufio.Writer on an empty bytes.Buffer
fn bufw(z) int
ghost blen(b) int

extern bufio.NewWriter(w) (z)
  ensures fresh(z) && z != nil && bufw(z) == w && wkey(z) == wkey(w) && wlog(z) == 0 && swell(z) && !sfailed(z)

extern (*bufio.Writer).Flush(z) (err)
  modifies blen(bufw(z))
  ensures imp(!sfailed(z), err == nil && blen(bufw(z)) == wlog(z))

extern (*bytes.Buffer).Len(b) (n)
  ensures n == blen(b) && n >= 0 && n <= 281474976710656

extern (*bytes.Buffer).Bytes(b) (r)
  ensures len(r) == blen(b) && forall(k, 0, len(r), r[k] == tb(wkey(b), k))

func DecompressImageToBytes(input) (r, err)
  props C15
  requires SRC(input)
  modifies spos(input), rlog(input), iocalls(input), seof(input), sfailed(input)
  ensures failed: imp(err != nil, r == nil)
  ensures badinput: imp(inbad(tkey(input)), err != nil)
  ensures decodes: imp(err == nil, exists(t, exists(m, gz(tkey(input), IN0(input), inend(tkey(input)), t, m) && dlast(t, 0, m) < 256 && len(r) == dout(t, 0, m) && forall(k, 0, len(r), r[k] == dbyte(t, 0, k)))))
