package io

// Every stream is a tape: flen(s) bytes sbyte(s, m), and a position spos(s).
ghost spos(s) int
ghost flen(s) int
ghost sbyte(s, m) u8
ghost iocalls(s) int
// seof(s): the last read reported the end of the file; sfailed(s): some call ever failed
// with anything else; swell(s): a short write always comes with an error.
ghost seof(s) bool
ghost sfailed(s) bool
ghost swell(s) bool

// Everything ever delivered by a reader, or accepted by a writer, is also a log: byte i
// of tape k is tb(k, i). A reader reads the tape tkey(s), and has delivered rlog(s) bytes
// of it; a writer writes the tape wkey(s), and has accepted wlog(s) bytes.
fn tb(k, i) u8
fn tkey(s) int
fn wkey(s) int
ghost rlog(s) int
ghost wlog(s) int
// the last error of a writer
ghost werr(s) int
// A tape that is read ends at inend(k), with the error inerr(k) if inbad(k), else with EOF.
fn inend(k) int
fn inbad(k) bool
fn inerr(k) int

iface (io.Reader).Read(s, p) (n, err)
  modifies elems(p), spos(s), iocalls(s), seof(s), sfailed(s), rlog(s)
  ensures rlog(s) == old(rlog(s)) + n
  ensures forall(k, 0, n, p[k] == tb(tkey(s), old(rlog(s)) + k))
  ensures 0 <= n && n <= len(p)
  ensures iff(seof(s), err == io.EOF)
  ensures iff(sfailed(s), old(sfailed(s)) || err != nil && err != io.EOF)
  ensures spos(s) == old(spos(s)) + n
  ensures imp(n > 0, spos(s) <= flen(s))
  ensures forall(k, 0, n, p[k] == sbyte(s, old(spos(s)) + k))
  ensures iocalls(s) > old(iocalls(s))

iface (io.Writer).Write(s, p) (n, err)
  modifies sbyte(s), spos(s), flen(s), iocalls(s), sfailed(s), wlog(s), werr(s)
  ensures wlog(s) == old(wlog(s)) + n
  ensures forall(k, 0, len(p), imp(k < n, p[k] == tb(wkey(s), old(wlog(s)) + k)))
  ensures imp(err != nil, is(err, werr(s)))
  ensures 0 <= n && n <= len(p) && imp(n < len(p) && swell(s), err != nil)
  ensures iff(sfailed(s), old(sfailed(s)) || err != nil)
  ensures spos(s) == old(spos(s)) + n
  ensures forall(m, sbyte(s, m) == ite(m >= old(spos(s)) && m < old(spos(s)) + n, p[m - old(spos(s))], old(sbyte(s, m))))
  ensures flen(s) >= old(flen(s))
  ensures iocalls(s) > old(iocalls(s))

iface (io.Seeker).Seek(s, o, w) (n, err)
  modifies spos(s), iocalls(s)
  ensures imp(err == nil, n == spos(s) && n >= 0)
  ensures imp(err != nil, n == 0)
  ensures imp(err == nil && w == 0, n == o)
  ensures imp(err == nil && w == 2, n == flen(s) + o)
  ensures iocalls(s) > old(iocalls(s))

iface (github.com/dargueta/disko/file_systems/common.Truncator).Truncate(s, n) (err)
  modifies sbyte(s), flen(s), iocalls(s)
  ensures imp(err == nil, flen(s) == n)
  ensures forall(m, imp(m < n && m < old(flen(s)), sbyte(s, m) == old(sbyte(s, m))))
  ensures imp(err != nil, flen(s) == old(flen(s)))
  ensures iocalls(s) > old(iocalls(s))


iface (io.ByteReader).ReadByte(s) (b, err)
  modifies rlog(s)
  ensures imp(old(rlog(s)) < inend(tkey(s)), err == nil && b == tb(tkey(s), old(rlog(s))) && rlog(s) == old(rlog(s)) + 1)
  ensures imp(old(rlog(s)) >= inend(tkey(s)), err != nil && rlog(s) == old(rlog(s)) && iff(is(err, io.EOF), !inbad(tkey(s))) && imp(inbad(tkey(s)), is(err, inerr(tkey(s)))))

iface (io.ByteScanner).UnreadByte(s) (err)
  modifies rlog(s)
  ensures imp(err == nil, rlog(s) == old(rlog(s)) - 1)
  ensures imp(old(rlog(s)) > 0, err == nil)

// A buffered reader takes over the reader it reads from.
extern bufio.NewReader(rd) (r)
  modifies spos(rd), rlog(rd), iocalls(rd), seof(rd), sfailed(rd)
  ensures fresh(r) && r != nil && tkey(r) == tkey(rd) && rlog(r) == old(rlog(rd))

extern (*bufio.Reader).ReadByte(s) (b, err)
  modifies rlog(s)
  ensures imp(old(rlog(s)) < inend(tkey(s)), err == nil && b == tb(tkey(s), old(rlog(s))) && rlog(s) == old(rlog(s)) + 1)
  ensures imp(old(rlog(s)) >= inend(tkey(s)), err != nil && rlog(s) == old(rlog(s)) && iff(is(err, io.EOF), !inbad(tkey(s))) && imp(inbad(tkey(s)), is(err, inerr(tkey(s)))))

extern (*bufio.Reader).UnreadByte(s) (err)
  modifies rlog(s)
  ensures imp(err == nil, rlog(s) == old(rlog(s)) - 1)
  ensures imp(old(rlog(s)) > 0, err == nil)

extern bytes.Repeat(b, count) (r)
  requires count >= 0
  requires len(b) * count <= 281474976710656
  ensures fresh(r) && off(r) == 0 && len(r) == len(b) * count
  ensures imp(len(b) == 1, forall(k, 0, len(r), r[k] == b[0]))
  ensures imp(count >= 1, forall(k, 0, len(b), r[k] == b[k]))
  ensures imp(count >= 2, forall(k, 0, len(b), r[len(b) + k] == b[k]))
  ensures imp(count >= 3, forall(k, 0, len(b), r[2 * len(b) + k] == b[k]))

extern bytes.Equal(a, b) (r)
  ensures iff(r, len(a) == len(b) && forall(k, 0, len(a), a[k] == b[k]))

// the upper-case form of a string, and the position of the first byte c, or -1
fn upper(s) str
fn idx(s, c) int
axiom upperTwice {s; upper(upper(s))}: upper(upper(s)) == upper(s)
axiom sameString {a, b; upper(a), upper(b)}: imp(len(a) == len(b) && forall(k, 0, len(a), a[k] == b[k]), a == b)

axiom firstByte {s, c; idx(s, c)}: idx(s, c) >= -1 && idx(s, c) < max(len(s), 1) && imp(idx(s, c) >= 0, len(s) > 0 && s[idx(s, c)] == c) && forall(k, 0, ite(idx(s, c) < 0, len(s), idx(s, c)), s[k] != c)

extern strings.ToUpper(s) (r)
  ensures r == upper(s)

extern strings.SplitN(s, sep, n) (r)
  ensures imp(len(sep) == 1 && n == 2, fresh(r) && off(r) == 0 && len(r) == ite(idx(s, sep[0]) < 0, 1, 2))
  ensures imp(len(sep) == 1 && n == 2 && idx(s, sep[0]) < 0, r[0] == s)
  ensures imp(len(sep) == 1 && n == 2 && idx(s, sep[0]) >= 0, len(r[0]) == idx(s, sep[0]) && forall(k, 0, len(r[0]), r[0][k] == s[k]))
  ensures imp(len(sep) == 1 && n == 2 && idx(s, sep[0]) >= 0, len(r[1]) == len(s) - idx(s, sep[0]) - 1 && forall(k, 0, len(r[1]), r[1][k] == s[idx(s, sep[0]) + 1 + k]))

extern bytes.TrimRight(b, cutset) (r)
  ensures len(r) <= len(b) && imp(len(r) > 0, obj(r) == obj(b) && off(r) == off(b))
  ensures imp(len(cutset) == 1 && cutset[0] < 128, imp(len(r) > 0, b[len(r) - 1] != cutset[0]) && forall(k, len(r), len(b), b[k] == cutset[0]))

// s without trailing bytes of a one-byte cutset
extern strings.TrimRight(s, cutset) (r)
  ensures len(r) <= len(s) && forall(k, 0, len(r), r[k] == s[k])
  ensures imp(len(cutset) == 1 && cutset[0] < 128, imp(len(r) > 0, s[len(r) - 1] != cutset[0]) && forall(k, len(r), len(s), s[k] == cutset[0]))

extern strings.Cut(s, sep) (before, after, found)
  ensures imp(len(sep) == 1, iff(found, idx(s, sep[0]) >= 0))
  ensures imp(len(sep) == 1 && idx(s, sep[0]) < 0, before == s && len(after) == 0)
  ensures imp(len(sep) == 1 && idx(s, sep[0]) >= 0, len(before) == idx(s, sep[0]) && forall(k, 0, len(before), before[k] == s[k]))
  ensures imp(len(sep) == 1 && idx(s, sep[0]) >= 0, len(after) == len(s) - idx(s, sep[0]) - 1 && forall(k, 0, len(after), after[k] == s[idx(s, sep[0]) + 1 + k]))
extern strings.Index(s, sub) (n)
  ensures n >= -1 && imp(n >= 0, n + len(sub) <= len(s))
  ensures imp(len(sub) == 1, n == idx(s, sub[0]))
extern strings.IndexByte(s, c) (n)
  ensures n == idx(s, c)
extern strings.IndexRune(s, c) (n)
  ensures n >= -1 && n < max(len(s), 1) && imp(c >= 0 && c < 128, n == idx(s, c))
extern strings.Contains(s, sub) (r)
  ensures imp(len(sub) == 1, iff(r, idx(s, sub[0]) >= 0))
extern strings.ContainsRune(s, c) (r)
  ensures imp(c >= 0 && c < 128, iff(r, idx(s, c) >= 0))
extern bytes.TrimLeft(b, cutset) (r)
  ensures len(r) <= len(b) && imp(len(r) > 0, obj(r) == obj(b) && off(r) == off(b) + len(b) - len(r))
  ensures imp(len(cutset) == 1 && cutset[0] < 128, imp(len(r) > 0, b[len(b) - len(r)] != cutset[0]) && forall(k, 0, len(b) - len(r), b[k] == cutset[0]))
