package github.com/dargueta/disko/file_systems/common/basicstream

def D(s) = s.data
// a well-formed stream on a well-formed cache
def FILE(s) = s.data != nil && INV(s.data) && 0 <= s.size && s.size <= SZ(s.data) && s.position >= 0
// byte m of the file
def AT(s, m) = VIEW(s.data, m)
def RD(s) = s.ioFlags % 4 == 0 || s.ioFlags % 4 == 2
def WR(s) = s.ioFlags % 4 == 1 || s.ioFlags % 4 == 2
def APP(s) = bdiv(s.ioFlags, 8) % 2 == 1
def TRUNC(f) = bdiv(f, 1024) % 2 == 1
def SYNC(s) = bdiv(s.ioFlags, 8192) % 2 == 1
def MAXLEN() = 281474976710656
def CLEAN(s) = forall(i, 0, s.data.totalBlocks, !DT(s.data, i))
def PERSISTED(s) = forall(m, 0, SZ(s.data), disk(s.data, m) == VIEW(s.data, m))
def SAMEFILE(s) = s.size == old(s.size) && forall(m, 0, s.size, AT(s, m) == old(AT(s, m)))
def OWNED(s) = (fresh(s.data.data) || obj(s.data.data) == old(obj(s.data.data))) && (fresh(s.data.loadedBlocks) || obj(s.data.loadedBlocks) == old(obj(s.data.loadedBlocks))) && (fresh(s.data.dirtyBlocks) || obj(s.data.dirtyBlocks) == old(obj(s.data.dirtyBlocks)))
def NOCALLS(s) = calls(s.data) == old(calls(s.data))

// nothing was written to the storage, and nothing new has to be
def SILENT(s) = mods(s.data) == old(mods(s.data)) && imp(old(CLEAN(s)), CLEAN(s))

func (stream *BasicStream) convertLinearAddr(offset) (blk, offs)
  props C06 C07 C08
  requires stream.data != nil && stream.data.bytesPerBlock >= 1 && stream.data.bytesPerBlock <= MAXLEN()
  requires offset >= 0
  ensures blk >= 0 && offs >= 0 && offs < stream.data.bytesPerBlock && blk * stream.data.bytesPerBlock + offs == offset

func (stream *BasicStream) Size() (n)
  props C06 C07 C08 C30
  ensures n == stream.size

func (stream *BasicStream) Tell() (n)
  props C06 C07 C09 C30
  ensures n == stream.position

func (stream *BasicStream) Sync() (err)
  props C07 C09 C30
  requires FILE(stream)
  modifies object(stream.data.data), bits(stream.data.loadedBlocks), bits(stream.data.dirtyBlocks), calls(stream.data), disk(stream.data), nwrites(stream.data), mods(stream.data)
  ensures FILE(stream)
  ensures view: SAMEVIEW(stream.data)
  ensures [C07 C09] persisted: imp(err == nil, CLEAN(stream) && PERSISTED(stream))
  ensures [C30] clean: imp(old(CLEAN(stream)), SILENT(stream))

func (stream *BasicStream) Close() (err)
  props C07 C09 C30
  requires FILE(stream)
  modifies object(stream.data.data), bits(stream.data.loadedBlocks), bits(stream.data.dirtyBlocks), calls(stream.data), disk(stream.data), nwrites(stream.data), mods(stream.data)
  ensures FILE(stream)
  ensures view: SAMEVIEW(stream.data)
  ensures [C07 C09] persisted: imp(err == nil, CLEAN(stream) && PERSISTED(stream))
  ensures [C30] clean: imp(old(CLEAN(stream)), SILENT(stream))

func (stream *BasicStream) Seek(offset, whence) (n, err)
  props C06 C07 C09 C30
  requires FILE(stream)
  modifies stream.position
  ensures FILE(stream)
  ensures [C09] start: imp(whence == 0, iff(err == nil, offset >= 0) && imp(err == nil, n == offset))
  ensures [C09] current: imp(whence == 1 && old(stream.position) + offset <= 9223372036854775807, iff(err == nil, old(stream.position) + offset >= 0) && imp(err == nil, n == old(stream.position) + offset))
  ensures [C09] end: imp(whence == 2 && stream.size + offset <= 9223372036854775807, iff(err == nil, stream.size + offset >= 0) && imp(err == nil, n == stream.size + offset))
  ensures [C09] toofar: imp(whence == 1 && old(stream.position) + offset > 9223372036854775807 || whence == 2 && stream.size + offset > 9223372036854775807, err != nil)
  ensures [C09] unknown: imp(whence != 0 && whence != 1 && whence != 2, err != nil)
  ensures [C09] moved: imp(err == nil, stream.position == n)
  ensures [C09] stays: imp(err != nil, stream.position == old(stream.position))
  ensures [C30] silent: SILENT(stream)

func (stream *BasicStream) ReadAt(buffer, offset) (n, err)
  props C06 C09 C10 C30
  requires FILE(stream)
  requires APART(stream.data, buffer)
  modifies elems(buffer), object(stream.data.data), bits(stream.data.loadedBlocks), bits(stream.data.dirtyBlocks), calls(stream.data)
  ensures FILE(stream)
  ensures view: SAMEVIEW(stream.data)
  ensures [C09] denied: imp(!RD(stream), n == 0 && is(err, disko.ErrNotPermitted) && NOCALLS(stream))
  ensures [C06] negative: imp(RD(stream) && offset < 0, n == 0 && is(err, disko.ErrInvalidArgument))
  ensures [C06 C10] length: imp(err == nil || err == io.EOF, n == ite(offset < stream.size, min(len(buffer), stream.size - offset), 0))
  ensures [C06] failed: imp(err != nil && err != io.EOF, n == 0)
  ensures [C06 C10] eof: imp(err == nil || err == io.EOF, iff(err == io.EOF, n < len(buffer)))
  ensures [C06 C10] content: forall(k, 0, n, buffer[k] == old(AT(stream, offset + k)))
  ensures [C06 C09] rest: forall(k, n, len(buffer), buffer[k] == old(buffer[k]))
  ensures [C30] silent: SILENT(stream)

func (stream *BasicStream) Read(buffer) (n, err)
  props C06 C09 C10 C30
  requires FILE(stream)
  requires APART(stream.data, buffer)
  modifies stream.position, elems(buffer), object(stream.data.data), bits(stream.data.loadedBlocks), bits(stream.data.dirtyBlocks), calls(stream.data)
  ensures FILE(stream)
  ensures view: SAMEVIEW(stream.data)
  ensures [C09] denied: imp(!RD(stream), n == 0 && is(err, disko.ErrNotPermitted) && NOCALLS(stream))
  ensures [C06 C10] length: imp(err == nil || err == io.EOF, n == ite(old(stream.position) < stream.size, min(len(buffer), stream.size - old(stream.position)), 0))
  ensures [C06] failed: imp(err != nil && err != io.EOF, n == 0)
  ensures [C06 C10] eof: imp(err == nil || err == io.EOF, iff(err == io.EOF, n < len(buffer)))
  ensures [C06 C10] content: forall(k, 0, n, buffer[k] == old(AT(stream, stream.position + k)))
  ensures [C06 C09] rest: forall(k, n, len(buffer), buffer[k] == old(buffer[k]))
  ensures [C06 C10] advance: stream.position == old(stream.position) + n
  ensures [C30] silent: SILENT(stream)

func (stream *BasicStream) clearRange(start, end) (err)
  props C07 C08
  requires FILE(stream)
  requires start >= 0 && end <= SZ(stream.data)
  modifies object(stream.data.data), bits(stream.data.loadedBlocks), bits(stream.data.dirtyBlocks), calls(stream.data)
  ensures FILE(stream)
  ensures cleared: imp(err == nil, forall(m, start, end, AT(stream, m) == 0))
  ensures others: forall(m, 0, SZ(stream.data), imp(m < start || m >= end, AT(stream, m) == old(AT(stream, m))))
  inv forall(m, 0, SZ(stream.data), stream.data.data[m] == ite(m >= start && m < start + $i, 0, entry(stream.data.data[m])))

func (stream *BasicStream) Truncate(size) (err)
  props C07 C08 C09 C30
  requires FILE(stream)
  requires size <= MAXLEN()
  modifies stream.size, stream.data.data, stream.data.loadedBlocks, stream.data.dirtyBlocks, stream.data.totalBlocks, object(stream.data.data), bits(stream.data.loadedBlocks), bits(stream.data.dirtyBlocks), calls(stream.data), disk(stream.data), nwrites(stream.data), mods(stream.data)
  ensures FILE(stream)
  ensures owned: OWNED(stream)
  ensures [C08 C09] denied: imp(!WR(stream), is(err, disko.ErrNotPermitted) && SAMEFILE(stream) && NOCALLS(stream))
  ensures [C08] negative: imp(WR(stream) && size < 0, is(err, disko.ErrInvalidArgument) && SAMEFILE(stream) && NOCALLS(stream))
  ensures [C08] size: imp(err == nil, stream.size == size)
  ensures [C08] prefix: forall(m, 0, min(stream.size, old(stream.size)), AT(stream, m) == old(AT(stream, m)))
  ensures [C08] zeros: forall(m, old(stream.size), stream.size, AT(stream, m) == 0)
  ensures [C08] refused: imp(err != nil && stream.size != old(stream.size), SYNC(stream) && stream.size == size)
  ensures [C09] synced: imp(err == nil && SYNC(stream), CLEAN(stream) && PERSISTED(stream))
  ensures [C30] silent: imp(!WR(stream), SILENT(stream))

func (stream *BasicStream) implWriteAt(buffer, offset) (n, err)
  props C07 C09 C10 C30
  requires FILE(stream)
  requires offset + len(buffer) <= MAXLEN()
  requires APART(stream.data, buffer)
  modifies stream.size, stream.data.data, stream.data.loadedBlocks, stream.data.dirtyBlocks, stream.data.totalBlocks, object(stream.data.data), bits(stream.data.loadedBlocks), bits(stream.data.dirtyBlocks), calls(stream.data), disk(stream.data), nwrites(stream.data), mods(stream.data)
  ensures FILE(stream)
  ensures owned: OWNED(stream)
  ensures [C09] denied: imp(!WR(stream), n == 0 && is(err, disko.ErrNotPermitted) && SAMEFILE(stream) && NOCALLS(stream))
  ensures [C07] negative: imp(WR(stream) && offset < 0, n == 0 && is(err, disko.ErrInvalidArgument) && SAMEFILE(stream) && NOCALLS(stream))
  ensures [C07] empty: imp(WR(stream) && offset >= 0 && len(buffer) == 0, n == 0 && err == nil && SAMEFILE(stream))
  ensures [C07 C10] length: n == 0 || n == len(buffer)
  ensures [C07 C10] all: imp(err == nil, n == len(buffer))
  ensures [C07] size: imp(n > 0, stream.size == max(old(stream.size), offset + n))
  ensures [C07] shrunk: stream.size >= old(stream.size)
  ensures [C07] content: imp(n > 0, forall(m, 0, stream.size, AT(stream, m) == ite(m >= offset && m < offset + n, buffer[m - offset], ite(m < old(stream.size), old(AT(stream, m)), 0))))
  ensures [C07] failed: imp(n == 0, forall(m, 0, stream.size, AT(stream, m) == ite(m < old(stream.size), old(AT(stream, m)), 0)))
  ensures [C09] synced: imp(err == nil && SYNC(stream) && len(buffer) > 0, CLEAN(stream) && PERSISTED(stream))
  ensures [C30] silent: imp(!WR(stream), SILENT(stream))

func (stream *BasicStream) WriteAt(buffer, offset) (n, err)
  props C07 C09 C30
  requires FILE(stream)
  requires offset + len(buffer) <= MAXLEN()
  requires APART(stream.data, buffer)
  modifies stream.size, stream.data.data, stream.data.loadedBlocks, stream.data.dirtyBlocks, stream.data.totalBlocks, object(stream.data.data), bits(stream.data.loadedBlocks), bits(stream.data.dirtyBlocks), calls(stream.data), disk(stream.data), nwrites(stream.data), mods(stream.data)
  ensures FILE(stream)
  ensures owned: OWNED(stream)
  ensures [C09] denied: imp(!WR(stream) || APP(stream), n == 0 && is(err, disko.ErrNotPermitted) && SAMEFILE(stream) && NOCALLS(stream))
  ensures [C07] negative: imp(WR(stream) && !APP(stream) && offset < 0, n == 0 && is(err, disko.ErrInvalidArgument) && SAMEFILE(stream) && NOCALLS(stream))
  ensures [C07] empty: imp(WR(stream) && !APP(stream) && offset >= 0 && len(buffer) == 0, n == 0 && err == nil && SAMEFILE(stream))
  ensures [C07] length: n == 0 || n == len(buffer)
  ensures [C07] all: imp(err == nil, n == len(buffer))
  ensures [C07] size: imp(n > 0, stream.size == max(old(stream.size), offset + n))
  ensures [C07] content: imp(n > 0, forall(m, 0, stream.size, AT(stream, m) == ite(m >= offset && m < offset + n, buffer[m - offset], ite(m < old(stream.size), old(AT(stream, m)), 0))))
  ensures [C07] failed: imp(n == 0, forall(m, 0, stream.size, AT(stream, m) == ite(m < old(stream.size), old(AT(stream, m)), 0)))
  ensures [C09] synced: imp(err == nil && SYNC(stream) && len(buffer) > 0, CLEAN(stream) && PERSISTED(stream))
  ensures [C30] silent: imp(!WR(stream), SILENT(stream))

func (stream *BasicStream) Write(buffer) (n, err)
  props C07 C09 C10 C30
  requires FILE(stream)
  requires max(stream.position, stream.size) + len(buffer) <= MAXLEN()
  requires APART(stream.data, buffer)
  modifies stream.position, stream.size, stream.data.data, stream.data.loadedBlocks, stream.data.dirtyBlocks, stream.data.totalBlocks, object(stream.data.data), bits(stream.data.loadedBlocks), bits(stream.data.dirtyBlocks), calls(stream.data), disk(stream.data), nwrites(stream.data), mods(stream.data)
  ensures FILE(stream)
  ensures owned: OWNED(stream)
  ensures [C09] denied: imp(!WR(stream), n == 0 && is(err, disko.ErrNotPermitted) && SAMEFILE(stream) && NOCALLS(stream) && stream.position == old(stream.position))
  ensures [C07] empty: imp(WR(stream) && len(buffer) == 0, n == 0 && err == nil && SAMEFILE(stream))
  ensures [C07 C10] length: n == 0 || n == len(buffer)
  ensures [C07 C10] all: imp(err == nil, n == len(buffer))
  ensures [C07 C09] size: imp(n > 0, stream.size == ite(APP(stream), old(stream.size) + n, max(old(stream.size), old(stream.position) + n)))
  ensures [C07 C09 C10] content: imp(n > 0, forall(m, 0, stream.size, AT(stream, m) == ite(m >= stream.position - n && m < stream.position, buffer[m - (stream.position - n)], ite(m < old(stream.size), old(AT(stream, m)), 0))))
  ensures [C07] failed: imp(n == 0, forall(m, 0, stream.size, AT(stream, m) == ite(m < old(stream.size), old(AT(stream, m)), 0)))
  ensures [C07 C09 C10] advance: stream.position == ite(APP(stream) && WR(stream), old(stream.size), old(stream.position)) + n
  ensures [C09] synced: imp(err == nil && SYNC(stream) && len(buffer) > 0, CLEAN(stream) && PERSISTED(stream))
  ensures [C30] silent: imp(!WR(stream), SILENT(stream))

func (stream *BasicStream) WriteString(s) (n, err)
  props C07 C30
  requires FILE(stream)
  requires max(stream.position, stream.size) + len(s) <= MAXLEN()
  modifies stream.position, stream.size, stream.data.data, stream.data.loadedBlocks, stream.data.dirtyBlocks, stream.data.totalBlocks, object(stream.data.data), bits(stream.data.loadedBlocks), bits(stream.data.dirtyBlocks), calls(stream.data), disk(stream.data), nwrites(stream.data), mods(stream.data)
  ensures FILE(stream)
  ensures owned: OWNED(stream)
  ensures all: imp(err == nil, n == len(s))
  ensures content: imp(n > 0, forall(m, 0, stream.size, AT(stream, m) == ite(m >= stream.position - n && m < stream.position, s[m - (stream.position - n)], ite(m < old(stream.size), old(AT(stream, m)), 0))))
  ensures advance: stream.position == ite(APP(stream) && WR(stream), old(stream.size), old(stream.position)) + n
  ensures [C30] silent: imp(!WR(stream), SILENT(stream))

func New(size, data, flags) (r, err)
  props C06 C08 C09 C30
  requires data != nil && INV(data)
  modifies data.data, data.loadedBlocks, data.dirtyBlocks, data.totalBlocks, object(data.data), bits(data.loadedBlocks), bits(data.dirtyBlocks), calls(data), disk(data), nwrites(data), mods(data)
  ensures owned: (fresh(data.data) || obj(data.data) == old(obj(data.data))) && (fresh(data.loadedBlocks) || obj(data.loadedBlocks) == old(obj(data.loadedBlocks))) && (fresh(data.dirtyBlocks) || obj(data.dirtyBlocks) == old(obj(data.dirtyBlocks)))
  ensures [C06 C09] sizes: imp(size < 0 || size > old(SZ(data)), err != nil && r == nil)
  ensures [C06 C09] made: imp(err == nil, fresh(r) && FILE(r) && r.data == data && r.ioFlags == flags && r.position == 0)
  ensures [C06] size: imp(err == nil && !TRUNC(flags), r.size == size && SAMEVIEW(data) && calls(data) == old(calls(data)))
  ensures [C06] accepted: imp(!TRUNC(flags) && size >= 0 && size <= old(SZ(data)), err == nil)
  ensures [C08 C09] truncated: imp(err == nil && TRUNC(flags), r.size == 0)
  ensures [C30] silent: imp(!TRUNC(flags), mods(data) == old(mods(data)) && forall(i, 0, data.totalBlocks, iff(DT(data, i), old(DT(data, i)))))
  ensures same: imp(!TRUNC(flags), data.totalBlocks == old(data.totalBlocks) && forall(i, 0, data.totalBlocks, iff(LD(data, i), old(LD(data, i))) && iff(DT(data, i), old(DT(data, i)))))

// Bulk copies. The other stream is a tape of its own, see stdlib.vspec.
def BASE(s) = ite(APP(s), old(s.size), old(s.position))
// bytes moved so far
def GOT(x) = spos(x) - old(spos(x))
func (stream *BasicStream) ReadFrom(r) (n, err)
  props C09 C10 C30
  requires FILE(stream)
  requires other: imp(typeis(r, "*BasicStream"), as(r, "*BasicStream") != nil && as(r, "*BasicStream").data != nil && SHAPE(as(r, "*BasicStream").data))
  requires r != nil && flen(r) >= 0 && spos(r) >= 0 && max(stream.position, stream.size) + flen(r) <= MAXLEN()
  modifies stream.position, stream.size, stream.data.data, stream.data.loadedBlocks, stream.data.dirtyBlocks, stream.data.totalBlocks, object(stream.data.data), bits(stream.data.loadedBlocks), bits(stream.data.dirtyBlocks), calls(stream.data), disk(stream.data), nwrites(stream.data), mods(stream.data), spos(r), iocalls(r), seof(r), sfailed(r), rlog(r)
  ensures FILE(stream)
  ensures OWNED(stream)
  ensures [C09] denied: imp(!WR(stream), n == 0 && is(err, disko.ErrNotPermitted) && SAMEFILE(stream) && NOCALLS(stream))
  ensures [C10] count: n == spos(r) - old(spos(r))
  ensures [C10] content: imp(err == nil, forall(m, 0, stream.size, AT(stream, m) == ite(m >= BASE(stream) && m < BASE(stream) + n, sbyte(r, old(spos(r)) + m - BASE(stream)), ite(m < old(stream.size), old(AT(stream, m)), 0))))
  ensures [C10] size: imp(err == nil, stream.size == ite(n == 0, old(stream.size), max(old(stream.size), BASE(stream) + n)))
  ensures [C10] complete: imp(err == nil, seof(r))
  ensures [C10] errors: imp(err == nil, iff(sfailed(r), old(sfailed(r))))
  ensures [C30] silent: imp(!WR(stream), SILENT(stream))
  inv imp(!WR(stream), SILENT(stream))
  inv FILE(stream)
  inv OWNED(stream)
  inv 0 <= GOT(r)
  inv $n == spos(r) - old(spos(r))
  inv imp(GOT(r) > 0, spos(r) <= flen(r))
  inv imp(GOT(r) > 0, stream.size == max(old(stream.size), BASE(stream) + GOT(r)))
  inv imp(GOT(r) == 0, stream.size == old(stream.size))
  inv imp(GOT(r) > 0 || !APP(stream), stream.position == BASE(stream) + GOT(r))
  inv max(stream.position, stream.size) <= max(old(stream.position), old(stream.size)) + GOT(r)
  inv iff(sfailed(r), old(sfailed(r)))
  inv imp($p == nil || $p == io.EOF, iff(sfailed(r), old(sfailed(r))))
  inv imp($p == io.EOF, seof(r))
  inv forall(m, 0, stream.size, AT(stream, m) == ite(m >= BASE(stream) && m < BASE(stream) + GOT(r), sbyte(r, old(spos(r)) + m - BASE(stream)), ite(m < old(stream.size), old(AT(stream, m)), 0)))

func (stream *BasicStream) WriteTo(w) (n, err)
  props C09 C10 C30
  requires FILE(stream)
  requires w != nil
  modifies stream.position, object(stream.data.data), bits(stream.data.loadedBlocks), bits(stream.data.dirtyBlocks), calls(stream.data), sbyte(w), spos(w), flen(w), iocalls(w), sfailed(w), wlog(w), werr(w)
  ensures FILE(stream)
  ensures SAMEVIEW(stream.data)
  ensures [C09] denied: imp(!RD(stream), n == 0 && is(err, disko.ErrNotPermitted) && iocalls(w) == old(iocalls(w)))
  ensures [C10] count: n == spos(w) - old(spos(w))
  ensures [C10] complete: imp(err == nil, n == max(0, stream.size - old(stream.position)))
  ensures [C10] content: forall(k, 0, n, sbyte(w, old(spos(w)) + k) == old(AT(stream, stream.position + k)))
  ensures [C10] untouched: forall(m, imp(m < old(spos(w)) || m >= old(spos(w)) + n, sbyte(w, m) == old(sbyte(w, m))))
  ensures [C10] errors: imp(err == nil, iff(sfailed(w), old(sfailed(w))))
  ensures [C30] silent: SILENT(stream)
  inv FILE(stream)
  inv SAMEVIEW(stream.data)
  inv SILENT(stream)
  inv RD(stream) || GOT(w) == 0 && iocalls(w) == old(iocalls(w))
  inv 0 <= GOT(w)
  inv $n == spos(w) - old(spos(w))
  inv stream.position == old(stream.position) + GOT(w)
  inv imp(GOT(w) > 0, stream.position <= stream.size)
  inv iff(sfailed(w), old(sfailed(w)))
  inv imp($p == nil || $p == io.EOF, iff(sfailed(w), old(sfailed(w))))
  inv forall(k, 0, GOT(w), sbyte(w, old(spos(w)) + k) == old(AT(stream, stream.position + k)))
  inv forall(m, imp(m < old(spos(w)) || m >= old(spos(w)) + GOT(w), sbyte(w, m) == old(sbyte(w, m))))
