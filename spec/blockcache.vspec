package github.com/dargueta/disko/file_systems/common/blockcache

// disk(t, m): byte m of the storage behind the cache t.
// calls(t): how often the backing storage was called.
// nwrites(t, i): how often block i of the backing storage was written.
ghost disk(t, m) u8
ghost calls(t) int
ghost nwrites(t, i) int
// mods(t): how often the backing storage was asked to change anything
ghost mods(t) int

def LD(t, i) = bit(t.loadedBlocks, i)
def DT(t, i) = bit(t.dirtyBlocks, i)
def BLK(t, m) = bdiv(m, t.bytesPerBlock)
def SZ(t) = t.totalBlocks * t.bytesPerBlock
// what the cache is supposed to contain
def VIEW(t, m) = ite(LD(t, BLK(t, m)), t.data[m], disk(t, m))

def SHAPE(t) = t.bytesPerBlock >= 1 && t.bytesPerBlock <= 281474976710656 && t.totalBlocks <= 281474976710656 && len(t.data) == t.totalBlocks * t.bytesPerBlock &&
  t.totalBlocks <= 8 * len(t.loadedBlocks) && t.totalBlocks <= 8 * len(t.dirtyBlocks) &&
  distinct(t.data, t.loadedBlocks, t.dirtyBlocks) && off(t.data) == 0 && off(t.loadedBlocks) == 0 && off(t.dirtyBlocks) == 0 &&
  t.fetch != nil && t.flush != nil && t.resize != nil
def DIRTYLOADED(t) = forall(i, 0, t.totalBlocks, imp(DT(t, i), LD(t, i)))
// clean loaded bytes are what is stored
def OK(t, m) = imp(LD(t, BLK(t, m)) && !DT(t, BLK(t, m)), t.data[m] == disk(t, m))
def KEPTOK(t) = forall(m, 0, SZ(t), imp(old(OK(t, m)), OK(t, m)))
def COHERENT(t) = forall(m, 0, SZ(t), imp(LD(t, BLK(t, m)) && !DT(t, BLK(t, m)), t.data[m] == disk(t, m)))

def CEIL(n, p) = bdiv(n + p - 1, p)
// exact ceiling without division
def ISCEIL(q, n, p) = q >= 0 && q * p >= n && (n == 0 && q == 0 || n > 0 && q >= 1 && (q - 1) * p < n)

def SAMEVIEW(t) = forall(m, 0, SZ(t), VIEW(t, m) == old(VIEW(t, m)))
def SAMEDIRTY(t) = forall(i, 0, t.totalBlocks, iff(DT(t, i), old(DT(t, i))))
def UNTOUCHED(t) = calls(t) == old(calls(t)) && forall(m, 0, SZ(t), t.data[m] == old(t.data[m])) &&
  forall(i, 0, t.totalBlocks, iff(DT(t, i), old(DT(t, i))) && iff(LD(t, i), old(LD(t, i))))

callback blockcache.BlockCache.fetch(t, block, buffer) (err)
  requires inrange: block < t.totalBlocks
  requires whole: len(buffer) == t.bytesPerBlock
  modifies elems(buffer), calls(t)
  ensures calls(t) == old(calls(t)) + 1
  ensures imp(err == nil, forall(k, 0, len(buffer), buffer[k] == disk(t, block * t.bytesPerBlock + k)))

callback blockcache.BlockCache.flush(t, block, buffer) (err)
  requires inrange: block < t.totalBlocks
  requires whole: len(buffer) == t.bytesPerBlock
  requires onlydirty: DT(t, block)
  requires content: forall(k, 0, t.bytesPerBlock, buffer[k] == t.data[block * t.bytesPerBlock + k])
  modifies disk(t), calls(t), nwrites(t), mods(t)
  ensures mods(t) == old(mods(t)) + 1
  ensures calls(t) == old(calls(t)) + 1
  ensures forall(i, nwrites(t, i) == old(nwrites(t, i)) + ite(i == block, 1, 0))
  ensures imp(err == nil, forall(m, block * t.bytesPerBlock, block * t.bytesPerBlock + t.bytesPerBlock, disk(t, m) == buffer[m - block * t.bytesPerBlock]))
  ensures forall(m, imp(m < block * t.bytesPerBlock || m >= block * t.bytesPerBlock + t.bytesPerBlock, disk(t, m) == old(disk(t, m))))

callback blockcache.BlockCache.resize(t, n) (err)
  modifies disk(t), calls(t), mods(t)
  ensures mods(t) == old(mods(t)) + 1
  ensures calls(t) == old(calls(t)) + 1
  ensures imp(err == nil, n * t.bytesPerBlock <= 281474976710656)
  ensures forall(m, imp(m < SZ(t) && (m < n * t.bytesPerBlock || err != nil), disk(t, m) == old(disk(t, m))))

// The bitmap library.
extern github.com/boljen/go-bitmap.NewSlice(l) (s)
  requires l >= 0
  ensures fresh(s) && off(s) == 0 && 8 * len(s) >= l && len(s) <= l && forall(i, !bit(s, i))

extern (github.com/boljen/go-bitmap.Bitmap).Get(b, i) (v)
  requires inrange: 0 <= i && i < 8 * len(b)
  ensures iff(v, bit(b, i))

extern (github.com/boljen/go-bitmap.Bitmap).Set(b, i, v)
  requires inrange: 0 <= i && i < 8 * len(b)
  modifies bits(b)
  ensures forall(k, iff(bit(b, k), ite(k == i, v, old(bit(b, k)))))

func (t *BlockCache) BytesPerBlock() (r)
  props C03
  ensures r == t.bytesPerBlock
func (t *BlockCache) TotalBlocks() (r)
  props C04
  ensures r == t.totalBlocks
func (t *BlockCache) Size() (r)
  props C04
  requires SHAPE(t)
  ensures r == SZ(t)

func (t *BlockCache) GetMinBlocksForSize(size) (r)
  props C03
  requires t.bytesPerBlock >= 1
  ensures ceiling: ISCEIL(r, size, t.bytesPerBlock)

func (t *BlockCache) CheckBounds(start, size) (err)
  props C03
  requires SHAPE(t)
  ensures accepted: imp(err == nil, start < t.totalBlocks && start * t.bytesPerBlock + size <= SZ(t))
  ensures refused: imp(err != nil, is(err, disko.ErrArgumentOutOfRange) && (start >= t.totalBlocks || start * t.bytesPerBlock + size > SZ(t)))

func (t *BlockCache) loadBlockRange(start, count) (err)
  props C01 C02 C03
  requires SHAPE(t)
  requires DIRTYLOADED(t)
  modifies object(t.data), bits(t.loadedBlocks), bits(t.dirtyBlocks), calls(t)
  ensures DIRTYLOADED(t)
  ensures coherent: KEPTOK(t)
  ensures [C01 C02] view: SAMEVIEW(t)
  ensures [C02] dirty: SAMEDIRTY(t)
  ensures [C01 C02] loaded: imp(err == nil, forall(i, start, start + count, LD(t, i)))
  ensures kept: forall(i, 0, t.totalBlocks, imp(old(LD(t, i)), LD(t, i)))
  ensures [C03] range: imp(err == nil, start < t.totalBlocks && start + count <= t.totalBlocks)
  ensures [C03] outside: imp(start >= t.totalBlocks || start + count > t.totalBlocks, is(err, disko.ErrArgumentOutOfRange) && UNTOUCHED(t))
  ensures [C02 C03] cached: imp(forall(i, start, start + count, old(LD(t, i))) && start < t.totalBlocks && start + count <= t.totalBlocks, err == nil && calls(t) == old(calls(t)))
  inv imp(forall(i, start, start + count, old(LD(t, i))), calls(t) == old(calls(t)))
  inv forall(i, start, start + $i, LD(t, i))
  inv DIRTYLOADED(t)
  inv KEPTOK(t)
  inv SAMEVIEW(t)
  inv SAMEDIRTY(t)
  inv forall(i, 0, t.totalBlocks, imp(old(LD(t, i)), LD(t, i)))

def INV(t) = SHAPE(t) && DIRTYLOADED(t) && COHERENT(t)
def APART(t, b) = distinct(b, t.data, t.loadedBlocks, t.dirtyBlocks)
def INSIDE(t, start, count) = start < t.totalBlocks && start + count <= t.totalBlocks
def KEPTLOADED(t) = forall(i, 0, t.totalBlocks, imp(old(LD(t, i)), LD(t, i)))

func (t *BlockCache) flushBlockRange(start, count) (err)
  props C01 C02 C03 C04 C30
  requires SHAPE(t)
  requires DIRTYLOADED(t)
  requires COHERENT(t)
  modifies object(t.data), bits(t.loadedBlocks), bits(t.dirtyBlocks), calls(t), disk(t), nwrites(t), mods(t)
  ensures DIRTYLOADED(t)
  ensures COHERENT(t)
  ensures [C01 C02] view: SAMEVIEW(t)
  ensures kept: KEPTLOADED(t)
  ensures [C02 C04] clean: imp(err == nil, forall(i, start, start + count, !DT(t, i)))
  ensures [C02] once: imp(err == nil, forall(i, 0, t.totalBlocks, nwrites(t, i) == old(nwrites(t, i)) + ite(i >= start && i < start + count && old(DT(t, i)), 1, 0)))
  ensures [C02] onlydirty: forall(i, imp(nwrites(t, i) != old(nwrites(t, i)), i >= 0 && i < t.totalBlocks && old(DT(t, i))))
  ensures [C02] retry: forall(i, 0, t.totalBlocks, imp(old(DT(t, i)) && nwrites(t, i) == old(nwrites(t, i)), DT(t, i)))
  ensures [C02] others: forall(m, 0, SZ(t), imp(!old(DT(t, BLK(t, m))), disk(t, m) == old(disk(t, m))))
  ensures [C02] nonew: forall(i, 0, t.totalBlocks, imp(DT(t, i), old(DT(t, i))))
  ensures [C02] beyond: forall(m, imp(m >= SZ(t), disk(t, m) == old(disk(t, m))))
  ensures [C03] range: imp(err == nil, INSIDE(t, start, count))
  ensures [C03] outside: imp(!INSIDE(t, start, count), is(err, disko.ErrArgumentOutOfRange) && UNTOUCHED(t))
  ensures [C30] quiet: imp(forall(i, 0, t.totalBlocks, !old(DT(t, i))), mods(t) == old(mods(t)))
  inv imp(forall(i, 0, t.totalBlocks, !old(DT(t, i))), mods(t) == old(mods(t)))
  inv DIRTYLOADED(t)
  inv COHERENT(t)
  inv SAMEVIEW(t)
  inv KEPTLOADED(t)
  inv forall(i, start, start + $i, !DT(t, i))
  inv forall(i, start + $i, t.totalBlocks, iff(DT(t, i), old(DT(t, i))))
  inv forall(i, 0, start, iff(DT(t, i), old(DT(t, i))))
  inv forall(i, nwrites(t, i) == old(nwrites(t, i)) + ite(i >= start && i < start + $i && old(DT(t, i)), 1, 0))
  inv forall(m, 0, SZ(t), imp(!old(DT(t, BLK(t, m))), disk(t, m) == old(disk(t, m))))
  inv forall(m, imp(m >= SZ(t), disk(t, m) == old(disk(t, m))))

func (t *BlockCache) GetSlice(start, count) (r, err)
  props C01 C02 C03
  requires SHAPE(t)
  requires DIRTYLOADED(t)
  requires COHERENT(t)
  modifies object(t.data), bits(t.loadedBlocks), bits(t.dirtyBlocks), calls(t)
  ensures DIRTYLOADED(t)
  ensures COHERENT(t)
  ensures [C01 C02] view: SAMEVIEW(t)
  ensures [C02] dirty: SAMEDIRTY(t)
  ensures kept: KEPTLOADED(t)
  ensures [C01 C02] loaded: imp(err == nil, forall(i, start, start + count, LD(t, i)))
  ensures [C01 C02] slice: imp(err == nil, r == sub(t.data, start * t.bytesPerBlock, (start + count) * t.bytesPerBlock))
  ensures [C03] range: imp(err == nil, INSIDE(t, start, count))
  ensures [C03] outside: imp(!INSIDE(t, start, count), is(err, disko.ErrArgumentOutOfRange) && UNTOUCHED(t))
  ensures [C02 C03] cached: imp(forall(i, start, start + count, old(LD(t, i))) && INSIDE(t, start, count), err == nil && calls(t) == old(calls(t)))

func (t *BlockCache) Data() (r, err)
  props C01 C02
  requires INV(t)
  modifies object(t.data), bits(t.loadedBlocks), bits(t.dirtyBlocks), calls(t)
  ensures INV(t)
  ensures [C01 C02] view: SAMEVIEW(t)
  ensures [C02] dirty: SAMEDIRTY(t)
  ensures [C01] whole: imp(err == nil, r == t.data && forall(i, 0, t.totalBlocks, LD(t, i)))
  ensures [C02] empty: imp(t.totalBlocks == 0, err == nil)

func (t *BlockCache) LoadAll() (err)
  props C01 C02
  requires SHAPE(t)
  requires DIRTYLOADED(t)
  requires COHERENT(t)
  modifies object(t.data), bits(t.loadedBlocks), bits(t.dirtyBlocks), calls(t)
  ensures DIRTYLOADED(t)
  ensures COHERENT(t)
  ensures [C01 C02] view: SAMEVIEW(t)
  ensures [C02] dirty: SAMEDIRTY(t)
  ensures [C01 C02] loaded: imp(err == nil, forall(i, 0, t.totalBlocks, LD(t, i)))
  ensures [C02] empty: imp(t.totalBlocks == 0, err == nil)

func (t *BlockCache) Flush() (err)
  props C01 C02 C04 C30
  requires INV(t)
  modifies object(t.data), bits(t.loadedBlocks), bits(t.dirtyBlocks), calls(t), disk(t), nwrites(t), mods(t)
  ensures INV(t)
  ensures [C01 C02] view: SAMEVIEW(t)
  ensures [C02 C04] clean: imp(err == nil, forall(i, 0, t.totalBlocks, !DT(t, i)))
  ensures [C02 C04] persisted: imp(err == nil, forall(m, 0, SZ(t), disk(t, m) == old(VIEW(t, m))))
  ensures [C02] once: imp(err == nil, forall(i, 0, t.totalBlocks, nwrites(t, i) == old(nwrites(t, i)) + ite(old(DT(t, i)), 1, 0)))
  ensures [C02] onlydirty: forall(i, imp(nwrites(t, i) != old(nwrites(t, i)), i >= 0 && i < t.totalBlocks && old(DT(t, i))))
  ensures [C02] retry: forall(i, 0, t.totalBlocks, imp(old(DT(t, i)) && nwrites(t, i) == old(nwrites(t, i)), DT(t, i)))
  ensures [C02] others: forall(m, 0, SZ(t), imp(!old(DT(t, BLK(t, m))), disk(t, m) == old(disk(t, m))))
  ensures [C02] beyond: forall(m, imp(m >= SZ(t), disk(t, m) == old(disk(t, m))))
  ensures [C02] empty: imp(t.totalBlocks == 0, err == nil)
  ensures [C30] quiet: imp(forall(i, 0, t.totalBlocks, !old(DT(t, i))), mods(t) == old(mods(t)))

func (t *BlockCache) ReadAt(buffer, start) (n, err)
  props C01 C02 C03
  requires INV(t)
  requires APART(t, buffer)
  modifies elems(buffer), object(t.data), bits(t.loadedBlocks), bits(t.dirtyBlocks), calls(t)
  ensures INV(t)
  ensures [C01 C02] view: SAMEVIEW(t)
  ensures [C02] dirty: SAMEDIRTY(t)
  ensures [C01] length: imp(err == nil, n == len(buffer))
  ensures [C01] content: imp(err == nil, forall(k, 0, len(buffer), buffer[k] == old(VIEW(t, start * t.bytesPerBlock + k))))
  ensures [C03] range: imp(err == nil, start < t.totalBlocks && start * t.bytesPerBlock + len(buffer) <= SZ(t))
  ensures [C03] outside: imp(start >= t.totalBlocks || start * t.bytesPerBlock + len(buffer) > SZ(t), n == 0 && is(err, disko.ErrArgumentOutOfRange) && UNTOUCHED(t))
  ensures [C01 C03] kept: imp(err != nil, forall(k, 0, len(buffer), buffer[k] == old(buffer[k])))

func (t *BlockCache) WriteAt(buffer, start) (n, err)
  props C01 C02 C03
  requires INV(t)
  requires APART(t, buffer)
  modifies object(t.data), bits(t.loadedBlocks), bits(t.dirtyBlocks), calls(t)
  ensures INV(t)
  ensures [C01] length: imp(err == nil, n == len(buffer))
  ensures [C01] content: imp(err == nil, forall(m, 0, SZ(t), VIEW(t, m) == ite(m >= start * t.bytesPerBlock && m < start * t.bytesPerBlock + len(buffer), buffer[m - start * t.bytesPerBlock], old(VIEW(t, m)))))
  ensures [C01] failed: imp(err != nil, SAMEVIEW(t))
  ensures [C02] dirty: imp(err == nil, forall(i, 0, t.totalBlocks, iff(DT(t, i), old(DT(t, i)) || i >= start && (i - start) * t.bytesPerBlock < len(buffer))))
  ensures [C02] faileddirty: imp(err != nil, SAMEDIRTY(t))
  ensures [C03] range: imp(err == nil, start < t.totalBlocks && start * t.bytesPerBlock + len(buffer) <= SZ(t))
  ensures [C03] outside: imp(start >= t.totalBlocks || start * t.bytesPerBlock + len(buffer) > SZ(t), n == 0 && is(err, disko.ErrArgumentOutOfRange) && UNTOUCHED(t))
  inv DIRTYLOADED(t)
  inv COHERENT(t)
  inv forall(i, 0, t.totalBlocks, iff(LD(t, i), entry(LD(t, i))))
  inv forall(i, 0, t.totalBlocks, iff(DT(t, i), entry(DT(t, i)) || i >= start && i < start + $i))

func (t *BlockCache) MarkBlockRangeDirty(start, count) (err)
  props C01 C02 C03
  requires SHAPE(t)
  requires DIRTYLOADED(t)
  modifies object(t.data), bits(t.loadedBlocks), bits(t.dirtyBlocks), calls(t)
  ensures DIRTYLOADED(t)
  ensures coherent: imp(err == nil, forall(m, 0, SZ(t), imp(old(OK(t, m)) || m >= start * t.bytesPerBlock && m < (start + count) * t.bytesPerBlock, OK(t, m))))
  ensures coherent2: KEPTOK(t)
  ensures [C01 C02] view: SAMEVIEW(t)
  ensures [C02] marked: imp(err == nil, forall(i, 0, t.totalBlocks, iff(DT(t, i), old(DT(t, i)) || i >= start && i < start + count)))
  ensures [C02] faileddirty: imp(err != nil, SAMEDIRTY(t))
  ensures [C02 C03] cached: imp(forall(i, start, start + count, old(LD(t, i))) && INSIDE(t, start, count), err == nil && calls(t) == old(calls(t)))
  ensures [C03] range: imp(err == nil, INSIDE(t, start, count))
  ensures [C03] outside: imp(!INSIDE(t, start, count), is(err, disko.ErrArgumentOutOfRange) && UNTOUCHED(t))
  inv DIRTYLOADED(t)
  inv forall(m, 0, SZ(t), imp(old(OK(t, m)) || m >= start * t.bytesPerBlock && m < (start + $i) * t.bytesPerBlock, OK(t, m)))
  inv forall(i, 0, t.totalBlocks, iff(LD(t, i), entry(LD(t, i))))
  inv forall(i, 0, t.totalBlocks, iff(DT(t, i), entry(DT(t, i)) || i >= start && i < start + $i))

func (t *BlockCache) Resize(n) (err)
  props C04
  requires INV(t)
  requires n <= 281474976710656
  modifies t.data, t.loadedBlocks, t.dirtyBlocks, t.totalBlocks, disk(t), calls(t), mods(t)
  ensures INV(t)
  ensures [C04] size: t.totalBlocks == ite(err == nil, n, old(t.totalBlocks))
  ensures [C04] prefix: imp(err == nil, forall(m, 0, min(n, old(t.totalBlocks)) * t.bytesPerBlock, VIEW(t, m) == old(VIEW(t, m))))
  ensures [C04] grown: imp(err == nil, forall(i, old(t.totalBlocks), n, LD(t, i) && DT(t, i)))
  ensures [C04] zeros: imp(err == nil, forall(m, old(SZ(t)), SZ(t), VIEW(t, m) == 0))
  ensures [C04] state: imp(err == nil, forall(i, 0, min(n, old(t.totalBlocks)), iff(DT(t, i), old(DT(t, i))) && iff(LD(t, i), old(LD(t, i)))))
  ensures owned: (fresh(t.data) || obj(t.data) == old(obj(t.data))) && (fresh(t.loadedBlocks) || obj(t.loadedBlocks) == old(obj(t.loadedBlocks))) && (fresh(t.dirtyBlocks) || obj(t.dirtyBlocks) == old(obj(t.dirtyBlocks)))
  ensures [C04] refused: imp(err != nil, unchanged(t.data, t.loadedBlocks, t.dirtyBlocks, t.totalBlocks) && forall(m, 0, SZ(t), VIEW(t, m) == old(VIEW(t, m))))
  inv forall(i, old(t.totalBlocks), old(t.totalBlocks) + $i, bit($s, i))
  inv forall(i, 0, min(n, old(t.totalBlocks)), iff(bit($s, i), old(LD(t, i))))
  inv forall(i, 0, min(n, old(t.totalBlocks)), iff(bit($s, i), old(DT(t, i))))

func New(bytesPerBlock, totalBlocks, fetchCb, flushCb, resizeCb) (r)
  props C01 C04
  inline
  requires bytesPerBlock >= 1 && bytesPerBlock <= 281474976710656 && totalBlocks <= 281474976710656 && bytesPerBlock * totalBlocks <= 281474976710656
  requires fetchCb != nil && flushCb != nil
  ensures fresh(r)
  ensures INV(r)
  ensures r.totalBlocks == totalBlocks && r.bytesPerBlock == bytesPerBlock
  ensures empty: forall(i, 0, totalBlocks, !LD(r, i) && !DT(r, i))
  ensures callbacks: r.fetch == fetchCb && r.flush == flushCb && imp(resizeCb != nil, r.resize == resizeCb)

def SMALL(p, n) = p >= 1 && p <= 281474976710656 && n <= 281474976710656 && p * n <= 281474976710656

func verifFetch(s, p, total, allow, block, buffer) (err)
  props C05
  lemma
  requires SMALL(p, total) && s != nil && len(buffer) == p
  modifies elems(buffer), spos(s), iocalls(s), seof(s), sfailed(s), rlog(s)
  ensures range: imp(block >= total, is(err, disko.ErrArgumentOutOfRange) && iocalls(s) == old(iocalls(s)))
  ensures content: imp(err == nil, forall(k, 0, p, buffer[k] == sbyte(s, block * p + k)))
  ensures whole: imp(err == nil, flen(s) >= (block + 1) * p)
  ensures reached: imp(block < total, iocalls(s) > old(iocalls(s)))
  inv 0 <= $n
  inv forall(k, 0, $n, buffer[k] == sbyte(s, block * p + k))
  inv spos(s) == block * p + $n
  inv imp($n > 0, flen(s) >= spos(s))
  inv iocalls(s) > old(iocalls(s))

func verifFlush(s, p, total, allow, block, buffer) (err)
  props C05
  lemma
  requires SMALL(p, total) && s != nil && len(buffer) == p && swell(s)
  modifies sbyte(s), spos(s), flen(s), iocalls(s), sfailed(s), wlog(s), werr(s)
  ensures range: imp(block >= total, is(err, disko.ErrArgumentOutOfRange) && iocalls(s) == old(iocalls(s)))
  ensures content: imp(err == nil, forall(k, 0, p, sbyte(s, block * p + k) == buffer[k]))
  ensures others: forall(m, imp(m < block * p || m >= block * p + p, sbyte(s, m) == old(sbyte(s, m))))
  ensures reached: imp(block < total, iocalls(s) > old(iocalls(s)))

func verifResize(s, p, total, allow, n) (err)
  props C05
  lemma
  requires SMALL(p, total) && SMALL(p, n) && s != nil
  modifies sbyte(s), flen(s), iocalls(s)
  ensures forbidden: imp(!allow, is(err, disko.ErrNotPermitted) && iocalls(s) == old(iocalls(s)))
  ensures unsupported: imp(allow && !typeis(s, "github.com/dargueta/disko/file_systems/common.Truncator"), is(err, disko.ErrNotSupported) && iocalls(s) == old(iocalls(s)))
  ensures resized: imp(err == nil, flen(s) == n * p)
  ensures prefix: forall(m, imp(m < n * p && m < old(flen(s)), sbyte(s, m) == old(sbyte(s, m))))
  ensures refused: imp(err != nil, flen(s) == old(flen(s)))
  ensures attempted: imp(allow && typeis(s, "github.com/dargueta/disko/file_systems/common.Truncator"), iocalls(s) > old(iocalls(s)))

func verifResizeFetch(s, p, total, allow, n, block, buffer) (err1, err)
  props C05
  lemma
  requires SMALL(p, total) && SMALL(p, n) && s != nil && len(buffer) == p
  modifies elems(buffer), spos(s), iocalls(s), seof(s), sfailed(s), rlog(s), sbyte(s), flen(s)
  ensures range: imp(block >= ite(err1 == nil, n, total), is(err, disko.ErrArgumentOutOfRange))
  ensures content: imp(err == nil, forall(k, 0, p, buffer[k] == sbyte(s, block * p + k)))
  ensures whole: imp(err == nil, flen(s) >= (block + 1) * p)
  ensures reached: imp(block < ite(err1 == nil, n, total), iocalls(s) > ite(allow && typeis(s, "github.com/dargueta/disko/file_systems/common.Truncator"), 1, 0) + old(iocalls(s)))
  inv 0 <= $n
  inv forall(k, 0, $n, buffer[k] == sbyte(s, block * p + k))
  inv spos(s) == block * p + $n
  inv imp($n > 0, flen(s) >= spos(s))
  inv iocalls(s) > old(iocalls(s)) + ite(allow && typeis(s, "github.com/dargueta/disko/file_systems/common.Truncator"), 1, 0)

func verifResizeFlush(s, p, total, allow, n, block, buffer) (err1, err)
  props C05
  lemma
  requires SMALL(p, total) && SMALL(p, n) && s != nil && len(buffer) == p && swell(s)
  modifies sbyte(s), spos(s), flen(s), iocalls(s), sfailed(s), wlog(s), werr(s)
  ensures range: imp(block >= ite(err1 == nil, n, total), is(err, disko.ErrArgumentOutOfRange))
  ensures content: imp(err == nil, forall(k, 0, p, sbyte(s, block * p + k) == buffer[k]))
  ensures reached: imp(block < ite(err1 == nil, n, total), iocalls(s) > ite(allow && typeis(s, "github.com/dargueta/disko/file_systems/common.Truncator"), 1, 0) + old(iocalls(s)))

func verifWrap(s, p, total, allow) (a, b)
  props C05
  lemma
  requires SMALL(p, total) && s != nil
  ensures a == p && b == total

func verifInferred(s, p, allow) (a, b)
  props C05
  lemma
  requires p >= 1 && p <= 281474976710656 && s != nil && flen(s) >= 0 && flen(s) <= 281474976710656
  modifies spos(s), iocalls(s)
  ensures a == p
  ensures imp(b > 0, b * p <= flen(s) && flen(s) < b * p + p)

func verifSlice(storage, p) (a, b)
  props C05
  lemma
  requires p >= 1 && p <= 281474976710656
  ensures a == p && b == bdiv(len(storage), p)

func verifSliceFlush(storage, p, block, buffer) (err)
  props C05
  lemma
  requires p >= 1 && p <= 281474976710656 && len(buffer) == p && distinct(storage, buffer)
  modifies elems(storage)
  ensures range: imp(err == nil, (block + 1) * p <= len(storage))
  ensures content: imp(err == nil, forall(m, 0, len(storage), storage[m] == ite(m >= block * p && m < block * p + p, buffer[m - block * p], old(storage[m]))))
