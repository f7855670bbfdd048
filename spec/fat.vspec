package github.com/dargueta/disko/file_systems/fat

// ---- boot sector
def T16(k, i) = tb(k, i) + 256 * tb(k, i + 1)
def T32(k, i) = tb(k, i) + 256 * tb(k, i + 1) + 65536 * tb(k, i + 2) + 16777216 * tb(k, i + 3)
// what a boot sector at position p of tape k says
def B_BPS(k, p) = T16(k, p + 11)
def B_SPC(k, p) = tb(k, p + 13)
def B_SPF(k, p) = ite(T16(k, p + 22) != 0, T16(k, p + 22), T32(k, p + 36))
def B_TOT(k, p) = ite(T16(k, p + 19) != 0, T16(k, p + 19), T32(k, p + 32))
def B_ROOT(k, p) = bdiv(32 * T16(k, p + 17) + B_BPS(k, p) - 1, B_BPS(k, p))
def B_META(k, p) = T16(k, p + 14) + tb(k, p + 16) * B_SPF(k, p) + B_ROOT(k, p)
def B_CLUSTERS(k, p) = bdiv(B_TOT(k, p) - B_META(k, p), B_SPC(k, p))
def VERSION(n) = ite(n < 4085, 12, ite(n < 65525, 16, 32))
def B_SIZES(k, p) = (B_BPS(k, p) == 512 || B_BPS(k, p) == 1024 || B_BPS(k, p) == 2048 || B_BPS(k, p) == 4096) &&
  (B_SPC(k, p) == 1 || B_SPC(k, p) == 2 || B_SPC(k, p) == 4 || B_SPC(k, p) == 8 || B_SPC(k, p) == 16 || B_SPC(k, p) == 32 || B_SPC(k, p) == 64 || B_SPC(k, p) == 128) &&
  B_BPS(k, p) * B_SPC(k, p) <= 32768
def B_VALID(k, p) = B_SIZES(k, p) && B_META(k, p) <= B_TOT(k, p) && (VERSION(B_CLUSTERS(k, p)) != 32 || B_ROOT(k, p) == 0)

func DetermineFATVersion(n) (v)
  props C21
  ensures v == VERSION(n)

func NewFATBootSectorFromStream(reader) (b, err)
  props C21
  requires reader != nil && rlog(reader) >= 0
  modifies rlog(reader), spos(reader), iocalls(reader), seof(reader), sfailed(reader)
  ensures accepted: iff(err == nil, old(rlog(reader)) + 40 <= inend(tkey(reader)) && B_VALID(tkey(reader), old(rlog(reader))))
  ensures short: imp(old(rlog(reader)) + 40 > inend(tkey(reader)), is(err, disko.ErrIOFailed))
  ensures corrupt: imp(old(rlog(reader)) + 40 <= inend(tkey(reader)) && err != nil, is(err, disko.ErrFileSystemCorrupted))
  ensures consumed: imp(err == nil, b != nil && rlog(reader) == old(rlog(reader)) + 40)
  ensures raw: imp(err == nil, let(k, tkey(reader), let(p, old(rlog(reader)),
    forall(i, 0, 3, b.JmpBoot[i] == tb(k, p + i)) && forall(i, 0, 8, b.OEMName[i] == tb(k, p + 3 + i)) &&
    b.BytesPerSector == T16(k, p + 11) && b.SectorsPerCluster == tb(k, p + 13) && b.ReservedSectors == T16(k, p + 14) && b.NumFATs == tb(k, p + 16) &&
    b.RootEntryCount == T16(k, p + 17) && b.TotalSectors16 == T16(k, p + 19) && b.Media == tb(k, p + 21) && b.SectorsPerFAT16 == T16(k, p + 22) &&
    b.SectorsPerTrack == T16(k, p + 24) && b.NumHeads == T16(k, p + 26) && b.HiddenSectors == T32(k, p + 28) && b.TotalSectors32 == T32(k, p + 32))))
  ensures derived: imp(err == nil, let(k, tkey(reader), let(p, old(rlog(reader)),
    b.SectorsPerFAT == B_SPF(k, p) && b.TotalFATSectors == b.NumFATs * b.SectorsPerFAT && b.RootDirSectors == B_ROOT(k, p) &&
    b.BytesPerCluster == b.BytesPerSector * b.SectorsPerCluster && b.FirstDataSector == B_META(k, p) &&
    b.TotalDataSectors == B_TOT(k, p) - B_META(k, p) && b.TotalClusters == B_CLUSTERS(k, p) && b.FATVersion == VERSION(b.TotalClusters) &&
    32 * b.DirentsPerCluster == b.BytesPerCluster)))

// ---- directory entries
// the local time at which so many nanoseconds of a day have passed
fn civil(year, month, day, ns, loc) int
extern time.Date(year, month, day, hour, min, sec, nsec, loc) (t)
  ensures t == civil(year, month, day, ((hour * 60 + min) * 60 + sec) * 1000000000 + nsec, loc)
fn before(t, u) bool
extern (time.Time).Before(t, u) (r)
  ensures iff(r, before(t, u))
extern (time.Time).After(t, u) (r)
  ensures iff(r, before(u, t))
extern (time.Time).Compare(t, u) (r)
  ensures r >= -1 && r <= 1 && iff(r < 0, before(t, u)) && iff(r > 0, before(u, t))

def DATE(v) = civil(1980 + bdiv(v, 512), bdiv(v, 32) % 16, v % 32, 0, time.Local)
def STAMP(d, t, h) = civil(1980 + bdiv(d, 512), bdiv(d, 32) % 16, d % 32, ((bdiv(t, 2048) * 60 + bdiv(t, 32) % 64) * 60 + 2 * (t % 32)) * 1000000000 + 10000000 * h, time.Local)

func DateFromInt(value) (t)
  props C22 C23
  ensures t == DATE(value)
func TimestampFromParts(datePart, timePart, hundredths) (t)
  props C22 C23
  ensures t == STAMP(datePart, timePart, hundredths)

func AttrFlagsToFileMode(flags) (mode)
  props C22
  ensures mode == MODE(flags)

def BIT(x, p) = bdiv(x, p) % 2 == 1
def MODE(f) = ite(BIT(f, 1), 365, 511) + ite(BIT(f, 16), 2147483648, ite(BIT(f, 64), 69206016, 0))
def LE16(b, o) = b[o] + 256 * b[o + 1]
def LE32(b, o) = b[o] + 256 * b[o + 1] + 65536 * b[o + 2] + 16777216 * b[o + 3]

func NewRawDirentFromBytes(data) (r, err)
  props C22
  ensures size: iff(err == nil, len(data) >= 32)
  ensures short: imp(err != nil, is(err, disko.ErrInvalidArgument))
  ensures name: imp(err == nil, forall(k, 0, 8, r.Name[k] == data[k]) && forall(k, 0, 3, r.Extension[k] == data[8 + k]))
  ensures fields: imp(err == nil, r.AttributeFlags == data[11] && r.NTReserved == data[12] && r.CreatedTimeMillis == data[13] && r.CreatedTime == LE16(data, 14) && r.CreatedDate == LE16(data, 16) &&
    r.LastAccessedDate == LE16(data, 18) && r.FirstClusterHigh == LE16(data, 20) && r.LastModifiedTime == LE16(data, 22) && r.LastModifiedDate == LE16(data, 24) && r.FirstClusterLow == LE16(data, 26) && r.FileSize == LE32(data, 28))

// x is the name of an entry with name bytes b, extension bytes x; deleted entries keep the first byte in ms
def LEN8V(b0, b1, b2, b3, b4, b5, b6, b7) = ite(b7 != 32, 8, ite(b6 != 32, 7, ite(b5 != 32, 6, ite(b4 != 32, 5, ite(b3 != 32, 4, ite(b2 != 32, 3, ite(b1 != 32, 2, ite(b0 != 32, 1, 0))))))))
def LEN3V(x0, x1, x2) = ite(x2 != 32, 3, ite(x1 != 32, 2, ite(x0 != 32, 1, 0)))
def NAMEDV(name, b0, b1, b2, b3, b4, b5, b6, b7, x0, x1, x2, ms) = let(n, LEN8V(b0, b1, b2, b3, b4, b5, b6, b7), let(m, LEN3V(x0, x1, x2), len(name) == n + ite(m > 0, 1 + m, 0) &&
  imp(n > 0, name[0] == ite(b0 == 229, ms, ite(b0 == 5, 229, b0))) && imp(n > 1, name[1] == b1) && imp(n > 2, name[2] == b2) && imp(n > 3, name[3] == b3) && imp(n > 4, name[4] == b4) && imp(n > 5, name[5] == b5) && imp(n > 6, name[6] == b6) && imp(n > 7, name[7] == b7) &&
  imp(m > 0, name[n] == 46) && imp(m > 0, name[n + 1] == x0) && imp(m > 1, name[n + 2] == x1) && imp(m > 2, name[n + 3] == x2)))
// fatname(b, x, ms) is the only such string
fn isname(name, b0, b1, b2, b3, b4, b5, b6, b7, x0, x1, x2, ms) bool
fn fatname(b0, b1, b2, b3, b4, b5, b6, b7, x0, x1, x2, ms) str
axiom isName {name, b0, b1, b2, b3, b4, b5, b6, b7, x0, x1, x2, ms; isname(name, b0, b1, b2, b3, b4, b5, b6, b7, x0, x1, x2, ms)}: iff(isname(name, b0, b1, b2, b3, b4, b5, b6, b7, x0, x1, x2, ms), NAMEDV(name, b0, b1, b2, b3, b4, b5, b6, b7, x0, x1, x2, ms))
axiom theName {name, b0, b1, b2, b3, b4, b5, b6, b7, x0, x1, x2, ms; isname(name, b0, b1, b2, b3, b4, b5, b6, b7, x0, x1, x2, ms)}: imp(isname(name, b0, b1, b2, b3, b4, b5, b6, b7, x0, x1, x2, ms), name == fatname(b0, b1, b2, b3, b4, b5, b6, b7, x0, x1, x2, ms))
// d has the fields of an entry
def FIELDS(d, bpc, deleted, attr, nt, ms, ct, cd, ad, hi, mt, md, lo, size) = d.size == size && d.stat.Size == size && d.stat.BlockSize == bpc && d.stat.NumBlocks == bdiv(size + bpc - 1, bpc) &&
  d.FirstCluster == 65536 * hi + lo && d.stat.InodeNumber == 65536 * hi + lo && d.AttributeFlags == attr && d.NTReserved == nt && iff(d.isDeleted, deleted) && d.mode == MODE(attr) && d.stat.ModeFlags == MODE(attr) &&
  d.stat.Nlinks == 1 && d.stat.Uid == 0 && d.stat.Gid == 0
def TIMES(d, ms, ct, cd, ad, mt, md) = d.stat.LastAccessed == DATE(ad) && d.stat.LastModified == STAMP(md, mt, 0) && imp(!d.isDeleted, d.stat.CreatedAt == STAMP(cd, ct, ms))

func NewDirentFromRaw(bootSector, rawDirent) (d, err)
  props C22
  requires bootSector != nil && bootSector.BytesPerCluster >= 1 && bootSector.BytesPerCluster <= 32768 && rawDirent != nil
  ensures free: iff(err != nil, rawDirent.Name[0] == 0)
  ensures notfound: imp(err != nil, is(err, disko.ErrNotFound) && typeis(err, "github.com/dargueta/disko.DriverError"))
  ensures fields: imp(err == nil, FIELDS(d, bootSector.BytesPerCluster, rawDirent.Name[0] == 229, rawDirent.AttributeFlags, rawDirent.NTReserved, rawDirent.CreatedTimeMillis, rawDirent.CreatedTime, rawDirent.CreatedDate, rawDirent.LastAccessedDate, rawDirent.FirstClusterHigh, rawDirent.LastModifiedTime, rawDirent.LastModifiedDate, rawDirent.FirstClusterLow, rawDirent.FileSize))
  ensures times: imp(err == nil, TIMES(d, rawDirent.CreatedTimeMillis, rawDirent.CreatedTime, rawDirent.CreatedDate, rawDirent.LastAccessedDate, rawDirent.LastModifiedTime, rawDirent.LastModifiedDate))
  ensures named: imp(err == nil, isname(d.name, rawDirent.Name[0], rawDirent.Name[1], rawDirent.Name[2], rawDirent.Name[3], rawDirent.Name[4], rawDirent.Name[5], rawDirent.Name[6], rawDirent.Name[7], rawDirent.Extension[0], rawDirent.Extension[1], rawDirent.Extension[2], rawDirent.CreatedTimeMillis))
  ensures name: imp(err == nil, d.name == fatname(rawDirent.Name[0], rawDirent.Name[1], rawDirent.Name[2], rawDirent.Name[3], rawDirent.Name[4], rawDirent.Name[5], rawDirent.Name[6], rawDirent.Name[7], rawDirent.Extension[0], rawDirent.Extension[1], rawDirent.Extension[2], rawDirent.CreatedTimeMillis))

// ---- timestamps of an entry
func (d *Dirent) SetLastAccessedAt(t) (err)
  props C23
  modifies d.stat.LastAccessed
  ensures early: iff(err != nil, before(t, fatEpoch))
  ensures refused: imp(err != nil, is(err, disko.ErrArgumentOutOfRange) && unchanged(d.stat.LastAccessed))
  ensures set: imp(err == nil, d.stat.LastAccessed == t)
func (d *Dirent) SetLastModifiedAt(t) (err)
  props C23
  modifies d.stat.LastModified
  ensures early: iff(err != nil, before(t, fatEpoch))
  ensures refused: imp(err != nil, is(err, disko.ErrArgumentOutOfRange) && unchanged(d.stat.LastModified))
  ensures set: imp(err == nil, d.stat.LastModified == t)
func (d *Dirent) SetCreatedAt(t) (err)
  props C23
  modifies d.stat.CreatedAt
  ensures early: iff(err != nil, before(t, fatEpoch) || d.isDeleted)
  ensures refused: imp(err != nil, imp(before(t, fatEpoch), is(err, disko.ErrArgumentOutOfRange)) && unchanged(d.stat.CreatedAt))
  ensures set: imp(err == nil, d.stat.CreatedAt == t)
func (d *Dirent) SetDeletedAt(t) (err)
  props C23
  modifies d.stat.DeletedAt, d.isDeleted
  ensures early: iff(err != nil, before(t, fatEpoch))
  ensures refused: imp(err != nil, is(err, disko.ErrArgumentOutOfRange) && unchanged(d.stat.DeletedAt) && iff(d.isDeleted, old(d.isDeleted)))
  ensures set: imp(err == nil, d.stat.DeletedAt == t && d.isDeleted)
func (d *Dirent) GetLastAccessedAt() (t)
  props C23
  ensures t == d.stat.LastAccessed
func (d *Dirent) GetLastModifiedAt() (t)
  props C23
  ensures t == d.stat.LastModified
func (d *Dirent) GetCreatedAt() (t, err)
  props C23
  ensures available: iff(err == nil, !d.isDeleted)
  ensures value: imp(err == nil, t == d.stat.CreatedAt)
func (d *Dirent) GetDeletedAt() (t, err)
  props C23
  ensures available: iff(err == nil, d.isDeleted)
  ensures value: imp(err == nil, t == d.stat.DeletedAt)

// ---- the volume
// What the version-specific driver s works on: a table of clusters and a disk image, which
// do not change while an operation reads them.
fn valid(s, c) bool
fn eoc(s, c) bool
fn fatnext(s, c) int
fn fatok(s, c) bool
fn diskof(s) int
fn db(k, m) u8
fn dlen(k) int
fn bps(s) int
fn spc(s) int
fn bpc(s) int
fn fds(s) int
fn ncl(s) int
fn dpc(s) int
axiom validRange {s, c; valid(s, c)}: imp(valid(s, c), 2 <= c && c < ncl(s) + 2)

iface (github.com/dargueta/disko/file_systems/fat.FATDriverCommon).GetBootSector(s) (b)
  pure
// the table, and the directories, are no longer what they were
ghost fatdirty(s) int
ghost dirdirty(s) int

iface (github.com/dargueta/disko/file_systems/fat.FATDriverCommon).IsValidCluster(s, c) (r)
  ensures iff(r, valid(s, c))
iface (github.com/dargueta/disko/file_systems/fat.FATDriverCommon).IsEndOfChain(s, c) (r)
  ensures iff(r, eoc(s, c))
iface (github.com/dargueta/disko/file_systems/fat.FATDriverCommon).GetClusterAtIndex(s, i) (c, err)
  ensures imp(fatdirty(s) == 0, iff(err == nil, fatok(s, i)) && imp(err == nil, c == fatnext(s, i)))
iface (github.com/dargueta/disko/file_systems/fat.FATDriverCommon).GetNextClusterInChain(s, i) (c, err)
  ensures imp(fatdirty(s) == 0, iff(err == nil, fatok(s, i)) && imp(err == nil, c == fatnext(s, i)))

iface (io.ReaderAt).ReadAt(s, p, o) (n, err)
  modifies elems(p), sfailed(s)
  ensures 0 <= n && n <= len(p) && imp(n < len(p), err != nil)
  ensures forall(k, 0, n, p[k] == db(s, o + k))
  ensures imp(n > 0, o + n <= dlen(s))
  ensures imp(old(sfailed(s)), sfailed(s)) && imp(n < len(p) && o >= 0 && o + len(p) <= dlen(s), sfailed(s))

// the boot sector describes a volume that fits the specification
def VOL(s, b) = s != nil && b != nil && b.BytesPerSector == bps(s) && b.SectorsPerCluster == spc(s) && b.BytesPerCluster == bpc(s) && b.FirstDataSector == fds(s) && b.TotalClusters == ncl(s) && b.DirentsPerCluster == dpc(s) &&
  bps(s) >= 512 && bps(s) <= 4096 && spc(s) >= 1 && spc(s) <= 128 && bpc(s) == bps(s) * spc(s) && bpc(s) <= 32768 && 32 * dpc(s) == bpc(s) && fds(s) + spc(s) * ncl(s) <= 4294967295
def TABLE(d) = VOL(d.fs, d.fs.GetBootSector()) && diskof(d.fs) == obj(d.diskFile) && typeis(d.diskFile, "io.ReaderAt") && fatdirty(d.fs) == 0
def DRV(d) = TABLE(d) && dirdirty(d.fs) == 0
// where cluster c starts on the disk
fn cpos(s, c) int
axiom clusterPos {s, c; cpos(s, c)}: imp(valid(s, c), cpos(s, c) == bps(s) * (fds(s) + spc(s) * (c - 2)))

// the k-th cluster of the chain starting with c, and how many clusters it has
fn chain(s, c, k) int
fn clen(s, c) int
axiom chain0 {s, c; chain(s, c, 0)}: chain(s, c, 0) == c
axiom chainNext {s, c, k; fatnext(s, chain(s, c, k))}: imp(k >= 0, chain(s, c, k + 1) == fatnext(s, chain(s, c, k)))
axiom chainLen {s, c, k; clen(s, c), chain(s, c, k)}: imp(k >= 0 && eoc(s, chain(s, c, k)) && forall(j, 0, k, !eoc(s, chain(s, c, j))), clen(s, c) == k)
// the first n clusters of a chain are clusters
def GOOD(s, c, n) = forall(k, 0, n, valid(s, chain(s, c, k)) && !eoc(s, chain(s, c, k)) && fatok(s, chain(s, c, k)))

def ENDS(s, c, n) = n >= 0 && GOOD(s, c, n) && eoc(s, chain(s, c, n))
def CHAINOK(s, c) = clen(s, c) <= ncl(s) && ENDS(s, c, clen(s, c))

func (drv *FATDriver) getFirstSectorOfCluster(cluster) (sector, err)
  props C24 C25
  requires TABLE(drv) && valid(drv.fs, cluster)
  ensures err == nil && bps(drv.fs) * sector == cpos(drv.fs, cluster)

func (drv *FATDriver) readAbsoluteSectors(sector, numSectors) (r, err)
  props C24 C25
  requires DRV(drv) && numSectors <= 4294967296
  modifies sfailed(diskof(drv.fs))
  ensures content: imp(err == nil, len(r) == bps(drv.fs) * numSectors && forall(k, 0, len(r), r[k] == db(diskof(drv.fs), bps(drv.fs) * sector + k)))
  ensures failure: imp(old(sfailed(diskof(drv.fs))), sfailed(diskof(drv.fs))) && imp(err != nil && bps(drv.fs) * (sector + numSectors) <= dlen(diskof(drv.fs)), sfailed(diskof(drv.fs)))

func (drv *FATDriver) readCluster(cluster) (r, err)
  props C24 C25
  requires DRV(drv) && valid(drv.fs, cluster)
  modifies sfailed(diskof(drv.fs))
  ensures content: imp(err == nil, len(r) == bpc(drv.fs) && forall(k, 0, len(r), r[k] == db(diskof(drv.fs), cpos(drv.fs, cluster) + k)))
  ensures failure: imp(old(sfailed(diskof(drv.fs))), sfailed(diskof(drv.fs))) && imp(err != nil && cpos(drv.fs, cluster) + bpc(drv.fs) <= dlen(diskof(drv.fs)), sfailed(diskof(drv.fs)))

func (drv *FATDriver) listClusters(chainStart) (r, err)
  props C24 C25
  requires TABLE(drv)
  terminates
  ensures start: imp(!valid(drv.fs, chainStart) && !eoc(drv.fs, chainStart), is(err, disko.ErrInvalidArgument))
  ensures chain: imp(err == nil, off(r) == 0 && len(r) <= ncl(drv.fs) && forall(k, 0, len(r), r[k] == chain(drv.fs, chainStart, k)))
  ensures good: imp(err == nil, GOOD(drv.fs, chainStart, len(r)))
  ensures whole: imp(err == nil, eoc(drv.fs, chain(drv.fs, chainStart, len(r))))
  ensures length: imp(err == nil, len(r) == clen(drv.fs, chainStart))
  ensures all: iff(err == nil, CHAINOK(drv.fs, chainStart))
  ensures corrupt: imp(err != nil && (valid(drv.fs, chainStart) || eoc(drv.fs, chainStart)), exists(n, 0 <= n && n <= ncl(drv.fs) && GOOD(drv.fs, chainStart, n) && (!fatok(drv.fs, chain(drv.fs, chainStart, n)) || is(err, disko.ErrFileSystemCorrupted) && (n == ncl(drv.fs) || !valid(drv.fs, chain(drv.fs, chainStart, n))))))
  inv 0 <= $i && $i <= ncl(drv.fs)
  inv forall(k, 0, len($s), $s[k] == chain(drv.fs, chainStart, k))
  inv GOOD(drv.fs, chainStart, $i)
  inv $v == chain(drv.fs, chainStart, $i)
  inv valid(drv.fs, $v) || eoc(drv.fs, $v)
  inv off($s) == 0 && len($s) == $i

func (drv *FATDriver) getClusterInChain(firstCluster, index) (c, err)
  props C24
  requires TABLE(drv)
  terminates
  ensures start: imp(!valid(drv.fs, firstCluster) || eoc(drv.fs, firstCluster), is(err, disko.ErrInvalidArgument))
  ensures element: imp(err == nil, c == chain(drv.fs, firstCluster, index) && valid(drv.fs, c) && GOOD(drv.fs, firstCluster, index) && !eoc(drv.fs, c))
  ensures failure: imp(err != nil, c == 0)
  ensures past: imp(err != nil && valid(drv.fs, firstCluster) && !eoc(drv.fs, firstCluster), exists(n, 0 <= n && n < index && GOOD(drv.fs, firstCluster, n) && (!fatok(drv.fs, chain(drv.fs, firstCluster, n)) || is(err, disko.ErrInvalidArgument) && eoc(drv.fs, chain(drv.fs, firstCluster, n + 1)) || is(err, disko.ErrFileSystemCorrupted) && !eoc(drv.fs, chain(drv.fs, firstCluster, n + 1)) && !valid(drv.fs, chain(drv.fs, firstCluster, n + 1)))))
  inv 0 <= $i && $i <= index
  inv GOOD(drv.fs, firstCluster, $i)
  inv $v == chain(drv.fs, firstCluster, $i)
  inv valid(drv.fs, $v) && !eoc(drv.fs, $v)

func (drv *FATDriver) readClusterOfDirent(dirent, index) (r, err)
  props C24
  requires DRV(drv) && dirent != nil
  modifies sfailed(diskof(drv.fs))
  ensures content: imp(err == nil, len(r) == bpc(drv.fs) && forall(k, 0, len(r), r[k] == db(diskof(drv.fs), cpos(drv.fs, chain(drv.fs, dirent.FirstCluster, index)) + k)))
  ensures good: imp(err == nil, GOOD(drv.fs, dirent.FirstCluster, index))

// ---- directories
func (drv *FATDriver) clusterToDirentSlice(data) (r, err)
  props C22 C25
  requires DRV(drv) && len(data) == bpc(drv.fs)
  ensures total: err == nil
  ensures exact: len(r) <= dpc(drv.fs) && off(r) == 0 && imp(len(r) > 0, fresh(r)) && imp(len(r) < dpc(drv.fs), data[32 * len(r)] == 0)
  ensures fields: forall(i, 0, len(r), RAWFIELDS(r[i], bpc(drv.fs), data, 32 * i) && data[32 * i] != 0)
  ensures names: forall(i, 0, len(r), RAWNAMED(r[i], data, 32 * i))
  inv 0 <= $i && $i <= dpc(drv.fs)
  inv len($s) == $i && off($s) == 0
  inv forall(i, 0, len($s), RAWFIELDS($s[i], bpc(drv.fs), data, 32 * i) && data[32 * i] != 0)
  inv forall(i, 0, len($s), RAWNAMED($s[i], data, 32 * i))

// d is the entry in the bytes b[o..]
def RAWFIELDS(d, bpc, b, o) = FIELDS(d, bpc, b[o] == 229, b[o + 11], b[o + 12], b[o + 13], LE16(b, o + 14), LE16(b, o + 16), LE16(b, o + 18), LE16(b, o + 20), LE16(b, o + 22), LE16(b, o + 24), LE16(b, o + 26), LE32(b, o + 28))
def RAWNAMED(d, b, o) = d.name == fatname(b[o + 0], b[o + 1], b[o + 2], b[o + 3], b[o + 4], b[o + 5], b[o + 6], b[o + 7], b[o + 8], b[o + 9], b[o + 10], b[o + 13])

// The entries of the directory starting with cluster c (0: the root directory) are
// numbered; entry j is at dent(s, c, j) on the disk, or anything not on the disk.
fn dent(s, c, j) int
fn dcount(s, c) int
fn rootok(s) bool
axiom direntPos {s, c, j, k; dent(s, c, j), chain(s, c, k)}: imp(c != 0 && k >= 0 && dpc(s) * k <= j && j < dpc(s) * k + dpc(s), dent(s, c, j) == cpos(s, chain(s, c, k)) + 32 * (j - dpc(s) * k))
// a directory ends with its first free entry, or its last cluster
fn isend(s, c, n) bool
axiom direntEnd {s, c, n; isend(s, c, n)}: imp(c != 0, iff(isend(s, c, n), 0 <= n && n <= dpc(s) * clen(s, c) && (n == dpc(s) * clen(s, c) || db(diskof(s), dent(s, c, n)) == 0) && forall(j, 0, n, db(diskof(s), dent(s, c, j)) != 0)))
axiom direntCount {s, c, n; isend(s, c, n)}: imp(c != 0 && isend(s, c, n), dcount(s, c) == n)
// what the entry e is: its bytes, if it's on the disk
fn ename(s, e) str
fn efirst(s, e) int
fn esize(s, e) int
fn eattr(s, e) int
fn edel(s, e) bool
axiom entryFirst {s, e; efirst(s, e)}: imp(e >= 0, let(k, diskof(s), efirst(s, e) == 65536 * D16(k, e + 20) + D16(k, e + 26)))
axiom entrySize {s, e; esize(s, e)}: esize(s, e) >= 0 && imp(e >= 0, let(k, diskof(s), esize(s, e) == D16(k, e + 28) + 65536 * D16(k, e + 30)))
axiom entryAttr {s, e; eattr(s, e)}: imp(e >= 0, eattr(s, e) == db(diskof(s), e + 11))
axiom entryDeleted {s, e; edel(s, e)}: imp(e >= 0, iff(edel(s, e), db(diskof(s), e) == 229))
axiom entryName {s, e; ename(s, e)}: imp(e >= 0, let(k, diskof(s), ename(s, e) == fatname(db(k, e + 0), db(k, e + 1), db(k, e + 2), db(k, e + 3), db(k, e + 4), db(k, e + 5), db(k, e + 6), db(k, e + 7), db(k, e + 8), db(k, e + 9), db(k, e + 10), db(k, e + 13))))
def D16(k, p) = db(k, p) + 256 * db(k, p + 1)
// d is entry e
def ENTRY(d, s, e) = d.name == ename(s, e) && ENTRYFIELDS(d, s, e)
def ENTRYFIELDS(d, s, e) = d.FirstCluster == efirst(s, e) && d.size == esize(s, e) && d.AttributeFlags == eattr(s, e) && iff(d.isDeleted, edel(s, e)) && d.mode == MODE(eattr(s, e)) &&
  d.stat.Size == esize(s, e) && d.stat.InodeNumber == efirst(s, e) && d.stat.ModeFlags == MODE(eattr(s, e)) && d.stat.BlockSize == bpc(s) && d.stat.NumBlocks == bdiv(esize(s, e) + bpc(s) - 1, bpc(s)) && d.stat.Nlinks == 1
def ISDIR(m) = BIT(m, 2147483648)
// the image holds all of the volume
def COMPLETE(s) = bps(s) * (fds(s) + spc(s) * ncl(s)) <= dlen(diskof(s))

iface (github.com/dargueta/disko/file_systems/fat.FATDriverCommon).ListRootDirectory(s) (r, err)
  ensures imp(dirdirty(s) == 0, iff(err == nil, rootok(s)))
  ensures imp(dirdirty(s) == 0 && err == nil, len(r) == dcount(s, 0) && forall(j, 0, len(r), ENTRY(r[j], s, dent(s, 0, j))))

func (d Dirent) IsDir() (r)
  props C22 C25
  ensures iff(r, ISDIR(d.mode))

func (drv *FATDriver) readDirFromDirent(dir) (r, err)
  props C22 C25
  requires DRV(drv) && dir != nil
  modifies sfailed(diskof(drv.fs))
  ensures notdir: imp(!ISDIR(dir.mode), is(err, disko.ErrNotADirectory))
  ensures end: imp(err == nil && dir.FirstCluster != 0 && forall(j, 0, len(r), db(diskof(drv.fs), dent(drv.fs, dir.FirstCluster, j)) != 0), isend(drv.fs, dir.FirstCluster, len(r)))
  ensures count: imp(err == nil && imp(dir.FirstCluster != 0, isend(drv.fs, dir.FirstCluster, len(r))), len(r) == dcount(drv.fs, dir.FirstCluster))
  ensures entries: imp(err == nil, forall(j, 0, len(r), ENTRY(r[j], drv.fs, dent(drv.fs, dir.FirstCluster, j)) && imp(dir.FirstCluster != 0, db(diskof(drv.fs), dent(drv.fs, dir.FirstCluster, j)) != 0)))
  ensures onlydirs: imp(err == nil, ISDIR(dir.mode) && imp(dir.FirstCluster == 0, rootok(drv.fs)))
  ensures root: imp(err != nil && ISDIR(dir.mode) && dir.FirstCluster == 0, !rootok(drv.fs))
  ensures failure: imp(old(sfailed(diskof(drv.fs))), sfailed(diskof(drv.fs)))
  ensures complete: imp(err != nil && ISDIR(dir.mode) && dir.FirstCluster != 0 && CHAINOK(drv.fs, dir.FirstCluster) && COMPLETE(drv.fs), sfailed(diskof(drv.fs)))
  inv imp(old(sfailed(diskof(drv.fs))), sfailed(diskof(drv.fs)))
  inv len($s) == dpc(drv.fs) * $i && off($s) == 0
  inv len($s) == dpc(drv.fs) * $i && forall(j, 0, len($s), ENTRYFIELDS($s[j], drv.fs, dent(drv.fs, dir.FirstCluster, j)) && db(diskof(drv.fs), dent(drv.fs, dir.FirstCluster, j)) != 0)
  inv len($s) == dpc(drv.fs) * $i && forall(j, 0, len($s), $s[j].name == ename(drv.fs, dent(drv.fs, dir.FirstCluster, j)))

// ---- paths
fn npart(s) int
fn part(s, i) str
extern path.Clean(p) (r)
  pure
  ensures imp(len(p) > 0 && p[0] == 47, len(r) > 0 && r[0] == 47)
extern path/filepath.ToSlash(p) (r)
  pure
extern strings.Split(s, sep) (r)
  ensures imp(len(sep) == 1 && sep[0] == 47, fresh(r) && off(r) == 0 && len(r) == npart(s) && len(r) >= 1 && forall(i, 0, len(r), r[i] == part(s, i)))

// the first existing entry with the name x in directory c
fn found(s, c, x) int
axiom firstFound {s, c, x; found(s, c, x)}: found(s, c, x) >= -1 && imp(found(s, c, x) >= 0, found(s, c, x) < dcount(s, c) && !edel(s, dent(s, c, found(s, c, x))) && ename(s, dent(s, c, found(s, c, x))) == x) &&
  forall(j, 0, ite(found(s, c, x) >= 0, found(s, c, x), dcount(s, c)), edel(s, dent(s, c, j)) || ename(s, dent(s, c, j)) != x)
// the directory in which component i of path q is looked up, and the entry it denotes
fn wdir(s, q, i) int
fn went(s, q, i) int
axiom walkStart {s, q; npart(q), rootok(s)}: wdir(s, q, 0) == 0
axiom walkEntry {s, q, i; went(s, q, i)}: went(s, q, i) == dent(s, wdir(s, q, i), found(s, wdir(s, q, i), part(q, i)))
axiom walkNext {s, q, i; went(s, q, i)}: imp(i >= 0, wdir(s, q, i + 1) == efirst(s, went(s, q, i)))
def CLEANED(p) = path.Clean(concat("/", filepath.ToSlash(p)))
def PARTS(p) = substr(CLEANED(p), 1, len(CLEANED(p)))
// components before n exist, and all but the last of them are directories
def WALK(s, q, n) = forall(i, 0, n, found(s, wdir(s, q, i), part(q, i)) >= 0 && went(s, q, i) == went(s, q, i)) && forall(i, 1, n, ISDIR(MODE(eattr(s, went(s, q, i - 1)))))
def ISROOT(d) = d.FirstCluster == 0 && ISDIR(d.mode) && ISDIR(d.stat.ModeFlags) && d.size == 0 && !d.isDeleted && d.name == "/"

// err says why a path cannot be resolved
def UNRESOLVED(err, s, q) = !rootok(s) || exists(i, 0 <= i && i < npart(q) && WALK(s, q, i) && (
    is(err, disko.ErrNotFound) && found(s, wdir(s, q, i), part(q, i)) < 0 ||
    is(err, disko.ErrNotADirectory) && i > 0 && !ISDIR(MODE(eattr(s, went(s, q, i - 1)))) ||
    wdir(s, q, i) == 0 && !rootok(s) ||
    wdir(s, q, i) != 0 && !CHAINOK(s, wdir(s, q, i)) ||
    !COMPLETE(s) || sfailed(diskof(s))))

func (drv *FATDriver) resolvePathToDirent(p) (d, err)
  props C25
  requires DRV(drv)
  modifies sfailed(diskof(drv.fs))
  ensures root: imp(CLEANED(p) == "/", err == nil && ISROOT(d))
  ensures walked: imp(err == nil && CLEANED(p) != "/", WALK(drv.fs, PARTS(p), npart(PARTS(p))))
  ensures found: imp(err == nil && CLEANED(p) != "/", ENTRY(d, drv.fs, went(drv.fs, PARTS(p), npart(PARTS(p)) - 1)))
  ensures exists: imp(err == nil && CLEANED(p) != "/", !d.isDeleted && d.name == part(PARTS(p), npart(PARTS(p)) - 1))
  ensures missing: imp(err != nil, UNRESOLVED(err, drv.fs, PARTS(p)))
  ensures failure: imp(old(sfailed(diskof(drv.fs))), sfailed(diskof(drv.fs)))
  inv imp(old(sfailed(diskof(drv.fs))), sfailed(diskof(drv.fs)))
  inv @1 WALK(drv.fs, PARTS(p), $i)
  inv @1 imp($i < 1, len($s) == dcount(drv.fs, 0) && forall(j, 0, len($s), ENTRY($s[j], drv.fs, dent(drv.fs, 0, j))))
  inv @1 imp($i >= 1, ENTRY($p, drv.fs, went(drv.fs, PARTS(p), $i - 1)) && !$p.isDeleted && $p.name == part(PARTS(p), $i - 1))
  hole 0 <= $ni && $ni < npart(PARTS(p))
  inv @2 forall(j, 0, $i, $s[j].isDeleted || $s[j].name != part(PARTS(p), $ni))

// the entry a path denotes
def LASTOF(s, p) = went(s, PARTS(p), npart(PARTS(p)) - 1)
// p leads to an entry
def RESOLVED(s, p) = CLEANED(p) != "/" && WALK(s, PARTS(p), npart(PARTS(p)))

// ---- files
// where byte m of the file starting with cluster c is
fn fpos(s, c, m) int
axiom filePos {s, c, m, k; fpos(s, c, m), chain(s, c, k)}: imp(k >= 0 && bpc(s) * k <= m && m < bpc(s) * k + bpc(s), fpos(s, c, m) == cpos(s, chain(s, c, k)) + m - bpc(s) * k)
// a file without content may have no clusters
def NONE(s, e) = efirst(s, e) == 0 && esize(s, e) == 0

extern (*bytes.Buffer).Write(b, p) (n, err)
  modifies blen(b)
  ensures n == len(p) && err == nil && blen(b) == old(blen(b)) + len(p)
  ensures forall(k, 0, len(p), tb(wkey(b), old(blen(b)) + k) == p[k])

func (drv *FATDriver) listClustersOfDirent(dirent) (r, err)
  props C24 C25
  requires TABLE(drv) && dirent != nil
  ensures none: imp(dirent.FirstCluster == 0 && dirent.size == 0, err == nil && len(r) == 0)
  ensures chain: imp(err == nil && (dirent.FirstCluster != 0 || dirent.size != 0), off(r) == 0 && len(r) == clen(drv.fs, dirent.FirstCluster) && forall(k, 0, len(r), r[k] == chain(drv.fs, dirent.FirstCluster, k)))
  ensures all: imp(dirent.FirstCluster != 0 || dirent.size != 0, iff(err == nil, CHAINOK(drv.fs, dirent.FirstCluster)))
  ensures corrupt: imp(err != nil && forall(k, 0, ncl(drv.fs) + 1, fatok(drv.fs, chain(drv.fs, dirent.FirstCluster, k))), is(err, disko.ErrFileSystemCorrupted) || is(err, disko.ErrInvalidArgument))

func (drv *FATDriver) ReadFile(p) (r, err)
  props C24
  requires DRV(drv)
  modifies sfailed(diskof(drv.fs))
  ensures file: imp(err == nil, RESOLVED(drv.fs, p) && !ISDIR(MODE(eattr(drv.fs, LASTOF(drv.fs, p)))))
  ensures size: imp(err == nil, len(r) == esize(drv.fs, LASTOF(drv.fs, p)))
  ensures content: imp(err == nil, forall(m, 0, len(r), r[m] == db(diskof(drv.fs), fpos(drv.fs, efirst(drv.fs, LASTOF(drv.fs, p)), m))))
  ensures chain: imp(err == nil && !NONE(drv.fs, LASTOF(drv.fs, p)), CHAINOK(drv.fs, efirst(drv.fs, LASTOF(drv.fs, p))) && len(r) <= bpc(drv.fs) * clen(drv.fs, efirst(drv.fs, LASTOF(drv.fs, p))))
  ensures failure: imp(err != nil, CLEANED(p) == "/" || UNRESOLVED(err, drv.fs, PARTS(p)) || RESOLVED(drv.fs, p) && (
    ISDIR(MODE(eattr(drv.fs, LASTOF(drv.fs, p)))) && is(err, disko.ErrIsADirectory) ||
    !NONE(drv.fs, LASTOF(drv.fs, p)) && !CHAINOK(drv.fs, efirst(drv.fs, LASTOF(drv.fs, p))) ||
    bpc(drv.fs) * clen(drv.fs, efirst(drv.fs, LASTOF(drv.fs, p))) < esize(drv.fs, LASTOF(drv.fs, p)) && is(err, disko.ErrFileSystemCorrupted) ||
    !COMPLETE(drv.fs) || sfailed(diskof(drv.fs))))
  inv imp(old(sfailed(diskof(drv.fs))), sfailed(diskof(drv.fs)))
  inv $x == esize(drv.fs, LASTOF(drv.fs, p)) - bpc(drv.fs) * $i
  inv $x == esize(drv.fs, LASTOF(drv.fs, p)) - min(bpc(drv.fs) * $i, esize(drv.fs, LASTOF(drv.fs, p)))
  hole blen($p) == 0
  inv blen($p) == min(bpc(drv.fs) * $i, esize(drv.fs, LASTOF(drv.fs, p)))
  inv forall(m, 0, blen($p), tb(wkey($p), m) == db(diskof(drv.fs), fpos(drv.fs, efirst(drv.fs, LASTOF(drv.fs, p)), m)))

// ---- changes
// Clusters of a chain with an end are different: if two were the same, all that follow
// them would be, too, up to the end of the chain.
def DISTINCT(s, c, i, j, n) = imp(0 <= i && i < j && j <= n && ENDS(s, c, n), chain(s, c, i) != chain(s, c, j))
func verifDistinct(s, c, i, j, n) ()
  props C25
  ensures DISTINCT(s, c, i, j, n)
  inv imp(0 <= i && i < j && j <= n && ENDS(s, c, n) && chain(s, c, i) == chain(s, c, j), $v >= j && $v <= n && chain(s, c, $v - (j - i)) == chain(s, c, $v) && fatnext(s, chain(s, c, $v - (j - i))) == fatnext(s, chain(s, c, $v)))
// so every one of them has its index
fn cidx(s, c, x) int
axiom chainIndex {s, c, k; cidx(s, c, chain(s, c, k))} by verifDistinct: imp(CHAINOK(s, c) && 0 <= k && k < clen(s, c), cidx(s, c, chain(s, c, k)) == k)
def INCHAIN(s, c, x) = 0 <= cidx(s, c, x) && cidx(s, c, x) < clen(s, c) && chain(s, c, cidx(s, c, x)) == x

// what was deleted, updated and freed
ghost dcalls(s) int
ghost dname(s) str
ghost dfirst(s) int
ghost dparent(s) int
ghost dfrees(s) int
ghost ucalls(s) int
ghost uname(s) str
ghost ufirst(s) int
ghost uatime(s) int
ghost umtime(s) int
ghost frees(s, c) int
ghost nfrees(s) int
ghost refused(s) bool
// the identity of a point in time
fn tid(t) int

iface (github.com/dargueta/disko/file_systems/fat.FATDriverCommon).DeleteDirent(s, d, parent) (err)
  modifies dcalls(s), dname(s), dfirst(s), dparent(s), dfrees(s), dirdirty(s), refused(s)
  ensures dcalls(s) == old(dcalls(s)) + 1 && iff(refused(s), old(refused(s)) || err != nil)
  ensures dname(s) == old(d.name) && dfirst(s) == old(d.FirstCluster) && dparent(s) == old(parent.FirstCluster) && dfrees(s) == old(nfrees(s))
iface (github.com/dargueta/disko/file_systems/fat.FATDriverCommon).UpdateDirent(s, d) (err)
  modifies ucalls(s), uname(s), ufirst(s), uatime(s), umtime(s), dirdirty(s), refused(s)
  ensures ucalls(s) == old(ucalls(s)) + 1 && iff(refused(s), old(refused(s)) || err != nil)
  ensures uname(s) == old(d.name) && ufirst(s) == old(d.FirstCluster) && uatime(s) == old(tid(d.stat.LastAccessed)) && umtime(s) == old(tid(d.stat.LastModified))
iface (github.com/dargueta/disko/file_systems/fat.FATDriverCommon).FreeCluster(s, c) (err)
  modifies frees(s), nfrees(s), fatdirty(s), refused(s)
  ensures forall(x, frees(s, x) == old(frees(s, x)) + ite(x == c, 1, 0)) && nfrees(s) == old(nfrees(s)) + 1 && iff(refused(s), old(refused(s)) || err != nil)

// the directory p is in
def PARENT(p) = path.Dir(CLEANED(p))
def DIRFIRST(s, p) = ite(CLEANED(p) == "/", 0, efirst(s, LASTOF(s, p)))

extern path.Dir(p) (r)
  pure

func (drv *FATDriver) Remove(p) (err)
  props C25
  requires DRV(drv)
  modifies sfailed(diskof(drv.fs)), dcalls(drv.fs), dname(drv.fs), dfirst(drv.fs), dparent(drv.fs), dfrees(drv.fs), dirdirty(drv.fs), frees(drv.fs), nfrees(drv.fs), fatdirty(drv.fs), refused(drv.fs)
  ensures file: imp(dcalls(drv.fs) != old(dcalls(drv.fs)), RESOLVED(drv.fs, p) && !ISDIR(MODE(eattr(drv.fs, LASTOF(drv.fs, p)))))
  ensures once: dcalls(drv.fs) <= old(dcalls(drv.fs)) + 1 && imp(err == nil, dcalls(drv.fs) == old(dcalls(drv.fs)) + 1 && iff(refused(drv.fs), old(refused(drv.fs))))
  ensures entry: imp(dcalls(drv.fs) != old(dcalls(drv.fs)), dfirst(drv.fs) == efirst(drv.fs, LASTOF(drv.fs, p)) && dname(drv.fs) == part(PARTS(p), npart(PARTS(p)) - 1))
  ensures parent: imp(dcalls(drv.fs) != old(dcalls(drv.fs)), dparent(drv.fs) == DIRFIRST(drv.fs, PARENT(p)))
  ensures first: imp(dcalls(drv.fs) != old(dcalls(drv.fs)), dfrees(drv.fs) == old(nfrees(drv.fs)))
  ensures directory: imp(RESOLVED(drv.fs, p) && err == nil, !ISDIR(MODE(eattr(drv.fs, LASTOF(drv.fs, p)))))
  ensures unused: imp(dcalls(drv.fs) == old(dcalls(drv.fs)), forall(x, frees(drv.fs, x) == old(frees(drv.fs, x))))
  ensures freed: imp(err == nil, forall(x, frees(drv.fs, x) == old(frees(drv.fs, x)) + ite(!NONE(drv.fs, LASTOF(drv.fs, p)) && INCHAIN(drv.fs, efirst(drv.fs, LASTOF(drv.fs, p)), x), 1, 0)))
  ensures nothingelse: imp(err != nil, forall(x, frees(drv.fs, x) == old(frees(drv.fs, x)) || !NONE(drv.fs, LASTOF(drv.fs, p)) && INCHAIN(drv.fs, efirst(drv.fs, LASTOF(drv.fs, p)), x) && frees(drv.fs, x) == old(frees(drv.fs, x)) + 1))
  inv imp(old(sfailed(diskof(drv.fs))), sfailed(diskof(drv.fs)))
  inv forall(x, frees(drv.fs, x) == old(frees(drv.fs, x)) + ite(!NONE(drv.fs, LASTOF(drv.fs, p)) && INCHAIN(drv.fs, efirst(drv.fs, LASTOF(drv.fs, p)), x) && cidx(drv.fs, efirst(drv.fs, LASTOF(drv.fs, p)), x) >= len($s) - $i, 1, 0))
  inv forall(x, frees(drv.fs, x) == old(frees(drv.fs, x)) + ite(!NONE(drv.fs, LASTOF(drv.fs, p)) && INCHAIN(drv.fs, efirst(drv.fs, LASTOF(drv.fs, p)), x) && cidx(drv.fs, efirst(drv.fs, LASTOF(drv.fs, p)), x) < $i, 1, 0))
  inv $i <= len($s)
  inv iff(refused(drv.fs), old(refused(drv.fs)))

func (drv *FATDriver) Chtimes(p, atime, mtime) (err)
  props C23 C25
  requires DRV(drv)
  modifies sfailed(diskof(drv.fs)), ucalls(drv.fs), uname(drv.fs), ufirst(drv.fs), uatime(drv.fs), umtime(drv.fs), dirdirty(drv.fs), refused(drv.fs)
  ensures early: imp(before(atime, fatEpoch) || before(mtime, fatEpoch), err != nil && ucalls(drv.fs) == old(ucalls(drv.fs)))
  ensures once: ucalls(drv.fs) <= old(ucalls(drv.fs)) + 1 && imp(err == nil, ucalls(drv.fs) == old(ucalls(drv.fs)) + 1 && iff(refused(drv.fs), old(refused(drv.fs))))
  ensures times: imp(ucalls(drv.fs) != old(ucalls(drv.fs)), uatime(drv.fs) == tid(atime) && umtime(drv.fs) == tid(mtime))
  ensures entry: imp(ucalls(drv.fs) != old(ucalls(drv.fs)) && CLEANED(p) != "/", RESOLVED(drv.fs, p) && ufirst(drv.fs) == efirst(drv.fs, LASTOF(drv.fs, p)) && uname(drv.fs) == part(PARTS(p), npart(PARTS(p)) - 1))

func (drv *FATDriver) Stat(p) (st, err)
  props C25
  requires DRV(drv)
  modifies sfailed(diskof(drv.fs))
  ensures found: imp(err == nil && CLEANED(p) != "/", RESOLVED(drv.fs, p) && let(e, LASTOF(drv.fs, p), st.Size == esize(drv.fs, e) && st.InodeNumber == efirst(drv.fs, e) && st.ModeFlags == MODE(eattr(drv.fs, e)) && st.BlockSize == bpc(drv.fs) && st.NumBlocks == bdiv(esize(drv.fs, e) + bpc(drv.fs) - 1, bpc(drv.fs)) && st.Nlinks == 1))
  ensures root: imp(CLEANED(p) == "/", err == nil && ISDIR(st.ModeFlags))
  ensures missing: imp(err != nil, UNRESOLVED(err, drv.fs, PARTS(p)))

func (drv *FATDriver) Lstat(p) (st, err)
  props C25
  requires DRV(drv)
  modifies sfailed(diskof(drv.fs))
  ensures found: imp(err == nil && CLEANED(p) != "/", RESOLVED(drv.fs, p) && let(e, LASTOF(drv.fs, p), st.Size == esize(drv.fs, e) && st.InodeNumber == efirst(drv.fs, e) && st.ModeFlags == MODE(eattr(drv.fs, e))))
  ensures root: imp(CLEANED(p) == "/", err == nil && ISDIR(st.ModeFlags))
  ensures missing: imp(err != nil, UNRESOLVED(err, drv.fs, PARTS(p)))

func (drv *FATDriver) Readdir(p) (r, err)
  props C25
  requires DRV(drv)
  modifies sfailed(diskof(drv.fs))
  ensures notdir: imp(RESOLVED(drv.fs, p) && !ISDIR(MODE(eattr(drv.fs, LASTOF(drv.fs, p)))), err != nil)
  ensures path: imp(err == nil && CLEANED(p) != "/", RESOLVED(drv.fs, p))
  ensures entries: imp(err == nil, let(c, DIRFIRST(drv.fs, p), forall(j, 0, len(r), typeis(r[j], "Dirent") && ENTRY(as(r[j], "Dirent"), drv.fs, dent(drv.fs, c, j)))))
  ensures count: imp(err == nil, let(c, DIRFIRST(drv.fs, p), imp(c == 0 || isend(drv.fs, c, len(r)), len(r) == dcount(drv.fs, c))))
  ensures end: imp(err == nil, let(c, DIRFIRST(drv.fs, p), imp(c != 0, isend(drv.fs, c, len(r)))))
  inv len($s) == $i
  inv forall(j, 0, $i, typeis($s[j], "Dirent") && ENTRY(as($s[j], "Dirent"), drv.fs, dent(drv.fs, DIRFIRST(drv.fs, p), j)))
