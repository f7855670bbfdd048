package github.com/dargueta/disko/file_systems/fat8

def KNOWN(n) = n == 640 || n == 1898 || n == 2002
// the geometry of an image of n blocks
def GEOIS(g, n) = KNOWN(n) &&
  g.SectorsPerTrack == ite(n == 640, 16, 26) && g.TotalTracks == ite(n == 640, 40, 73) && g.DirectoryTrackNumber == ite(n == 640, 18, 35) &&
  g.TrueTotalTracks == ite(n == 640, 40, ite(n == 1898, 73, 77)) &&
  g.TotalClusters == 2 * g.TotalTracks && 2 * g.SectorsPerCluster == g.SectorsPerTrack && g.BytesPerCluster == 128 * g.SectorsPerCluster &&
  g.SectorsPerFAT == bdiv(g.TotalClusters + 127, 128) &&
  g.DirectoryTrackStart == ite(n == 640, 272, 884) && g.FATsStart + 3 * g.SectorsPerFAT == g.DirectoryTrackStart + g.SectorsPerTrack &&
  g.InfoSectorStart == g.FATsStart - 1 && g.DirectoryTrackStart < g.InfoSectorStart
// never mounted or formatted, or of a known size
def READY(d) = d.image != nil && (d.stat.TotalBlocks == 0 && d.geometry.TotalClusters == 0 || GEOIS(d.geometry, d.stat.TotalBlocks))
// nothing was done to the image
def IDLE(d) = iocalls(d.image) == old(iocalls(d.image)) && flen(d.image) == old(flen(d.image)) && forall(m, sbyte(d.image, m) == old(sbyte(d.image, m)))
// everything except blocks [start, start + count) is as it was
def ONLY(d, start, count) = forall(m, imp(m < 128 * start || m >= 128 * (start + count), sbyte(d.image, m) == old(sbyte(d.image, m))))
def WHOLE(d) = flen(d.image) >= 128 * d.stat.TotalBlocks

func GetGeometry(n) (geo, err)
  props C16 C18 C19 C20
  ensures known: iff(err == nil, KNOWN(n))
  ensures geometry: imp(err == nil, GEOIS(geo, n))
  ensures [C16] fatexact: imp(err == nil, 128 * geo.SectorsPerFAT >= geo.TotalClusters && 128 * (geo.SectorsPerFAT - 1) < geo.TotalClusters)
  ensures [C16] track: imp(err == nil, geo.DirectoryTrackStart == (geo.DirectoryTrackNumber - 1) * geo.SectorsPerTrack)
  ensures [C16] inside: imp(err == nil, geo.DirectoryTrackStart + geo.SectorsPerTrack <= n && geo.DirectoryTrackStart + geo.SectorsPerTrack <= geo.TotalTracks * geo.SectorsPerTrack)
  ensures [C16] tracks: imp(err == nil, geo.TrueTotalTracks * geo.SectorsPerTrack == n && geo.TotalTracks <= geo.TrueTotalTracks)

def DOT(s) = idx(s, 46)
def STEMLEN(s) = ite(DOT(s) < 0, len(s), DOT(s))
def EXTLEN(s) = ite(DOT(s) < 0, 0, len(s) - DOT(s) - 1)
// b holds the name s: the stem, then the extension, padded with spaces
def ENCODESNAME(b, s) = len(b) == 9 && forall(k, 0, 6, b[k] == ite(k < STEMLEN(s), s[k], 32)) &&
  imp(DOT(s) < 0, forall(k, 6, 9, b[k] == 32)) &&
  imp(DOT(s) >= 0 && EXTLEN(s) > 0, forall(k, 6, 9, b[k] == ite(k - 6 < EXTLEN(s), s[k - 6 + DOT(s) + 1], 32))) &&
  imp(DOT(s) >= 0 && EXTLEN(s) == 0, b[6] == 46 && b[7] == 32 && b[8] == 32)

func FilenameToBytes(name) (b, err)
  props C17
  ensures empty: imp(len(name) == 0, is(err, disko.ErrInvalidArgument))
  ensures accepted: imp(len(name) > 0, iff(err == nil, STEMLEN(upper(name)) <= 6 && EXTLEN(upper(name)) <= 3))
  ensures toolong: imp(len(name) > 0 && err != nil, is(err, disko.ErrNameTooLong))
  ensures encoding: imp(err == nil, ENCODESNAME(b, upper(name)))

// n is the length of bytes lo to hi of b without trailing spaces
def TRIMMED(b, lo, hi, n) = 0 <= n && n <= hi - lo && imp(n > 0, b[lo + n - 1] != 32) && forall(k, lo, hi, imp(k >= lo + n, b[k] == 32))
// b is the on-disk form of the name x: the stem before the first period, then the extension
def STORED(b, x) = TRIMMED(b, 0, 6, STEMLEN(x)) && TRIMMED(b, 6, 9, EXTLEN(x)) && imp(DOT(x) >= 0, EXTLEN(x) > 0) &&
  forall(k, 0, STEMLEN(x), x[k] == b[k]) && forall(k, 0, EXTLEN(x), x[DOT(x) + 1 + k] == b[6 + k])

func BytesToFilename(b) (name, err)
  props C17
  ensures size: iff(err == nil, len(b) == 9)
  ensures wrong: imp(err != nil, is(err, disko.ErrInvalidArgument))
  ensures content: imp(err == nil, forall(x, imp(STORED(b, string(x)), name == upper(string(x)))))

func verifNameRoundTrip(name) (decoded, err)
  props C17
  lemma
  ensures imp(len(name) > 0 && STEMLEN(upper(name)) <= 6 && EXTLEN(upper(name)) <= 3, err == nil)
  ensures imp(err == nil && imp(STEMLEN(upper(name)) > 0, upper(name)[STEMLEN(upper(name)) - 1] != 32) && imp(DOT(upper(name)) >= 0, EXTLEN(upper(name)) > 0 && upper(name)[len(upper(name)) - 1] != 32), decoded == upper(name))

func verifClusterRoundTrip(driver, id, data) (got, err)
  props C19
  lemma
  requires READY(driver)
  modifies sbyte(driver.image), flen(driver.image), iocalls(driver.image), sfailed(driver.image)
  ensures imp(err == nil, len(got) == len(data) && forall(k, 0, len(data), got[k] == old(data[k])))
  ensures imp(id >= 1 && id <= driver.geometry.TotalClusters && len(data) == driver.geometry.BytesPerCluster && old(WHOLE(driver)) && err != nil, sfailed(driver.image))

// The disk image.
extern (*os.File).Seek(f, o, w) (n, err)
  modifies spos(f), sfailed(f)
  ensures imp(err == nil, n == spos(f) && n >= 0)
  ensures imp(err == nil && w == 0, n == o)
  ensures imp(err == nil && w == 2, n == flen(f) + o)
  ensures iff(sfailed(f), old(sfailed(f)) || err != nil)

extern (*os.File).ReadAt(f, b, o) (n, err)
  modifies elems(b), iocalls(f), sfailed(f)
  ensures iocalls(f) > old(iocalls(f))
  ensures 0 <= n && n <= len(b) && iff(err == nil, n == len(b) && o >= 0)
  ensures forall(k, 0, n, b[k] == sbyte(f, o + k))
  ensures imp(n > 0, o + n <= flen(f))
  ensures imp(old(sfailed(f)), sfailed(f)) && imp(err != nil && o >= 0 && o + len(b) <= flen(f), sfailed(f))

extern (*os.File).WriteAt(f, b, o) (n, err)
  modifies sbyte(f), flen(f), iocalls(f), sfailed(f)
  ensures iocalls(f) > old(iocalls(f))
  ensures 0 <= n && n <= len(b) && imp(err == nil, n == len(b) && o >= 0)
  ensures imp(n > 0, flen(f) == max(old(flen(f)), o + n)) && imp(n == 0, flen(f) == old(flen(f)))
  ensures forall(m, sbyte(f, m) == ite(m >= o && m < o + n, b[m - o], ite(m < old(flen(f)) || m >= o, old(sbyte(f, m)), 0)))
  ensures imp(old(sfailed(f)), sfailed(f)) && imp(err != nil && o >= 0, sfailed(f))

extern (*os.File).Truncate(f, n) (err)
  modifies sbyte(f), flen(f), iocalls(f), sfailed(f)
  ensures iocalls(f) > old(iocalls(f))
  ensures imp(err == nil, flen(f) == n)
  ensures imp(err != nil, flen(f) == old(flen(f)) && forall(m, sbyte(f, m) == old(sbyte(f, m))))
  ensures forall(m, 0, flen(f), sbyte(f, m) == ite(m < old(flen(f)), old(sbyte(f, m)), 0))
  ensures imp(old(sfailed(f)), sfailed(f)) && imp(err != nil && n >= 0, sfailed(f))

func (driver *FAT8Driver) ReadDiskBlocks(start, count) (b, err)
  props C19 C20
  requires READY(driver)
  modifies iocalls(driver.image), sfailed(driver.image)
  ensures [C19] bounds: imp(err == nil, start + count <= driver.stat.TotalBlocks)
  ensures [C19] refused: imp(start + count > driver.stat.TotalBlocks, err != nil && IDLE(driver))
  ensures accessible: imp(start + count <= driver.stat.TotalBlocks && WHOLE(driver) && err != nil, sfailed(driver.image))
  ensures content: imp(err == nil, fresh(b) && len(b) == 128 * count && forall(k, 0, len(b), b[k] == sbyte(driver.image, 128 * start + k)))
  ensures imp(old(sfailed(driver.image)), sfailed(driver.image))

func (driver *FAT8Driver) WriteDiskBlocks(start, data) (err)
  props C18 C19 C20
  requires READY(driver)
  modifies sbyte(driver.image), flen(driver.image), iocalls(driver.image), sfailed(driver.image)
  ensures bounds: imp(err == nil, len(data) % 128 == 0 && start + bdiv(len(data), 128) <= driver.stat.TotalBlocks)
  ensures [C19] refused: imp(len(data) % 128 != 0 || start + bdiv(len(data), 128) > driver.stat.TotalBlocks, err != nil && IDLE(driver))
  ensures [C19 C20] accessible: imp(len(data) % 128 == 0 && start + bdiv(len(data), 128) <= driver.stat.TotalBlocks && err != nil, sfailed(driver.image))
  ensures content: imp(err == nil, forall(k, 0, len(data), sbyte(driver.image, 128 * start + k) == data[k]))
  ensures others: imp(old(WHOLE(driver)), forall(m, imp(m < 128 * start || m >= 128 * start + len(data), sbyte(driver.image, m) == old(sbyte(driver.image, m)))))
  ensures size: imp(old(WHOLE(driver)), flen(driver.image) == old(flen(driver.image)))
  ensures imp(old(sfailed(driver.image)), sfailed(driver.image))

func (driver *FAT8Driver) IsValidCluster(id) (r)
  props C19
  ensures iff(r, id >= 1 && id <= driver.geometry.TotalClusters)

func MakeInvalidClusterError(cluster, tracks) (err)
  props C19
  ensures err != nil

def INCLUSTERS(d, id) = id >= 1 && id <= d.geometry.TotalClusters
def CSTART(d, id) = (id - 1) * d.geometry.SectorsPerCluster

func (driver *FAT8Driver) ReadAbsoluteCluster(id) (b, err)
  props C19
  requires READY(driver)
  modifies iocalls(driver.image), sfailed(driver.image)
  ensures refused: imp(!INCLUSTERS(driver, id), err != nil && IDLE(driver))
  ensures accessible: imp(INCLUSTERS(driver, id) && WHOLE(driver) && err != nil, sfailed(driver.image))
  ensures content: imp(err == nil, fresh(b) && len(b) == driver.geometry.BytesPerCluster && forall(k, 0, len(b), b[k] == sbyte(driver.image, 128 * CSTART(driver, id) + k)))
  ensures imp(old(sfailed(driver.image)), sfailed(driver.image))

func (driver *FAT8Driver) WriteAbsoluteCluster(id, data) (err)
  props C19
  requires READY(driver)
  modifies sbyte(driver.image), flen(driver.image), iocalls(driver.image), sfailed(driver.image)
  ensures refused: imp(!INCLUSTERS(driver, id) || len(data) != driver.geometry.BytesPerCluster, err != nil && IDLE(driver))
  ensures accessible: imp(INCLUSTERS(driver, id) && len(data) == driver.geometry.BytesPerCluster && err != nil, sfailed(driver.image))
  ensures content: imp(err == nil, forall(k, 0, len(data), sbyte(driver.image, 128 * CSTART(driver, id) + k) == data[k]))
  ensures others: imp(old(WHOLE(driver)), forall(m, imp(m < 128 * CSTART(driver, id) || m >= 128 * CSTART(driver, id) + len(data), sbyte(driver.image, m) == old(sbyte(driver.image, m)))))
  ensures size: imp(old(WHOLE(driver)), flen(driver.image) == old(flen(driver.image)))
  ensures imp(old(sfailed(driver.image)), sfailed(driver.image))

func (driver *FAT8Driver) ReadFileCluster(dirent, cluster) (b, err)
  props C19
  requires READY(driver)
  requires dirent != nil
  modifies iocalls(driver.image), sfailed(driver.image)
  ensures refused: imp(cluster >= len(dirent.clusters), err != nil && IDLE(driver))
  ensures invalid: imp(cluster < len(dirent.clusters) && !INCLUSTERS(driver, dirent.clusters[cluster]), err != nil && IDLE(driver))
  ensures accessible: imp(cluster < len(dirent.clusters) && INCLUSTERS(driver, dirent.clusters[cluster]) && WHOLE(driver) && err != nil, sfailed(driver.image))
  ensures content: imp(err == nil, fresh(b) && len(b) == driver.geometry.BytesPerCluster && forall(k, 0, len(b), b[k] == sbyte(driver.image, 128 * CSTART(driver, dirent.clusters[cluster]) + k)))

func (driver *FAT8Driver) WriteFileCluster(dirent, cluster, data) (err)
  props C19
  requires READY(driver)
  requires dirent != nil
  modifies sbyte(driver.image), flen(driver.image), iocalls(driver.image), sfailed(driver.image)
  ensures refused: imp(cluster >= len(dirent.clusters), err != nil && IDLE(driver))
  ensures invalid: imp(cluster < len(dirent.clusters), imp(!INCLUSTERS(driver, dirent.clusters[cluster]) || len(data) != driver.geometry.BytesPerCluster, err != nil && IDLE(driver)))
  ensures accessible: imp(cluster < len(dirent.clusters) && INCLUSTERS(driver, dirent.clusters[cluster]) && len(data) == driver.geometry.BytesPerCluster && err != nil, sfailed(driver.image))
  ensures content: imp(err == nil, forall(k, 0, len(data), sbyte(driver.image, 128 * CSTART(driver, dirent.clusters[cluster]) + k) == data[k]))
  ensures others: imp(err == nil && old(WHOLE(driver)), forall(m, imp(m < 128 * CSTART(driver, dirent.clusters[cluster]) || m >= 128 * CSTART(driver, dirent.clusters[cluster]) + len(data), sbyte(driver.image, m) == old(sbyte(driver.image, m)))))

// byte k of copy c of the FAT
def FATB(d, g, c, k) = sbyte(d.image, 128 * (g.FATsStart + c * g.SectorsPerFAT) + k)
def AGREE(d, g) = forall(k, 0, 128 * g.SectorsPerFAT, FATB(d, g, 0, k) == FATB(d, g, 1, k) && FATB(d, g, 0, k) == FATB(d, g, 2, k))

func (driver *FAT8Driver) GetFAT() (fat, err)
  props C20
  requires READY(driver) && KNOWN(driver.stat.TotalBlocks)
  modifies iocalls(driver.image), sfailed(driver.image)
  ensures agree: imp(err == nil, AGREE(driver, driver.geometry))
  ensures content: imp(err == nil, fresh(fat) && len(fat) == 128 * driver.geometry.SectorsPerFAT && forall(k, 0, len(fat), fat[k] == FATB(driver, driver.geometry, 0, k)))
  ensures differ: imp(err != nil && WHOLE(driver) && !sfailed(driver.image), !AGREE(driver, driver.geometry) && is(err, disko.ErrFileSystemCorrupted))
  ensures imp(old(sfailed(driver.image)), sfailed(driver.image))

// what is in memory while the image is mounted
def LOADED(d) = GEOIS(d.geometry, d.stat.TotalBlocks) && len(d.fat) == 128 * d.geometry.SectorsPerFAT

func (driver *FAT8Driver) writeFAT() (err)
  props C20
  requires READY(driver) && LOADED(driver)
  modifies sbyte(driver.image), flen(driver.image), iocalls(driver.image), sfailed(driver.image)
  ensures copies: imp(err == nil, forall(k, 0, len(driver.fat), FATB(driver, driver.geometry, 0, k) == driver.fat[k] && FATB(driver, driver.geometry, 1, k) == driver.fat[k] && FATB(driver, driver.geometry, 2, k) == driver.fat[k]))
  ensures works: imp(err != nil, sfailed(driver.image))
  ensures others: imp(old(WHOLE(driver)), ONLY(driver, driver.geometry.FATsStart, 3 * driver.geometry.SectorsPerFAT))

func (driver *FAT8Driver) Flush() (err)
  props C20
  requires READY(driver) && LOADED(driver)
  modifies sbyte(driver.image), flen(driver.image), iocalls(driver.image), sfailed(driver.image)
  ensures copies: imp(err == nil, forall(k, 0, len(driver.fat), FATB(driver, driver.geometry, 0, k) == driver.fat[k] && FATB(driver, driver.geometry, 1, k) == driver.fat[k] && FATB(driver, driver.geometry, 2, k) == driver.fat[k]))
  ensures works: imp(err != nil, sfailed(driver.image))
  ensures others: imp(old(WHOLE(driver)), ONLY(driver, driver.geometry.FATsStart, 3 * driver.geometry.SectorsPerFAT))

func (driver *FAT8Driver) Unmount() (err)
  props C20
  modifies driver.isMounted
  ensures err == nil && !driver.isMounted

func (driver *FAT8Driver) FSStat() (st)
  props C20
  ensures st.TotalBlocks == driver.stat.TotalBlocks && st.BlocksFree == driver.stat.BlocksFree && st.BlockSize == driver.stat.BlockSize

// the free list holds the free ones of the first n clusters, in ascending order
def FREE1(d, f, n) = forall(a, 0, len(d.freeClusters), d.freeClusters[a] >= 1 && d.freeClusters[a] <= n && f[d.freeClusters[a] - 1] == 255)
def FREE2(d) = forall(a, 0, len(d.freeClusters), forall(b, 0, a, d.freeClusters[b] < d.freeClusters[a]))
def FREE3(d, f, n) = forall(k, 0, n, imp(f[k] == 255, exists(a, 0 <= a && a < len(d.freeClusters) && d.freeClusters[a] == k + 1)))

func (driver *FAT8Driver) Mount(flags) (err)
  props C20
  requires driver.image != nil && READY(driver)
  modifies driver.geometry, driver.stat, driver.fat, driver.freeClusters, driver.defaultFileAttrFlags, driver.isMounted, spos(driver.image), iocalls(driver.image), sfailed(driver.image)
  ensures twice: imp(old(driver.isMounted), is(err, disko.ErrAlreadyInProgress) && IDLE(driver) && unchanged(driver.isMounted, driver.fat, driver.freeClusters))
  ensures mounted: imp(!old(driver.isMounted), iff(err == nil, driver.isMounted))
  ensures size: imp(!old(driver.isMounted) && err == nil, KNOWN(bdiv(flen(driver.image), 128)) && driver.stat.TotalBlocks == bdiv(flen(driver.image), 128) && LOADED(driver))
  ensures agree: imp(!old(driver.isMounted) && err == nil, AGREE(driver, driver.geometry))
  ensures works: imp(!old(driver.isMounted) && err != nil && KNOWN(bdiv(flen(driver.image), 128)) && !sfailed(driver.image), !AGREE(driver, driver.geometry) && is(err, disko.ErrFileSystemCorrupted))
  ensures fat: imp(!old(driver.isMounted) && err == nil, forall(k, 0, len(driver.fat), driver.fat[k] == FATB(driver, driver.geometry, 0, k)))
  ensures onlyfree: imp(!old(driver.isMounted) && err == nil, FREE1(driver, driver.fat, driver.geometry.TotalClusters))
  ensures once: imp(!old(driver.isMounted) && err == nil, FREE2(driver))
  ensures allfree: imp(!old(driver.isMounted) && err == nil, FREE3(driver, driver.fat, driver.geometry.TotalClusters))
  ensures space: imp(!old(driver.isMounted) && err == nil, driver.stat.BlocksFree == len(driver.freeClusters) * driver.geometry.SectorsPerCluster)
  ensures attributes: imp(!old(driver.isMounted) && err == nil, driver.defaultFileAttrFlags == sbyte(driver.image, 128 * driver.geometry.InfoSectorStart))
  inv FREE1(driver, driver.fat, $i) && FREE2(driver) && FREE3(driver, driver.fat, $i)

fn tsz(o) int
iface (github.com/dargueta/disko/disks.BasicFormatterOptions).TotalSizeBytes(o) (n)
  ensures n == tsz(o)

// what a freshly formatted image of n blocks contains
def BLANK(g, m) = ite(m < 128 * g.DirectoryTrackStart, 0, ite(m < 128 * g.InfoSectorStart, 255, ite(m < 128 * g.FATsStart, 0, ite(m < 128 * (g.FATsStart + 3 * g.SectorsPerFAT),
  ite(RESERVED(g, m - 128 * g.FATsStart) || RESERVED(g, m - 128 * (g.FATsStart + g.SectorsPerFAT)) || RESERVED(g, m - 128 * (g.FATsStart + 2 * g.SectorsPerFAT)), 254, 255), 0))))
// the FAT entries of the clusters of the directory track
def RESERVED(g, k) = k == 2 * (g.DirectoryTrackNumber - 1) || k == 2 * (g.DirectoryTrackNumber - 1) + 1

func (driver *FAT8Driver) FormatImage(options) (err)
  props C18
  requires READY(driver) && options != nil
  modifies driver.geometry, driver.stat, sbyte(driver.image), flen(driver.image), iocalls(driver.image), sfailed(driver.image)
  ensures busy: imp(driver.isMounted, is(err, disko.ErrBusy) && IDLE(driver))
  ensures unknown: imp(tsz(options) % 128 != 0 || !KNOWN(bdiv(tsz(options), 128)), err != nil && IDLE(driver))
  ensures size: imp(err == nil, flen(driver.image) == tsz(options))
  ensures works: imp(err != nil && !driver.isMounted && tsz(options) % 128 == 0 && KNOWN(bdiv(tsz(options), 128)), sfailed(driver.image))
  ensures layout: imp(err == nil, forall(m, 0, flen(driver.image), sbyte(driver.image, m) == BLANK(driver.geometry, m)))
  ensures stat: imp(err == nil, GEOIS(driver.geometry, bdiv(tsz(options), 128)) && driver.stat.TotalBlocks == bdiv(tsz(options), 128))
  inv flen(driver.image) == 128 * driver.geometry.TrueTotalTracks * driver.geometry.SectorsPerTrack
  inv forall(m, 0, flen(driver.image), sbyte(driver.image, m) == ite(m >= 128 * driver.geometry.DirectoryTrackStart && m < 128 * (driver.geometry.DirectoryTrackStart + $i), 255, 0))
