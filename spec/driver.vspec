package github.com/dargueta/disko/driver

// ---- the file system implementation
// changes(0): how often it was asked to change anything. epoch(0): the same, not counting
// removals. What the implementation answers is a function of these.
ghost changes(t) int
ghost epoch(t) int
// the object a handle refers to, the directory it was found in, and under which name
fn node(h) int
fn indir(h) int
fn asname(h) str
fn isdir(n) bool
fn islink(n) bool
fn isfile(n) bool
// the object of that name in directory n while there were v changes, or 0
fn child(v, n, x) int
fn rootnode(i) int
axiom rootExists {i; rootnode(i)}: rootnode(i) != 0 && isdir(rootnode(i)) && !islink(rootnode(i))

// Removals: entry x of directory n is e = ent(n, x). gone(0, e): it was removed.
// refused(0): some removal failed.
fn ent(n, x) int
fn entdir(e) int
axiom entryParts {n, x; ent(n, x)}: entdir(ent(n, x)) == n
ghost gone(t, e) bool
ghost unlinks(t) int
ghost stuck(t) bool
// the object changed last, the entry made last
ghost touched(t) int
ghost made(t) int
fn inode(n) int
// the entry x of directory n in epoch v, removed or not
fn kid(v, n, x) int
def ISDOTS(x) = x == "." || x == ".."
def LIVE(n, x) = kid(epoch(0), n, x) != 0 && !gone(0, ent(n, x)) && !ISDOTS(x)
def EMPTY(n) = forall(x, !LIVE(n, x))
// where a list of names has name x
fn lpos(o, x) int

def KINDS(m, n) = iff(HAS(m, 2147483648), isdir(n)) && iff(HAS(m, 134217728) && !HAS(m, 2147483648) && !HAS(m, 67108864) && !HAS(m, 33554432) && !HAS(m, 16777216) && !HAS(m, 2097152) && !HAS(m, 524288), islink(n)) &&
  iff(!HAS(m, 2147483648) && !HAS(m, 134217728) && !HAS(m, 67108864) && !HAS(m, 33554432) && !HAS(m, 16777216) && !HAS(m, 2097152) && !HAS(m, 524288), isfile(n))
def LIMIT() = 281474976710656
def UNCHANGED() = changes(0) == old(changes(0))

// the size of a block and of object n, and its bytes, in epoch v
fn blocksize(n) int
fn objsize(v, n) int
fn objblocks(v, n) int
fn objbyte(v, n, m) u8
def E() = epoch(0)

iface (github.com/dargueta/disko.ObjectHandle).Stat(self) (r)
  ensures r.BlockSize == blocksize(node(self)) && r.Size == objsize(E(), node(self)) && r.NumBlocks == objblocks(E(), node(self))
  ensures KINDS(r.ModeFlags, node(self))
  ensures r.InodeNumber == inode(node(self))
  ensures 1 <= r.BlockSize && r.BlockSize <= LIMIT() && 0 <= r.NumBlocks && r.NumBlocks <= LIMIT() && r.BlockSize * r.NumBlocks <= LIMIT() && 0 <= r.Size && r.Size <= LIMIT()
iface (github.com/dargueta/disko.ObjectHandle).Resize(self, n) (err)
  modifies changes(0), epoch(0), touched(0)
  ensures touched(0) == node(self)
  ensures changes(0) == old(changes(0)) + 1
  ensures imp(err == nil, objsize(E(), node(self)) == n)
iface (github.com/dargueta/disko.ObjectHandle).ReadBlocks(self, index, buffer) (err)
  modifies elems(buffer)
  ensures imp(err == nil, forall(k, 0, len(buffer), buffer[k] == objbyte(E(), node(self), index * blocksize(node(self)) + k)))
iface (github.com/dargueta/disko.ObjectHandle).WriteBlocks(self, index, data) (err)
  modifies changes(0), epoch(0), touched(0)
  ensures touched(0) == node(self)
  ensures changes(0) == old(changes(0)) + 1
  ensures imp(err == nil, forall(m, index * blocksize(node(self)), index * blocksize(node(self)) + len(data), objbyte(E(), node(self), m) == data[m - index * blocksize(node(self))]))
  ensures forall(m, imp(m < index * blocksize(node(self)) || m >= index * blocksize(node(self)) + len(data), objbyte(E(), node(self), m) == old(objbyte(E(), node(self), m))))
  ensures objsize(E(), node(self)) == old(objsize(E(), node(self)))
iface (github.com/dargueta/disko.ObjectHandle).Unlink(self) (err)
  requires [C33] empty: imp(isdir(node(self)), EMPTY(node(self)))
  requires [C33] first: !stuck(0)
  modifies changes(0), gone(0), stuck(0), unlinks(0)
  ensures changes(0) == old(changes(0)) + 1 && unlinks(0) == old(unlinks(0)) + 1
  ensures forall(e, iff(gone(0, e), old(gone(0, e)) || err == nil && e == ent(indir(self), asname(self))))
  ensures iff(stuck(0), err != nil || old(stuck(0)))
iface (github.com/dargueta/disko.ObjectHandle).Name(self) (r)
  ensures r == asname(self)
iface (github.com/dargueta/disko.ObjectHandle).SameAs(self, other) (r)
  ensures iff(r, node(self) == node(other))
iface (github.com/dargueta/disko.ObjectHandle).Close(self) (err)
iface (github.com/dargueta/disko.SupportsListDirHandle).ListDir(self) (r, err)
  ensures imp(err == nil, fresh(r) && off(r) == 0 && forall(x, imp(LIVE(node(self), x), 0 <= lpos(obj(r), x) && lpos(obj(r), x) < len(r) && r[lpos(obj(r), x)] == x)))
  ensures imp(err == nil, forall(j, 0, len(r), ISDOTS(r[j]) || kid(epoch(0), node(self), r[j]) != 0 && !gone(0, ent(node(self), r[j]))))
  ensures imp(err == nil, len(r) == nnames(changes(0), node(self)) && forall(j, 0, len(r), r[j] == nname(changes(0), node(self), j)))
iface (github.com/dargueta/disko.SupportsChmodHandle).Chmod(self, mode) (err)
  modifies changes(0), epoch(0), touched(0)
  ensures touched(0) == node(self)
  ensures changes(0) == old(changes(0)) + 1
iface (github.com/dargueta/disko.SupportsChownHandle).Chown(self, uid, gid) (err)
  modifies changes(0), epoch(0), touched(0)
  ensures touched(0) == node(self)
  ensures changes(0) == old(changes(0)) + 1
iface (github.com/dargueta/disko.SupportsChtimesHandle).Chtimes(self, c, a, m, h, d) (err)
  modifies changes(0), epoch(0), touched(0)
  ensures touched(0) == node(self)
  ensures changes(0) == old(changes(0)) + 1

// broken(0): the implementation failed for some other reason than that there is no such object
ghost broken(t) bool
iface (github.com/dargueta/disko.FileSystemImplementer).GetRootDirectory(self) (r)
  ensures r != nil && isdir(node(r)) && !islink(node(r)) && node(r) == rootnode(self) && node(r) != 0
iface (github.com/dargueta/disko.FileSystemImplementer).GetObject(self, name, parent) (r, err)
  requires [C31] parent: parent != nil && isdir(node(parent))
  modifies broken(0)
  ensures imp(err == nil, r != nil && node(r) == child(changes(0), node(parent), name) && node(r) != 0 && indir(r) == node(parent) && asname(r) == name)
  ensures imp(err == nil, node(r) == kid(epoch(0), node(parent), name) && !gone(0, ent(node(parent), name)))
  ensures imp(is(err, disko.ErrNotFound), child(changes(0), node(parent), name) == 0)
  ensures iff(broken(0), old(broken(0)) || err != nil && !is(err, disko.ErrNotFound))
iface (github.com/dargueta/disko.FileSystemImplementer).CreateObject(self, name, parent, perm) (r, err)
  requires [C34] absent: parent != nil && isdir(node(parent)) && child(changes(0), node(parent), name) == 0
  modifies changes(0), epoch(0), made(0)
  ensures changes(0) == old(changes(0)) + 1
  ensures made(0) == ent(node(parent), name)
  ensures imp(err == nil, r != nil && node(r) != 0)
iface (github.com/dargueta/disko.FileSystemImplementer).GetFSFeatures(self) (r)
iface (github.com/dargueta/disko.HardLinkImplementer).CreateHardLink(self, source, dir, name) (r, err)
  requires [C34] absent: source != nil && dir != nil && isdir(node(dir)) && child(changes(0), node(dir), name) == 0
  requires [C34] nodirectory: !isdir(node(source))
  modifies changes(0), epoch(0), made(0)
  ensures made(0) == ent(node(dir), name)
  ensures changes(0) == old(changes(0)) + 1

// ---- paths
// an absolute path without empty, dot and dot-dot components and trailing slashes
fn isclean(p) bool
fn joined(a, b) str
def ISABS(p) = len(p) > 0 && p[0] == 47
axiom cleanPath {p; path.Clean(p)}: imp(ISABS(p), isclean(path.Clean(p))) && iff(ISABS(p), ISABS(path.Clean(p)))
axiom alreadyClean {p; isclean(p)}: imp(isclean(p), ISABS(p) && path.Clean(p) == p)
// joining with a slash and then cleaning
axiom rootClean {p; isclean(p)}: imp(p == "/", isclean(p))
axiom joinClean {a, b; joined(a, b)}: imp(isclean(a), isclean(joined(a, b)))
axiom joinCleaned {a, b; joined(a, path.Clean(b))}: imp(isclean(a) && !ISABS(b), joined(a, path.Clean(b)) == joined(a, b))
axiom joinNothing {a, b; joined(a, b)}: imp(isclean(a) && (b == "" || b == "."), joined(a, b) == a)
axiom dirClean {p; path.Dir(p)}: imp(isclean(p), isclean(path.Dir(p))) && imp(p == "/", path.Dir(p) == p)
extern path.Join(elems) (r)
  ensures imp(len(elems) == 2, r == joined(elems[0], elems[1]))
extern path.Base(p) (r)
  pure

def CWD(d) = d.workingDirPath
def DRIVER(d) = isclean(CWD(d)) && d.implementation != nil
def SLASHED(p) = filepath.ToSlash(p)
def ABSPATH(d, p) = ite(ISABS(SLASHED(p)), path.Clean(SLASHED(p)), joined(CWD(d), SLASHED(p)))

func New(impl, mountFlags) (r)
  props C29 C30
  requires impl != nil
  ensures fresh(r) && r.implementation == impl && r.mountFlags == mountFlags
  ensures [C29] root: r.workingDirPath == "/"

func (driver *BaseDriver) NormalizePath(p) (r)
  props C29
  requires isclean(CWD(driver))
  ensures clean: isclean(r)
  ensures absolute: imp(ISABS(SLASHED(p)), r == path.Clean(SLASHED(p)))
  ensures relative: imp(!ISABS(SLASHED(p)), r == joined(CWD(driver), SLASHED(p)))
  ensures here: imp(SLASHED(p) == "" || SLASHED(p) == ".", r == CWD(driver))
  ensures whole: r == ABSPATH(driver, p)

func (driver *BaseDriver) Getwd() (r, err)
  props C29
  ensures err == nil && r == CWD(driver)


// ---- lookups
def RAW(h) = as(h, "*tExtObjectHandle").ObjectHandle
def ABS(h) = as(h, "*tExtObjectHandle").absolutePath
def NODE(h) = node(RAW(h))
def EXT(h) = h != nil && typeis(h, "*tExtObjectHandle") && RAW(h) != nil && isclean(ABS(h)) && NODE(h) != 0
// what a path denotes while there were v changes, without and with following a link
// at its end, or 0; and the path of it
fn nof(s, v, p) int
fn fol(s, v, p) int
fn nofp(s, v, p) str
fn folp(s, v, p) str
fn linktext(v, n) str
def V() = changes(0)
def TARGET(p, x) = ite(ISABS(SLASHED(x)), path.Clean(SLASHED(x)), joined(path.Dir(p), SLASHED(x)))
def LINKED(s, v, p) = TARGET(nofp(s, v, p), linktext(v, nof(s, v, p)))
axiom lookRoot {s, v, p; nof(s, v, p)}: imp(p == "/", nof(s, v, p) == rootnode(s))
axiom lookRootPath {s, v, p; nofp(s, v, p)}: imp(p == "/", nofp(s, v, p) == "/")
axiom lookNext {s, v, p; nof(s, v, p), path.Dir(p)}: imp(isclean(p) && p != "/", nofp(s, v, p) == joined(folp(s, v, path.Dir(p)), path.Base(p)) &&
  nof(s, v, p) == ite(fol(s, v, path.Dir(p)) != 0 && isdir(fol(s, v, path.Dir(p))), child(v, fol(s, v, path.Dir(p)), path.Base(p)), 0))
axiom lookLink {s, v, p; fol(s, v, p), nof(s, v, p)}: ite(nof(s, v, p) != 0 && islink(nof(s, v, p)),
  fol(s, v, p) == fol(s, v, LINKED(s, v, p)) && folp(s, v, p) == folp(s, v, LINKED(s, v, p)),
  fol(s, v, p) == nof(s, v, p) && folp(s, v, p) == nofp(s, v, p))
// it cannot be followed because something on the way is no directory
fn nofdir(s, v, p) bool
fn foldir(s, v, p) bool
axiom blockedRoot {s, v, p; nofdir(s, v, p)}: imp(p == "/", !nofdir(s, v, p))
axiom blockedNext {s, v, p; nofdir(s, v, p), path.Dir(p)}: imp(isclean(p) && p != "/", iff(nofdir(s, v, p), foldir(s, v, path.Dir(p)) || fol(s, v, path.Dir(p)) != 0 && !isdir(fol(s, v, path.Dir(p)))))
axiom blockedLink {s, v, p; foldir(s, v, p), nof(s, v, p)}: iff(foldir(s, v, p), nofdir(s, v, p) || nof(s, v, p) != 0 && islink(nof(s, v, p)) && foldir(s, v, LINKED(s, v, p)))

axiom followable {s, v, p; fol(s, v, p), foldir(s, v, p)}: imp(fol(s, v, p) != 0, !foldir(s, v, p))
axiom found {s, v, p; nof(s, v, p), nofdir(s, v, p)}: imp(nof(s, v, p) != 0, !nofdir(s, v, p))

def NOFOLLOW(r, err, s, p) = imp(err == nil, EXT(r) && NODE(r) == nof(s, V(), p) && ABS(r) == nofp(s, V(), p)) && imp(is(err, disko.ErrNotFound), nof(s, V(), p) == 0)
def FOLLOW(r, err, s, p) = imp(err == nil, EXT(r) && !islink(NODE(r)) && NODE(r) == fol(s, V(), p) && ABS(r) == folp(s, V(), p)) && imp(is(err, disko.ErrNotFound), fol(s, V(), p) == 0)
def WHYNOF(err, s, p) = imp(err == nil, !nofdir(s, V(), p)) && imp(err != nil, broken(0) || is(err, disko.ErrLinkCycleDetected) || is(err, disko.ErrNotADirectory) && nofdir(s, V(), p) || is(err, disko.ErrNotFound) && !nofdir(s, V(), p) && nof(s, V(), p) == 0)
def WHYFOL(err, s, p) = imp(err == nil, !foldir(s, V(), p)) && imp(err != nil, broken(0) || is(err, disko.ErrLinkCycleDetected) || is(err, disko.ErrNotADirectory) && foldir(s, V(), p) || is(err, disko.ErrNotFound) && !foldir(s, V(), p) && fol(s, V(), p) == 0)
// where the object was found
def PLACED(r, err, s, p) = imp(err == nil && p != "/", indir(RAW(r)) == fol(s, V(), path.Dir(p)) && asname(RAW(r)) == path.Base(p))
def STILLBROKEN() = imp(old(broken(0)), broken(0))

func (driver *BaseDriver) getContentsOfObject(object) (r, err)
  props C30 C31
  requires EXT(object) && DRIVER(driver)
  modifies broken(0)
  ensures STILLBROKEN()
  assumes linktext: imp(err == nil && islink(NODE(object)), string(r) == linktext(V(), NODE(object)))
  assumes otherwise: !is(err, disko.ErrNotFound) && !is(err, disko.ErrNotADirectory) && imp(err != nil, broken(0))

func (driver *BaseDriver) getExtObjectInDir(baseName, parentObject) (r, err)
  props C31 C33 C34
  requires EXT(parentObject) && isdir(NODE(parentObject)) && driver.implementation != nil
  modifies broken(0)
  ensures [C31] found: imp(err == nil, EXT(r) && NODE(r) == child(V(), NODE(parentObject), baseName) && ABS(r) == joined(ABS(parentObject), baseName))
  ensures place: imp(err == nil, EXT(r) && fresh(r) && indir(RAW(r)) == NODE(parentObject) && asname(RAW(r)) == baseName && NODE(r) == kid(epoch(0), NODE(parentObject), baseName) && !gone(0, ent(NODE(parentObject), baseName)))
  ensures [C31 C34] missing: imp(is(err, disko.ErrNotFound), child(V(), NODE(parentObject), baseName) == 0)
  ensures [C31] failure: iff(broken(0), old(broken(0)) || err != nil && !is(err, disko.ErrNotFound))

func (driver *BaseDriver) resolveSymlink(object, pending) (r, err)
  props C31
  requires EXT(object) && DRIVER(driver) && pending != nil
  modifies mapof(pending), broken(0)
  ensures same: imp(!islink(NODE(object)), r == object && err == nil)
  ensures target: imp(islink(NODE(object)), FOLLOW(r, err, driver.implementation, TARGET(ABS(object), linktext(V(), NODE(object)))))
  ensures why: imp(islink(NODE(object)), WHYFOL(err, driver.implementation, TARGET(ABS(object), linktext(V(), NODE(object)))))
  ensures STILLBROKEN()

func (driver *BaseDriver) lookUpNoFollow(p, pending) (r, err)
  props C31
  requires isclean(p) && DRIVER(driver) && pending != nil
  modifies mapof(pending), broken(0)
  ensures object: NOFOLLOW(r, err, driver.implementation, p)
  ensures why: WHYNOF(err, driver.implementation, p)
  ensures place: PLACED(r, err, driver.implementation, p)
  ensures STILLBROKEN()

func (driver *BaseDriver) lookUpFollowingLink(p, pending) (r, err)
  props C31
  requires isclean(p) && DRIVER(driver) && pending != nil
  modifies mapof(pending), broken(0)
  ensures object: FOLLOW(r, err, driver.implementation, p)
  ensures why: WHYFOL(err, driver.implementation, p)
  ensures STILLBROKEN()

func (driver *BaseDriver) getObjectAtPathNoFollow(p) (r, err)
  props C31
  requires isclean(p) && DRIVER(driver)
  modifies broken(0)
  ensures object: NOFOLLOW(r, err, driver.implementation, p)
  ensures why: WHYNOF(err, driver.implementation, p)
  ensures place: PLACED(r, err, driver.implementation, p)
  ensures STILLBROKEN()

func (driver *BaseDriver) getObjectAtPathFollowingLink(p) (r, err)
  props C31
  requires isclean(p) && DRIVER(driver)
  modifies broken(0)
  ensures object: FOLLOW(r, err, driver.implementation, p)
  ensures why: WHYFOL(err, driver.implementation, p)
  ensures STILLBROKEN()

// ---- changing objects
def WRITABLE(d) = HAS(d.mountFlags, 2)
def READONLY(d, err) = imp(!WRITABLE(d), UNCHANGED() && is(err, disko.ErrReadOnlyFileSystem))
def AP(d, p) = ABSPATH(d, p)
def FOL(d, p) = fol(d.implementation, V(), p)
def NOF(d, p) = nof(d.implementation, V(), p)
def ONCE(n) = changes(0) == old(changes(0)) + 1 && touched(0) == n

func (driver *BaseDriver) checkWritable(p) (err)
  props C30
  ensures iff(err == nil, WRITABLE(driver))
  ensures imp(err != nil, is(err, disko.ErrReadOnlyFileSystem))

func (driver *BaseDriver) chdirToObject(object) (err)
  props C30 C31
  requires EXT(object)
  modifies driver.workingDirPath
  ensures [C31] moved: imp(err == nil, isdir(NODE(object)) && CWD(driver) == ABS(object))
  ensures [C31] stays: imp(err != nil, CWD(driver) == old(CWD(driver)))
  ensures [C31] refused: imp(!isdir(NODE(object)), is(err, disko.ErrNotADirectory))

func (driver *BaseDriver) Chdir(p) (err)
  props C30 C31
  requires DRIVER(driver)
  modifies driver.workingDirPath, broken(0)
  ensures DRIVER(driver)
  ensures [C31] moved: imp(err == nil, old(isdir(FOL(driver, AP(driver, p)))) && CWD(driver) == old(folp(driver.implementation, V(), AP(driver, p))))
  ensures [C31] stays: imp(err != nil, CWD(driver) == old(CWD(driver)))
  ensures [C31] missing: imp(old(FOL(driver, AP(driver, p)) == 0 || !isdir(FOL(driver, AP(driver, p)))), err != nil)

func (driver *BaseDriver) Chmod(p, mode) (err)
  props C30 C31
  requires DRIVER(driver)
  modifies changes(0), epoch(0), touched(0), broken(0)
  ensures [C30] readonly: READONLY(driver, err)
  ensures [C31] reached: imp(!UNCHANGED(), ONCE(old(FOL(driver, AP(driver, p)))))
  ensures [C31] done: imp(err == nil, !UNCHANGED() && old(FOL(driver, AP(driver, p))) != 0)

func (driver *BaseDriver) Chown(p, uid, gid) (err)
  props C30 C31
  requires DRIVER(driver)
  modifies changes(0), epoch(0), touched(0), broken(0)
  ensures [C30] readonly: READONLY(driver, err)
  ensures [C31] reached: imp(!UNCHANGED(), ONCE(old(FOL(driver, AP(driver, p)))))
  ensures [C31] done: imp(err == nil, !UNCHANGED() && old(FOL(driver, AP(driver, p))) != 0)

func (driver *BaseDriver) Lchown(p, uid, gid) (err)
  props C30 C31
  requires DRIVER(driver)
  modifies changes(0), epoch(0), touched(0), broken(0)
  ensures [C30] readonly: READONLY(driver, err)
  ensures [C31] reached: imp(!UNCHANGED(), ONCE(old(NOF(driver, AP(driver, p)))))
  ensures [C31] done: imp(err == nil, !UNCHANGED() && old(NOF(driver, AP(driver, p))) != 0)

func (driver *BaseDriver) Chtimes(p, atime, mtime) (err)
  props C30 C31
  requires DRIVER(driver)
  modifies changes(0), epoch(0), touched(0), broken(0)
  ensures [C30] readonly: READONLY(driver, err)
  ensures [C31] reached: imp(!UNCHANGED(), ONCE(old(FOL(driver, AP(driver, p)))))
  ensures [C31] done: imp(err == nil, !UNCHANGED() && old(FOL(driver, AP(driver, p))) != 0)

func (driver *BaseDriver) Truncate(p) (err)
  props C30 C31
  requires DRIVER(driver)
  modifies changes(0), epoch(0), touched(0), broken(0)
  ensures [C30] readonly: READONLY(driver, err)
  ensures [C31] reached: imp(!UNCHANGED(), ONCE(old(FOL(driver, AP(driver, p)))))
  ensures [C31] done: imp(err == nil, !UNCHANGED() && old(FOL(driver, AP(driver, p))) != 0)

// ---- looking at objects
func (driver *BaseDriver) Stat(p) (r, err)
  props C30 C31
  requires DRIVER(driver)
  modifies broken(0)
  ensures [C31] object: imp(err == nil, FOL(driver, AP(driver, p)) != 0 && r.InodeNumber == inode(FOL(driver, AP(driver, p))) && KINDS(r.ModeFlags, FOL(driver, AP(driver, p))))
  ensures [C31] why: WHYFOL(err, driver.implementation, AP(driver, p))

func (driver *BaseDriver) Lstat(p) (r, err)
  props C30 C31
  requires DRIVER(driver)
  modifies broken(0)
  ensures [C31] object: imp(err == nil, NOF(driver, AP(driver, p)) != 0 && r.InodeNumber == inode(NOF(driver, AP(driver, p))) && KINDS(r.ModeFlags, NOF(driver, AP(driver, p))))
  ensures [C31] why: WHYNOF(err, driver.implementation, AP(driver, p))

func (driver *BaseDriver) Readlink(p) (r, err)
  props C30 C31
  requires DRIVER(driver)
  modifies broken(0)
  ensures [C31] text: imp(err == nil, islink(NOF(driver, AP(driver, p))) && r == linktext(V(), NOF(driver, AP(driver, p))))

func (driver *BaseDriver) ReadFile(p) (r, err)
  props C30 C31
  requires DRIVER(driver)
  modifies broken(0)

// ---- removing
def PARDIR(d, p) = FOL(d, path.Dir(p))
def OWN(d, p) = ent(PARDIR(d, p), path.Base(p))
def GONEONLY(e) = forall(x, iff(gone(0, x), old(gone(0, x)) || x == e))
def KEPT() = forall(x, iff(gone(0, x), old(gone(0, x))))

func listDir(directory) (r, err)
  props C30 C32 C33
  requires EXT(directory)
  ensures notdir: imp(!isdir(NODE(directory)), is(err, disko.ErrNotADirectory))
  ensures [C32] names: imp(err == nil, len(r) == nnames(V(), NODE(directory)) && forall(j, 0, len(r), r[j] == NAME(NODE(directory), j)))
  ensures [C33] all: imp(err == nil, forall(x, imp(LIVE(NODE(directory), x), 0 <= lpos(obj(r), x) && lpos(obj(r), x) < len(r) && r[lpos(obj(r), x)] == x)))
  ensures [C33] only: imp(err == nil, fresh(r) && off(r) == 0 && forall(j, 0, len(r), ISDOTS(r[j]) || kid(epoch(0), NODE(directory), r[j]) != 0 && !gone(0, ent(NODE(directory), r[j]))))

func removeDotsFromSlice(arr) (r)
  props C33
  ensures dots: iff(len(r) == 0, forall(j, 0, len(arr), ISDOTS(arr[j])))
  inv 0 <= $n && $n <= $i
  inv imp($n == 0, forall(j, 0, $i, !ISDOTS(arr[j])))
  inv iff(len($s) == 0, forall(j, 0, $i, ISDOTS(arr[j])))

func (driver *BaseDriver) Remove(p) (err)
  props C30 C33
  requires DRIVER(driver)
  requires [C33] !stuck(0)
  modifies changes(0), gone(0), stuck(0), unlinks(0), broken(0)
  ensures [C30] readonly: READONLY(driver, err)
  ensures [C33] root: imp(AP(driver, p) == "/", err != nil && UNCHANGED() && KEPT())
  ensures [C33] once: changes(0) == old(changes(0)) || changes(0) == old(changes(0)) + 1
  ensures [C33] removed: imp(err == nil, old(NOF(driver, AP(driver, p))) != 0 && unlinks(0) == old(unlinks(0)) + 1 && GONEONLY(old(OWN(driver, AP(driver, p)))))
  ensures [C33] kept: imp(err != nil, KEPT())
  ensures [C33] nonempty: imp(old(isdir(NOF(driver, AP(driver, p))) && !EMPTY(NOF(driver, AP(driver, p)))), err != nil && unlinks(0) == old(unlinks(0)))

// directory n is directory m or somewhere below it, in epoch v
fn under(v, n, m) bool
axiom underSelf {v, n; under(v, n, n)}: under(v, n, n)
axiom underKid {v, n, m, x; under(v, n, kid(v, m, x)), kid(v, m, x)}: imp(under(v, n, kid(v, m, x)), under(v, n, m))
def GONEBELOW(n) = forall(e, imp(gone(0, e) && !old(gone(0, e)), under(epoch(0), entdir(e), n)))
def MORE() = forall(e, imp(old(gone(0, e)), gone(0, e)))

func (driver *BaseDriver) removeDirectory(directory) (err)
  props C30 C33
  requires EXT(directory) && driver.implementation != nil
  requires [C30] WRITABLE(driver)
  requires [C33] !stuck(0)
  modifies changes(0), gone(0), stuck(0), unlinks(0), broken(0)
  ensures [C33] empty: imp(err == nil, isdir(NODE(directory)) && EMPTY(NODE(directory)) && !stuck(0))
  ensures [C33] below: GONEBELOW(NODE(directory))
  ensures [C33] more: MORE()
  inv GONEBELOW(NODE(directory))
  inv MORE()
  inv !stuck(0)
  inv forall(j, 0, $i, ISDOTS($s[j]) || gone(0, ent(NODE(directory), $s[j])))

func (driver *BaseDriver) RemoveAll(p) (err)
  props C30 C33
  requires DRIVER(driver)
  requires [C33] !stuck(0)
  modifies changes(0), gone(0), stuck(0), unlinks(0), broken(0)
  ensures [C30] readonly: READONLY(driver, err)
  ensures [C33] root: imp(old(NOF(driver, AP(driver, p))) == rootnode(driver.implementation), err != nil && UNCHANGED() && KEPT())
  ensures [C33] notdir: imp(old(!isdir(NOF(driver, AP(driver, p)))), err != nil && UNCHANGED() && KEPT())
  ensures [C33] removed: imp(err == nil, gone(0, old(OWN(driver, AP(driver, p)))) && EMPTY(old(NOF(driver, AP(driver, p)))) && !stuck(0))
  ensures [C33] only: forall(e, imp(gone(0, e) && !old(gone(0, e)), e == old(OWN(driver, AP(driver, p))) && err == nil || under(epoch(0), entdir(e), old(NOF(driver, AP(driver, p))))))

// ---- creating
def MAKES() = changes(0) == old(changes(0)) + 1
def CREATES(f) = HAS(f, 512)
def EXCLUSIVE(f) = HAS(f, 512) && HAS(f, 2048)
// why an operation can fail that refuses to touch what exists
def REFUSED(d, err) = is(err, disko.ErrExists) || broken(0) || is(err, disko.ErrLinkCycleDetected) || !WRITABLE(d) && is(err, disko.ErrReadOnlyFileSystem)
def FOK(f) = f.BasicStream != nil && FILE(f.BasicStream) && f.owningDriver != nil && DRIVER(f.owningDriver) && EXT(f.objectHandle) && f.ioFlags == f.BasicStream.ioFlags &&
  imp(!WRITABLE(f.owningDriver), !WR(f.BasicStream) && CLEAN(f.BasicStream))

func (driver *BaseDriver) createExtObject(baseName, parentObject, perm) (r, err)
  props C30 C34
  requires EXT(parentObject) && isdir(NODE(parentObject)) && driver.implementation != nil
  requires [C34] absent: child(V(), NODE(parentObject), baseName) == 0
  requires [C30] WRITABLE(driver)
  modifies changes(0), epoch(0), made(0)
  ensures MAKES() && made(0) == ent(NODE(parentObject), baseName)
  ensures imp(err == nil, EXT(r) && fresh(r))

func (driver *BaseDriver) OpenFile(p, flags, perm) (r, err)
  props C30 C34
  requires DRIVER(driver)
  modifies changes(0), epoch(0), made(0), broken(0)
  ensures opened: imp(err == nil, FOK(r) && fresh(r.BasicStream) && r.owningDriver == driver && r.ioFlags == flags && r.BasicStream.position == 0 && imp(HAS(flags, 1024), r.BasicStream.size == 0))
  ensures own: imp(err == nil, fresh(r.BasicStream.data) && fresh(r.BasicStream.data.data) && fresh(r.BasicStream.data.loadedBlocks) && fresh(r.BasicStream.data.dirtyBlocks))
  ensures [C30] readonly: imp(!WRITABLE(driver), UNCHANGED() && imp(flags % 4 == 1 || flags % 4 == 2 || HAS(flags, 1024), is(err, disko.ErrReadOnlyFileSystem)))
  ensures [C34] exclusive: imp(EXCLUSIVE(flags) && old(NOF(driver, AP(driver, p))) != 0, UNCHANGED() && err != nil && REFUSED(driver, err))
  ensures [C34] missing: imp(!CREATES(flags) && old(FOL(driver, AP(driver, p))) == 0, err != nil && UNCHANGED())
  ensures [C34] nocreate: imp(!CREATES(flags), UNCHANGED())
  ensures [C34] existing: imp(old(FOL(driver, AP(driver, p))) != 0, UNCHANGED())
  ensures [C34] reached: imp(err == nil && UNCHANGED(), NODE(r.objectHandle) == old(FOL(driver, AP(driver, p))))
  ensures [C34] made: imp(!UNCHANGED(), MAKES() && made(0) == old(OWN(driver, AP(driver, p))) && old(NOF(driver, AP(driver, p))) == 0)
  ensures [C34] done: imp(err == nil && old(FOL(driver, AP(driver, p))) == 0, MAKES())

func (driver *BaseDriver) Open(p) (r, err)
  props C30 C34
  requires DRIVER(driver)
  modifies changes(0), epoch(0), made(0), broken(0)
  ensures unchanged: UNCHANGED()
  ensures opened: imp(err == nil, FOK(r) && r.owningDriver == driver)
  ensures [C34] missing: imp(old(FOL(driver, AP(driver, p))) == 0, err != nil)
  ensures [C34] reached: imp(err == nil, NODE(r.objectHandle) == old(FOL(driver, AP(driver, p))))

func (driver *BaseDriver) Create(p) (r, err)
  props C30 C34
  requires DRIVER(driver)
  modifies changes(0), epoch(0), made(0), broken(0)
  ensures [C30] readonly: READONLY(driver, err)
  ensures opened: imp(err == nil, FOK(r) && r.owningDriver == driver)
  ensures [C34] exclusive: imp(old(NOF(driver, AP(driver, p))) != 0, UNCHANGED() && err != nil && REFUSED(driver, err))
  ensures [C34] made: imp(!UNCHANGED(), MAKES() && made(0) == old(OWN(driver, AP(driver, p))) && old(NOF(driver, AP(driver, p))) == 0)
  ensures [C34] done: imp(err == nil, MAKES())

func (driver *BaseDriver) WriteFile(p, data, perm) (err)
  props C30 C34
  requires DRIVER(driver)
  modifies changes(0), epoch(0), made(0), broken(0), touched(0)
  ensures [C30] readonly: READONLY(driver, err)

func (driver *BaseDriver) Mkdir(p, perm) (err)
  props C30 C34
  requires DRIVER(driver)
  modifies changes(0), epoch(0), made(0), broken(0)
  ensures [C30] readonly: READONLY(driver, err)
  ensures [C34] exclusive: imp(old(NOF(driver, AP(driver, p))) != 0, UNCHANGED() && err != nil && REFUSED(driver, err))
  ensures [C34] made: imp(!UNCHANGED(), MAKES() && made(0) == old(OWN(driver, AP(driver, p))) && old(NOF(driver, AP(driver, p))) == 0)
  ensures [C34] done: imp(err == nil, MAKES())

func (driver *BaseDriver) MkdirAll(p, perm) (err)
  props C30 C34
  requires DRIVER(driver)
  modifies changes(0), epoch(0), made(0), broken(0)
  ensures [C30] readonly: READONLY(driver, err)
  ensures [C34] existing: imp(old(FOL(driver, AP(driver, p))) != 0, UNCHANGED())
  ensures [C34] file: imp(old(FOL(driver, AP(driver, p)) != 0 && !isdir(FOL(driver, AP(driver, p)))), err != nil)

func (driver *BaseDriver) Link(oldname, newname) (err)
  props C30 C34
  requires DRIVER(driver)
  modifies changes(0), epoch(0), made(0), broken(0)
  ensures [C30] readonly: imp(!WRITABLE(driver), UNCHANGED() && err != nil)
  ensures [C34] exclusive: imp(old(NOF(driver, AP(driver, newname))) != 0, UNCHANGED() && err != nil)
  ensures [C34] directory: imp(old(isdir(FOL(driver, AP(driver, oldname)))), UNCHANGED() && err != nil)
  ensures [C34] made: imp(!UNCHANGED(), MAKES() && made(0) == old(OWN(driver, AP(driver, newname))) && old(NOF(driver, AP(driver, newname))) == 0)
  ensures [C34] done: imp(err == nil, MAKES())

// ---- files
func (file *File) Sync() (err)
  props C30 C36
  requires FOK(file)
  modifies object(file.BasicStream.data.data), bits(file.BasicStream.data.loadedBlocks), bits(file.BasicStream.data.dirtyBlocks), calls(file.BasicStream.data), disk(file.BasicStream.data), nwrites(file.BasicStream.data), mods(file.BasicStream.data), changes(0), epoch(0), touched(0), file.fileInfo.FileStat.Size
  ensures FOK(file)
  ensures silent: imp(!WR(file.BasicStream), UNCHANGED() && epoch(0) == old(epoch(0)) && touched(0) == old(touched(0)))
  ensures clean: imp(old(CLEAN(file.BasicStream)), SILENT(file.BasicStream))
  ensures [C36] size: imp(err == nil && WR(file.BasicStream), objsize(E(), NODE(file.objectHandle)) == file.BasicStream.size)
  ensures [C36] flushed: imp(err == nil, CLEAN(file.BasicStream) && PERSISTED(file.BasicStream))
  ensures [C36] same: SAMEFILE(file.BasicStream)

func (file *File) Close() (err)
  props C30 C36
  requires FOK(file)
  modifies object(file.BasicStream.data.data), bits(file.BasicStream.data.loadedBlocks), bits(file.BasicStream.data.dirtyBlocks), calls(file.BasicStream.data), disk(file.BasicStream.data), nwrites(file.BasicStream.data), mods(file.BasicStream.data), changes(0), epoch(0), touched(0), file.fileInfo.FileStat.Size
  ensures FOK(file)
  ensures silent: imp(!WR(file.BasicStream), UNCHANGED() && epoch(0) == old(epoch(0)) && touched(0) == old(touched(0)))
  ensures clean: imp(old(CLEAN(file.BasicStream)), SILENT(file.BasicStream))
  ensures [C36] size: imp(err == nil && WR(file.BasicStream), objsize(E(), NODE(file.objectHandle)) == file.BasicStream.size)
  ensures [C36] flushed: imp(err == nil, CLEAN(file.BasicStream) && PERSISTED(file.BasicStream))
  ensures [C36] same: SAMEFILE(file.BasicStream)

func (file *File) Chmod(mode) (err)
  props C30
  requires FOK(file)
  modifies changes(0), epoch(0), touched(0)
  ensures readonly: READONLY(file.owningDriver, err)

func (file *File) Chown(uid, gid) (err)
  props C30
  requires FOK(file)
  modifies changes(0), epoch(0), touched(0)
  ensures readonly: READONLY(file.owningDriver, err)

// ---- listing
// the names directory n has while there were v changes, and the position each one has
// among those that aren't dots
fn nnames(v, n) int
fn nname(v, n, j) str
fn nd(v, n, j) int
axiom ndStart {v, n; nnames(v, n)}: nd(v, n, 0) == 0 && nnames(v, n) >= 0
axiom ndNext {v, n, j; nd(v, n, j), nname(v, n, j)}: imp(j >= 0, nd(v, n, j + 1) == nd(v, n, j) + ite(ISDOTS(nname(v, n, j)), 0, 1))
def TOTAL(n) = nd(V(), n, nnames(V(), n))
def NAME(n, j) = nname(V(), n, j)
def PLACE(n, j) = nd(V(), n, j)
def DIRENT(e) = as(e, "DirectoryEntry")
def DESCRIBES(e, n, x) = e != nil && typeis(e, "DirectoryEntry") && DIRENT(e).name == x && DIRENT(e).stat.InodeNumber == inode(child(V(), n, x)) && KINDS(DIRENT(e).stat.ModeFlags, child(V(), n, x))

def ENTRIES(s) = forall(k, 0, len(s), s[k] != nil && typeis(s[k], "DirectoryEntry"))

func NewDirectoryEntryFromHandle(object) (r)
  props C30 C32
  requires object != nil
  ensures r.name == asname(object) && r.stat.InodeNumber == inode(node(object)) && KINDS(r.stat.ModeFlags, node(object))
func (dirent DirectoryEntry) Name() (r)
  props C32
  ensures r == dirent.name
func (dirent DirectoryEntry) Stat() (r)
  props C32
  ensures r.InodeNumber == dirent.stat.InodeNumber && r.ModeFlags == dirent.stat.ModeFlags && r.Size == dirent.stat.Size
func (dirent DirectoryEntry) Mode() (r)
  props C32
  ensures r == dirent.stat.ModeFlags
func (dirent DirectoryEntry) Type() (r)
  props C32
  ensures r == dirent.stat.ModeFlags
func (dirent DirectoryEntry) Size() (r)
  props C32
  ensures r == dirent.stat.Size
func (dirent DirectoryEntry) IsDir() (r)
  props C32
  ensures iff(r, HAS(dirent.stat.ModeFlags, 2147483648))

func (driver *BaseDriver) readDir(directory) (r, err)
  props C30 C32
  requires EXT(directory) && driver.implementation != nil
  modifies broken(0)
  ensures notdir: imp(!isdir(NODE(directory)), is(err, disko.ErrNotADirectory))
  ensures new: imp(err == nil, fresh(r) && off(r) == 0 && obj(r) != 0)
  ensures [C32] kinds: imp(err == nil, ENTRIES(r))
  ensures [C32] count: imp(err == nil, len(r) == TOTAL(NODE(directory)))
  ensures [C32] entries: imp(err == nil, forall(j, 0, nnames(V(), NODE(directory)), imp(!ISDOTS(NAME(NODE(directory), j)), 0 <= PLACE(NODE(directory), j) && PLACE(NODE(directory), j) < len(r) && DESCRIBES(r[PLACE(NODE(directory), j)], NODE(directory), NAME(NODE(directory), j)))))
  inv ENTRIES($s)
  inv len($s) == PLACE(NODE(directory), $i)
  inv forall(j, 0, $i, 0 <= PLACE(NODE(directory), j) && PLACE(NODE(directory), j) <= PLACE(NODE(directory), $i) && imp(!ISDOTS(NAME(NODE(directory), j)), PLACE(NODE(directory), j) < len($s) && DESCRIBES($s[PLACE(NODE(directory), j)], NODE(directory), NAME(NODE(directory), j))))

func (driver *BaseDriver) ReadDir(p) (r, err)
  props C30 C31 C32
  requires DRIVER(driver)
  modifies broken(0)
  ensures [C31] missing: imp(FOL(driver, AP(driver, p)) == 0, err != nil)
  ensures [C32] notdir: imp(FOL(driver, AP(driver, p)) != 0 && !isdir(FOL(driver, AP(driver, p))), err != nil)
  ensures [C32] kinds: imp(err == nil, ENTRIES(r))
  ensures [C32] count: imp(err == nil, len(r) == TOTAL(FOL(driver, AP(driver, p))))
  ensures [C31 C32] entries: imp(err == nil, let(d, FOL(driver, AP(driver, p)), forall(j, 0, nnames(V(), d), imp(!ISDOTS(NAME(d, j)), 0 <= PLACE(d, j) && PLACE(d, j) < len(r) && DESCRIBES(r[PLACE(d, j)], d, NAME(d, j))))))

def SAMEENTRY(a, b) = a != nil && typeis(a, "github.com/dargueta/disko/driver.DirectoryEntry") && as(a, "github.com/dargueta/disko/driver.DirectoryEntry").name == as(b, "github.com/dargueta/disko/driver.DirectoryEntry").name &&
  as(a, "github.com/dargueta/disko/driver.DirectoryEntry").stat.InodeNumber == as(b, "github.com/dargueta/disko/driver.DirectoryEntry").stat.InodeNumber && as(a, "github.com/dargueta/disko/driver.DirectoryEntry").stat.ModeFlags == as(b, "github.com/dargueta/disko/driver.DirectoryEntry").stat.ModeFlags
iface (io/fs.DirEntry).Info(self) (r, err)
  ensures imp(typeis(self, "github.com/dargueta/disko/driver.DirectoryEntry"), err == nil && SAMEENTRY(r, self))
iface (io/fs.DirEntry).Name(self) (r)
  ensures imp(typeis(self, "github.com/dargueta/disko/driver.DirectoryEntry"), r == as(self, "github.com/dargueta/disko/driver.DirectoryEntry").name)
func (dirent DirectoryEntry) Info() (r, err)
  props C32
  ensures err == nil && r != nil && typeis(r, "DirectoryEntry") && DIRENT(r).name == dirent.name && DIRENT(r).stat.InodeNumber == dirent.stat.InodeNumber && DIRENT(r).stat.ModeFlags == dirent.stat.ModeFlags

// the entries that are still to be given out
def QUEUE(f) = f.lastReadDirResult
def AHEAD(f) = f.readDirResultPointer
def QOK(f) = 0 <= AHEAD(f) && AHEAD(f) <= len(QUEUE(f)) && ENTRIES(QUEUE(f)) && imp(obj(QUEUE(f)) == 0, len(QUEUE(f)) == 0)
def DIRNODE(f) = NODE(f.objectHandle)
def PAGE(n, left) = ite(n <= 0, left, min(n, left))
def LISTED(s, count, n) = forall(j, 0, nnames(V(), n), imp(!ISDOTS(NAME(n, j)) && PLACE(n, j) < count, 0 <= PLACE(n, j) && DESCRIBES(s[PLACE(n, j)], n, NAME(n, j))))

func (file *File) ReadDir(n) (r, err)
  props C30 C32
  requires FOK(file) && QOK(file)
  modifies file.lastReadDirResult, file.readDirResultPointer, broken(0)
  ensures QOK(file)
  ensures [C32] notdir: imp(!isdir(DIRNODE(file)), err == disko.ErrNotADirectory && len(r) == 0)
  ensures [C32] kinds: ENTRIES(r)
  ensures [C32] failed: imp(err != nil, len(r) == 0)
  ensures [C32] end: imp(isdir(DIRNODE(file)) && old(obj(QUEUE(file)) != 0 && AHEAD(file) == len(QUEUE(file))), len(r) == 0 && obj(QUEUE(file)) == 0 && iff(err == nil, n <= 0) && imp(n > 0, err == io.EOF))
  ensures [C32] page: imp(isdir(DIRNODE(file)) && old(obj(QUEUE(file)) != 0 && AHEAD(file) < len(QUEUE(file))), err == nil && len(r) == PAGE(n, old(len(QUEUE(file)) - AHEAD(file))) &&
    forall(k, 0, len(r), r[k] == old(QUEUE(file)[AHEAD(file) + k])) && unchanged(QUEUE(file)) && AHEAD(file) == old(AHEAD(file)) + len(r))
  ensures [C32] first: imp(old(obj(QUEUE(file))) == 0 && err == nil, len(r) == PAGE(n, TOTAL(DIRNODE(file))) && LISTED(r, len(r), DIRNODE(file)))
  ensures [C32] queued: imp(old(obj(QUEUE(file))) == 0 && err == nil && TOTAL(DIRNODE(file)) > 0, obj(QUEUE(file)) != 0 && len(QUEUE(file)) == TOTAL(DIRNODE(file)) && AHEAD(file) == len(r) && LISTED(QUEUE(file), TOTAL(DIRNODE(file)), DIRNODE(file)))
  inv AHEAD(file) == entry(AHEAD(file)) + $i
  inv forall(k, 0, $i, $s[k] == QUEUE(file)[entry(AHEAD(file)) + k] && $s[k] != nil && typeis($s[k], "DirectoryEntry"))

func (file *File) Readdirnames(n) (r, err)
  props C30 C32
  requires FOK(file) && QOK(file)
  modifies file.lastReadDirResult, file.readDirResultPointer, broken(0)
  ensures QOK(file)
  ensures [C32] notdir: imp(!isdir(DIRNODE(file)), err != nil)
  ensures [C32] end: imp(isdir(DIRNODE(file)) && old(obj(QUEUE(file)) != 0 && AHEAD(file) == len(QUEUE(file))), len(r) == 0 && iff(err == nil, n <= 0) && imp(n > 0, err == io.EOF))
  ensures [C32] page: imp(isdir(DIRNODE(file)) && old(obj(QUEUE(file)) != 0 && AHEAD(file) < len(QUEUE(file))), err == nil && len(r) == PAGE(n, old(len(QUEUE(file)) - AHEAD(file))) &&
    forall(k, 0, len(r), r[k] == DIRENT(old(QUEUE(file)[AHEAD(file) + k])).name))
  ensures [C32] first: imp(old(obj(QUEUE(file))) == 0 && err == nil, len(r) == PAGE(n, TOTAL(DIRNODE(file))) && forall(j, 0, nnames(V(), DIRNODE(file)), imp(!ISDOTS(NAME(DIRNODE(file), j)) && PLACE(DIRNODE(file), j) < len(r), r[PLACE(DIRNODE(file), j)] == NAME(DIRNODE(file), j))))
  inv forall(k, 0, $i, $s[k] == DIRENT($s2[k]).name)

func (file *File) Readdir(n) (r, err)
  props C30 C32
  requires FOK(file) && QOK(file)
  modifies file.lastReadDirResult, file.readDirResultPointer, broken(0)
  ensures QOK(file)
  ensures [C32] notdir: imp(!isdir(DIRNODE(file)), err != nil)
  ensures [C32] end: imp(isdir(DIRNODE(file)) && old(obj(QUEUE(file)) != 0 && AHEAD(file) == len(QUEUE(file))), len(r) == 0 && iff(err == nil, n <= 0) && imp(n > 0, err == io.EOF))
  ensures [C32] page: imp(isdir(DIRNODE(file)) && old(obj(QUEUE(file)) != 0 && AHEAD(file) < len(QUEUE(file))), err == nil && len(r) == PAGE(n, old(len(QUEUE(file)) - AHEAD(file))) &&
    forall(k, 0, len(r), SAMEENTRY(r[k], old(QUEUE(file)[AHEAD(file) + k]))))
  ensures [C32] first: imp(old(obj(QUEUE(file))) == 0 && err == nil, len(r) == PAGE(n, TOTAL(DIRNODE(file))) && LISTED(r, len(r), DIRNODE(file)))
  inv forall(k, 0, $i, SAMEENTRY($s[k], $s2[k]))

// ---- normalising again
axiom cleanSlashes {p; filepath.ToSlash(p), isclean(p)}: imp(isclean(p), filepath.ToSlash(p) == p)
func verifNormalizeTwice(driver, p) (a, b)
  props C29
  lemma
  requires isclean(CWD(driver))
  ensures again: a == b && isclean(a)
func verifNormalizeMoved(driver, other, p) (a, b)
  props C29
  lemma
  requires isclean(CWD(driver)) && isclean(CWD(other)) && driver != nil && other != nil
  ensures again: a == b && isclean(a)

// ---- the file of an object
func verifFileOpen(driver, object, flags) (file, err)
  props C36
  lemma
  requires EXT(object) && driver != nil
  ensures quiet: UNCHANGED()
  ensures position: imp(err == nil, file.BasicStream.position == 0 && file.BasicStream.ioFlags == flags && file.ioFlags == flags)
  ensures size: imp(err == nil && !TRUNC(flags), file.BasicStream.size == objsize(E(), NODE(object)))
  ensures blocks: imp(err == nil, file.BasicStream.data.bytesPerBlock == blocksize(NODE(object)))
  ensures fresh: imp(err == nil && !TRUNC(flags), file.BasicStream.data.totalBlocks == objblocks(E(), NODE(object)) && forall(i, 0, file.BasicStream.data.totalBlocks, !LD(file.BasicStream.data, i) && !DT(file.BasicStream.data, i)))
  ensures opened: imp(!TRUNC(flags) && objsize(E(), NODE(object)) <= objblocks(E(), NODE(object)) * blocksize(NODE(object)), err == nil)
  ensures handle: imp(err == nil, file.objectHandle == object)

func verifFileFetch(driver, object, flags, block, buffer) (err1, err)
  props C36
  lemma
  requires EXT(object) && driver != nil && !TRUNC(flags) && len(buffer) == blocksize(NODE(object))
  modifies elems(buffer)
  ensures content: imp(err1 == nil && err == nil, forall(k, 0, len(buffer), buffer[k] == objbyte(E(), NODE(object), block * blocksize(NODE(object)) + k)))
  ensures quiet: UNCHANGED()

func verifFileFlush(driver, object, flags, block, buffer) (err1, err)
  props C36
  lemma
  requires EXT(object) && driver != nil && !TRUNC(flags) && len(buffer) == blocksize(NODE(object))
  modifies changes(0), epoch(0), touched(0)
  ensures content: imp(err1 == nil && err == nil, forall(m, block * blocksize(NODE(object)), (block + 1) * blocksize(NODE(object)), objbyte(E(), NODE(object), m) == buffer[m - block * blocksize(NODE(object))]))
  ensures others: imp(err1 == nil, forall(m, imp(m < block * blocksize(NODE(object)) || m >= (block + 1) * blocksize(NODE(object)), objbyte(E(), NODE(object), m) == old(objbyte(E(), NODE(object), m)))))
  ensures size: imp(err1 == nil, objsize(E(), NODE(object)) == old(objsize(E(), NODE(object))))
  ensures once: imp(err1 == nil, changes(0) == old(changes(0)) + 1 && touched(0) == NODE(object))

func verifFileResize(driver, object, flags, n) (err1, err)
  props C36
  lemma
  requires EXT(object) && driver != nil && !TRUNC(flags) && n * blocksize(NODE(object)) <= LIMIT()
  modifies changes(0), epoch(0), touched(0)
  ensures size: imp(err1 == nil && err == nil, objsize(E(), NODE(object)) == n * blocksize(NODE(object)))
  ensures once: imp(err1 == nil, changes(0) == old(changes(0)) + 1 && touched(0) == NODE(object))
