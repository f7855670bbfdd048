package github.com/dargueta/disko

// the bit of value p is set in x
def HAS(x, p) = bdiv(x, p) % 2 == 1

func (flags MountFlags) CanRead() (r)
  props C27
  ensures iff(r, HAS(flags, 1))
func (flags MountFlags) CanWrite() (r)
  props C27
  ensures iff(r, HAS(flags, 2))
func (flags MountFlags) CanDelete() (r)
  props C27
  ensures iff(r, HAS(flags, 8))

func (flags IOFlags) Append() (r)
  props C27
  ensures iff(r, HAS(flags, 8))
func (flags IOFlags) Create() (r)
  props C27
  ensures iff(r, HAS(flags, 512))
func (flags IOFlags) Truncate() (r)
  props C27
  ensures iff(r, HAS(flags, 1024))
func (flags IOFlags) Exclusive() (r)
  props C27
  ensures iff(r, HAS(flags, 2048))
func (flags IOFlags) Synchronous() (r)
  props C27
  ensures iff(r, HAS(flags, 8192))
func (flags IOFlags) NoFollow() (r)
  props C27
  ensures iff(r, HAS(flags, 1048576))
func (flags IOFlags) Read() (r)
  props C27
  ensures iff(r, flags % 4 == 0 || flags % 4 == 2)
func (flags IOFlags) Write() (r)
  props C27
  ensures iff(r, flags % 4 == 1 || flags % 4 == 2)
func (flags IOFlags) RequiresWritePerm() (r)
  props C27
  ensures iff(r, flags % 4 == 1 || flags % 4 == 2 || HAS(flags, 1024))

func OSFlagsToIOFlags(flags) (r)
  props C27
  ensures mode: imp(flags % 4 != 3, r % 4 == flags % 4)
  ensures append: iff(HAS(r, 8), HAS(flags, os.O_APPEND))
  ensures create: iff(HAS(r, 512), HAS(flags, os.O_CREATE))
  ensures truncate: iff(HAS(r, 1024), HAS(flags, os.O_TRUNC))
  ensures exclusive: iff(HAS(r, 2048), HAS(flags, os.O_EXCL))
  ensures synced: imp(HAS(flags, 1048576) && HAS(flags, 4096), HAS(r, 8192))
  ensures notsynced: imp(!HAS(flags, 1048576) && !HAS(flags, 4096), !HAS(r, 8192))
  ensures nothingelse: r - r % 4 == ite(HAS(r, 8), 8, 0) + ite(HAS(r, 512), 512, 0) + ite(HAS(r, 1024), 1024, 0) + ite(HAS(r, 2048), 2048, 0) + ite(HAS(r, 8192), 8192, 0)

extern (io/fs.FileMode).IsDir(m) (r)
  ensures iff(r, HAS(m, 2147483648))
extern (io/fs.FileMode).IsRegular(m) (r)
  ensures iff(r, !HAS(m, 2147483648) && !HAS(m, 134217728) && !HAS(m, 67108864) && !HAS(m, 33554432) && !HAS(m, 16777216) && !HAS(m, 2097152) && !HAS(m, 524288))
extern (io/fs.FileMode).Type(m) (r)
  ensures r == m & 2401763328
extern (io/fs.FileMode).Perm(m) (r)
  ensures r == m & 511

func (stat *FileStat) IsDir() (r)
  props C27
  ensures iff(r, HAS(stat.ModeFlags, 2147483648))
func (stat *FileStat) IsFile() (r)
  props C27
  ensures yes: imp(r, !HAS(stat.ModeFlags, 2147483648) && !HAS(stat.ModeFlags, 134217728) && !HAS(stat.ModeFlags, 67108864) && !HAS(stat.ModeFlags, 33554432) && !HAS(stat.ModeFlags, 16777216) && !HAS(stat.ModeFlags, 2097152) && !HAS(stat.ModeFlags, 524288))
  ensures no: imp(!r, HAS(stat.ModeFlags, 2147483648) || HAS(stat.ModeFlags, 134217728) || HAS(stat.ModeFlags, 67108864) || HAS(stat.ModeFlags, 33554432) || HAS(stat.ModeFlags, 16777216) || HAS(stat.ModeFlags, 2097152) || HAS(stat.ModeFlags, 524288))
func (stat *FileStat) IsSymlink() (r)
  props C27
  ensures iff(r, HAS(stat.ModeFlags, 134217728) && !HAS(stat.ModeFlags, 2147483648) && !HAS(stat.ModeFlags, 67108864) && !HAS(stat.ModeFlags, 33554432) && !HAS(stat.ModeFlags, 16777216) && !HAS(stat.ModeFlags, 2097152) && !HAS(stat.ModeFlags, 524288))

func (stat FSStat) TotalSizeBytes() (n)
  props C27
  requires stat.BlockSize * stat.TotalBlocks <= 9223372036854775807 && stat.TotalBlocks <= 9223372036854775807 && stat.BlockSize <= 9223372036854775807
  ensures n == stat.BlockSize * stat.TotalBlocks

func verifKinds(stat) (dir, file, link)
  props C27
  lemma
  requires stat != nil
  ensures exclusive: !(dir && file) && !(dir && link) && !(file && link)

// ---- errors
func (e customDriverError) Unwrap() (r)
  props C28
  ensures cause: r == e.originalError
func (e customDriverError) Error() (r)
  props C28
  ensures text: r == e.message
func (e baseDiskoError) Error() (r)
  props C28
  ensures text: r == e
func (e baseDiskoError) RootCause() (r)
  props C28
  ensures same: forall(t, iff(is(r, t), is(box(e), t)))

func (e customDriverError) WithMessage(message) (r)
  props C28
  ensures something: r != nil
  ensures kept: forall(t, imp(is(box(e), t), is(r, t)))
  ensures nothingelse: forall(t, imp(is(r, t), t == r || is(box(e), t)))
  ensures text: errtext(r) == concat(errtext(box(e)), ": ", message)
func (e customDriverError) Wrap(err) (r)
  props C28
  requires err != nil
  ensures something: r != nil
  ensures kept: forall(t, imp(is(box(e), t), is(r, t)))
  ensures wrapped: forall(t, imp(is(err, t), is(r, t)))
  ensures nothingelse: forall(t, imp(is(r, t), t == r || is(box(e), t) || is(err, t) || isnew(t)))
  ensures text: errtext(r) == concat(errtext(box(e)), ": ", errtext(err))

func (e baseDiskoError) WithMessage(message) (r)
  props C28
  ensures something: r != nil
  ensures kept: forall(t, imp(is(box(e), t), is(r, t)))
  ensures nothingelse: forall(t, imp(is(r, t), t == r || is(box(e), t)))
  ensures text: errtext(r) == ite(e == "", message, concat(errtext(box(e)), ": ", message))
func (e baseDiskoError) Wrap(err) (r)
  props C28
  requires err != nil
  ensures something: r != nil
  ensures kept: forall(t, imp(is(box(e), t), is(r, t)))
  ensures wrapped: forall(t, imp(is(err, t), is(r, t)))
  ensures nothingelse: forall(t, imp(is(r, t), t == r || is(box(e), t) || is(err, t) || isnew(t)))
  ensures text: errtext(r) == concat(errtext(box(e)), ": ", errtext(err))

func CastToDriverError(err) (r)
  props C28
  ensures none: iff(r == nil, err == nil)
  ensures same: imp(typeis(err, "DriverError"), r == err)
  ensures kept: forall(t, imp(err != nil && is(err, t), is(r, t)))

func NewError(message) (r)
  props C28
  ensures something: r != nil
  ensures text: errtext(r) == message
  ensures basic: forall(t, imp(is(r, t), t == r))
