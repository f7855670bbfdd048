package github.com/dargueta/disko/file_systems/unixv6

def HAS6(x, p) = bdiv(x, p) % 2 == 1
// the mode's type bits
def DIR(m) = HAS6(m, 2147483648)
def BLOCK(m) = HAS6(m, 67108864)
def CHAR(m) = HAS6(m, 2097152)
def OTHERTYPE(m) = HAS6(m, 134217728) || HAS6(m, 33554432) || HAS6(m, 16777216) || HAS6(m, 524288)
def SUPPORTED(m) = !OTHERTYPE(m) && !(DIR(m) && BLOCK(m)) && !(DIR(m) && CHAR(m)) && !(BLOCK(m) && CHAR(m))
// what a mode with flags f consists of
def MODEOF(f) = f % 512 + ite(HAS6(f, 1024), 4194304, 0) + ite(HAS6(f, 2048), 8388608, 0) + ite(bdiv(f, 8192) % 4 == 3, 67108864, ite(bdiv(f, 8192) % 4 == 2, 2147483648, ite(bdiv(f, 8192) % 4 == 1, 2097152, 0)))

func ConvertFSFlagsToStandard(flags) (mode, err)
  props C26
  ensures err == nil && mode == MODEOF(flags)

func ConvertStandardFlagsToFS(mode) (flags, err)
  props C26
  ensures supported: iff(err == nil, SUPPORTED(mode))
  ensures allocated: HAS6(flags, 32768)
  ensures back: imp(err == nil, MODEOF(flags) == mode % 512 + ite(HAS6(mode, 4194304), 4194304, 0) + ite(HAS6(mode, 8388608), 8388608, 0) + ite(DIR(mode), 2147483648, 0) + ite(BLOCK(mode), 67108864, 0) + ite(CHAR(mode), 2097152, 0))
  ensures unused: imp(err == nil, !HAS6(flags, 4096) && !HAS6(flags, 512))

extern time.Unix(sec, nsec) (t)
  pure

func RawInodeToStat(inumber, inode) (stat, err)
  props C26
  ensures err == nil
  ensures mode: stat.ModeFlags == MODEOF(inode.Flags)
  ensures size: stat.Size == inode.Size[0] + 256 * inode.Size[1] + 65536 * inode.Size[2]
  ensures blocks: stat.BlockSize == 512 && stat.NumBlocks == bdiv(stat.Size + 511, 512)
  ensures owner: stat.Nlinks == inode.NLink && stat.Uid == inode.UID && stat.Gid == inode.GID && stat.InodeNumber == inumber
  ensures accessed: stat.LastAccessed == time.Unix(inode.AccessedTime, 0)
  ensures modified: stat.LastModified == time.Unix(inode.ModifiedTime, 0)

func verifModeRoundTrip(mode) (back, err)
  props C26
  lemma
  // nothing but permissions, set-id bits and a type
  requires mode - mode % 512 == ite(HAS6(mode, 4194304), 4194304, 0) + ite(HAS6(mode, 8388608), 8388608, 0) + ite(DIR(mode), 2147483648, 0) + ite(BLOCK(mode), 67108864, 0) + ite(CHAR(mode), 2097152, 0)
  ensures imp(err == nil, back == mode)
  ensures imp(SUPPORTED(mode), err == nil)

func verifFlagsRoundTrip(flags) (back, err)
  props C26
  lemma
  ensures err == nil
  ensures back % 512 == flags % 512 && bdiv(back, 1024) % 4 == bdiv(flags, 1024) % 4 && bdiv(back, 8192) % 4 == bdiv(flags, 8192) % 4 && HAS6(back, 32768)
