package fat8_test

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
	"unsafe"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/fat8"
	"github.com/dargueta/disko/verifharness"
)

// The layout of the three known formats, from the format's documentation.
type vGeo struct {
	blocks, spt, tracks, trueTracks, dirTrack int
}

var vGeos = []vGeo{{640, 16, 40, 40, 18}, {1898, 26, 73, 73, 35}, {2002, 26, 73, 77, 35}}

func (g vGeo) spc() int      { return g.spt / 2 }
func (g vGeo) clusters() int { return g.tracks * 2 }
func (g vGeo) spf() int      { return (g.clusters() + 127) / 128 }
func (g vGeo) dir() int      { return (g.dirTrack - 1) * g.spt }
func (g vGeo) fats() int     { return g.dir() + g.spt - 3*g.spf() }
func (g vGeo) info() int     { return g.fats() - 1 }

func vKnown(n uint64) (vGeo, bool) {
	for _, g := range vGeos {
		if uint64(g.blocks) == n {
			return g, true
		}
	}
	return vGeo{}, false
}

func vGeoError(n uint, geo fat8.Geometry, err error) error {
	g, ok := vKnown(uint64(n))
	if !ok {
		if err == nil {
			return fmt.Errorf("accepted")
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("refused: %v", err)
	}
	want := fat8.Geometry{
		TotalTracks: uint(g.tracks), TrueTotalTracks: uint(g.trueTracks), TotalClusters: uint(g.clusters()),
		SectorsPerTrack: uint(g.spt), SectorsPerFAT: uint(g.spf()), SectorsPerCluster: uint(g.spc()),
		BytesPerCluster: uint(g.spc() * 128), DirectoryTrackNumber: uint(g.dirTrack),
		DirectoryTrackStart: fat8.PhysicalBlock(g.dir()), InfoSectorStart: fat8.PhysicalBlock(g.info()), FATsStart: fat8.PhysicalBlock(g.fats()),
	}
	if geo != want {
		return fmt.Errorf("got %+v, want %+v", geo, want)
	}
	return nil
}

func TestVerif_C16(t *testing.T) {
	verifharness.Run(t, "every block count from 0 to 70000 and random larger ones have exactly the documented geometry", func(r *verifharness.R) {
		check := func(n uint) bool {
			return r.Case("geometry", func() string { return fmt.Sprintf("GetGeometry(%d)", n) }, func() error {
				geo, err := fat8.GetGeometry(n)
				return vGeoError(n, geo, err)
			})
		}
		for n := uint(0); n <= 70000 && r.More(); n++ {
			check(n)
		}
		for _, g := range vGeos {
			for b := uint(8); b < 64; b++ {
				check(uint(g.blocks) + 1<<b)
				check(uint(g.blocks) * 128)
			}
		}
		for i := 0; i < r.N(20000, 200000) && r.More(); i++ {
			check(uint(r.Uint64()) >> uint(r.Intn(64)))
		}
	})
}

// vEncode is the specified encoding; class 0 accepted, 1 empty, 2 too long.
func vEncode(name string) ([]byte, int) {
	if name == "" {
		return nil, 1
	}
	u := strings.ToUpper(name)
	stem, ext := u, ""
	dot := strings.IndexByte(u, '.')
	if dot >= 0 {
		stem, ext = u[:dot], u[dot+1:]
		if ext == "" {
			ext = "."
		}
	}
	if len(stem) > 6 || len(ext) > 3 {
		return nil, 2
	}
	b := []byte("         ")
	copy(b, stem)
	copy(b[6:], ext)
	return b, 0
}

func TestVerif_C17(t *testing.T) {
	verifharness.Run(t, "random names over periods, spaces, letters, digits and multi-byte characters encode as specified and decode back; random raw names decode as specified", func(r *verifharness.R) {
		alphabet := []string{".", ".", " ", "a", "B", "z", "0", "_", "-", "ß", "é", "Ω", "ı", "ŉ", "ǆ", "\xff", "\x80", "\x00", "~", "/"}
		one := func(name string) {
			r.Case("name", func() string { return fmt.Sprintf("%q", name) }, func() error {
				want, class := vEncode(name)
				got, err := fat8.FilenameToBytes(name)
				switch class {
				case 1:
					if !errors.Is(err, disko.ErrInvalidArgument) {
						return fmt.Errorf("empty name: error %v", err)
					}
					return nil
				case 2:
					if !errors.Is(err, disko.ErrNameTooLong) {
						return fmt.Errorf("too long: error %v", err)
					}
					return nil
				}
				if err != nil || !bytes.Equal(got, want) {
					return fmt.Errorf("encoded as %q, %v; want %q", got, err, want)
				}
				u := strings.ToUpper(name)
				stem, ext, hasDot := strings.Cut(u, ".")
				if strings.HasSuffix(stem, " ") || strings.HasSuffix(ext, " ") || hasDot && ext == "" {
					_, err := fat8.BytesToFilename(got)
					return err
				}
				back, err := fat8.BytesToFilename(got)
				if err != nil || back != u {
					return fmt.Errorf("decoded as %q, %v; want %q", back, err, u)
				}
				return nil
			})
		}
		for _, s := range []string{"", ".", "..", "a", "a.", "a..", "a..b", ".abc", ".abcd", "abcdef", "abcdefg", "abcdef.ghi", "abcdef.ghij", "abcdefg.hi", "a.b.c", "a.b.cd", "abcdeß", "ab cd.e f", "ABCDEF.GHI"} {
			one(s)
		}
		for i := 0; i < r.N(60000, 600000) && r.More(); i++ {
			var sb strings.Builder
			for n := r.Intn(13); n > 0; n-- {
				sb.WriteString(alphabet[r.Intn(len(alphabet))])
			}
			one(sb.String())
			raw := r.Bytes([]int{9, 9, 9, 9, 0, 1, 6, 8, 10}[r.Intn(9)])
			for j := range raw {
				if r.Intn(3) > 0 {
					raw[j] = " .aZ0"[r.Intn(5)]
				}
			}
			r.Case("raw", func() string { return fmt.Sprintf("%q", raw) }, func() error {
				keep := append([]byte(nil), raw...)
				got, err := fat8.BytesToFilename(raw)
				if !bytes.Equal(raw, keep) {
					return fmt.Errorf("the raw name was modified")
				}
				if len(raw) != 9 {
					if !errors.Is(err, disko.ErrInvalidArgument) {
						return fmt.Errorf("error %v", err)
					}
					return nil
				}
				want := strings.TrimRight(string(raw[:6]), " ")
				if e := strings.TrimRight(string(raw[6:]), " "); e != "" {
					want += "." + e
				}
				if err != nil || got != strings.ToUpper(want) {
					return fmt.Errorf("got %q, %v; want %q", got, err, strings.ToUpper(want))
				}
				return nil
			})
		}
		// the proof relies on this about strings.ToUpper
		for c := rune(0); c <= 0x10ffff; c++ {
			if u := strings.ToUpper(string(c)); strings.ToUpper(u) != u {
				t.Fatalf("ToUpper isn't idempotent for %#x", c)
			}
		}
	})
}

type vSize int64

func (s vSize) Metadata() any         { return nil }
func (s vSize) TotalSizeBytes() int64 { return int64(s) }

func vFile(dir, name string, flags int, content []byte) *os.File {
	p := filepath.Join(dir, name)
	if err := os.WriteFile(p, content, 0o600); err != nil {
		panic(err)
	}
	f, err := os.OpenFile(p, flags, 0)
	if err != nil {
		panic(err)
	}
	return f
}

func vContent(f *os.File) []byte {
	b, err := os.ReadFile(f.Name())
	if err != nil {
		panic(err)
	}
	return b
}

// vFAT is the FAT of a fresh image.
func (g vGeo) fat() []byte {
	b := bytes.Repeat([]byte{0xff}, g.spf()*128)
	b[g.dir()/g.spc()], b[g.dir()/g.spc()+1] = 0xfe, 0xfe
	return b
}

func (g vGeo) blank() []byte {
	b := make([]byte, g.blocks*128)
	for i := g.dir() * 128; i < g.info()*128; i++ {
		b[i] = 0xff
	}
	copy(b[g.fats()*128:], bytes.Repeat(g.fat(), 3))
	return b
}

func vDiff(got, want []byte) error {
	if len(got) != len(want) {
		return fmt.Errorf("image has %d bytes, want %d", len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Errorf("byte %d (block %d) is %#x, want %#x", i, i/128, got[i], want[i])
		}
	}
	return nil
}

func TestVerif_C18(t *testing.T) {
	dir := t.TempDir()
	verifharness.Run(t, "formatting old content of any length for known and unknown sizes, on writable, read-only and append-only files, mounted or not", func(r *verifharness.R) {
		one := func(size int64, old []byte, flags int, key string) {
			r.Case(key, func() string {
				return fmt.Sprintf("FormatImage(%d bytes) over %d old bytes, file flags %#x", size, len(old), flags)
			}, func() error {
				f := vFile(dir, "image", flags, old)
				defer f.Close()
				d := fat8.NewDriverFromFile(f)
				err := d.FormatImage(vSize(size))
				var g vGeo
				known := false
				if size >= 0 && size%128 == 0 {
					g, known = vKnown(uint64(size / 128))
				}
				if !known {
					if err == nil {
						return fmt.Errorf("accepted")
					}
					return vDiff(vContent(f), old)
				}
				if flags != os.O_RDWR {
					if err == nil {
						return fmt.Errorf("no error")
					}
					return nil
				}
				if err != nil {
					return err
				}
				if err := vDiff(vContent(f), g.blank()); err != nil {
					return err
				}
				if st := d.FSStat(); st.TotalBlocks != uint64(g.blocks) {
					return fmt.Errorf("stat says %d blocks", st.TotalBlocks)
				}
				// mounted: refused, nothing changes
				if err := d.Mount(disko.MountFlags(0)); err != nil {
					return fmt.Errorf("mounting: %v", err)
				}
				for _, s := range []int64{size, 640 * 128, 5} {
					if err := d.FormatImage(vSize(s)); !errors.Is(err, disko.ErrBusy) {
						return fmt.Errorf("formatting the mounted image: %v", err)
					}
				}
				return vDiff(vContent(f), g.blank())
			})
		}
		for _, g := range vGeos {
			n := int64(g.blocks) * 128
			for _, old := range []int{0, 1, 5000, 90000, 300000} {
				one(n, bytes.Repeat([]byte{0xa5}, old), os.O_RDWR, "format")
				one(n, bytes.Repeat([]byte{0xa5}, old), os.O_RDONLY, "readonly")
				one(n, bytes.Repeat([]byte{0xa5}, old), os.O_RDWR|os.O_APPEND, "append")
				for _, d := range []int64{-128, -127, -64, -1, 1, 64, 127, 128, 1 << 32, 1 << 39, 1 << 56} {
					one(n+d, bytes.Repeat([]byte{0xa5}, old), os.O_RDWR, "unknown")
				}
				one(-n, bytes.Repeat([]byte{0xa5}, old), os.O_RDWR, "unknown")
			}
		}
		for i := 0; i < r.N(300, 6000) && r.More(); i++ {
			one(int64(vGeos[r.Intn(3)].blocks)*128, r.Bytes(r.Intn(300000)), os.O_RDWR, "format")
			one(int64(r.Uint64()>>uint(r.Intn(64))), r.Bytes(r.Intn(3000)), os.O_RDWR, "unknown")
		}
	})
}

// vField reads or writes a field that isn't exported; ok is false if there's no such field.
func vField(p any, name string) (reflect.Value, bool) {
	v := reflect.ValueOf(p).Elem().FieldByName(name)
	if !v.IsValid() {
		return v, false
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem(), true
}

func TestVerif_C19(t *testing.T) {
	dir := t.TempDir()
	verifharness.Run(t, "block, cluster and file cluster transfers at all positions around the ends of images of all known sizes (plus trailing bytes) against an array", func(r *verifharness.R) {
		for i := 0; i < r.N(300, 4000) && r.More(); i++ {
			g := vGeos[r.Intn(3)]
			size := g.blocks * 128
			want := r.Bytes(size)
			copy(want[g.fats()*128:], bytes.Repeat(g.fat(), 3))
			extra := 0
			if r.Intn(4) == 0 {
				extra = 1 + r.Intn(127)
				want = append(want, r.Bytes(extra)...)
			}
			f := vFile(dir, "image", os.O_RDWR, want)
			d := fat8.NewDriverFromFile(f)
			if r.Intn(8) > 0 {
				if r.Case("mount", func() string { return fmt.Sprint(g.blocks) }, func() error { return d.Mount(0) }) == false {
					f.Close()
					continue
				}
			} else {
				g = vGeo{spt: 2} // never mounted: nothing is accessible
			}
			pos := func(limit int) uint {
				switch r.Intn(6) {
				case 0:
					return uint(r.Intn(3))
				case 1, 2:
					return uint(max(limit-2+r.Intn(5), 0))
				case 3:
					return []uint{1<<64 - 1, 1<<57 - 1, 1 << 57, 1<<63 + 1, 1 << 32, 1 << 25, 1<<57 + 5}[r.Intn(7)]
				}
				return uint(r.Intn(limit + 1))
			}
			for j := 0; j < 60 && r.More(); j++ {
				op := r.Intn(6)
				a := pos([]int{g.blocks, g.blocks, g.clusters(), g.clusters(), 5, 5}[op])
				var buf []byte
				var count uint
				if op == 0 {
					count = pos(g.blocks - int(min(a, uint(g.blocks))))
					if count > 5000 && count < 1<<40 {
						count = 7
					}
				}
				switch op {
				case 1:
					n := r.Intn(5) * 128
					if r.Intn(5) == 0 {
						n = max(0, n+r.Intn(3)-1)
					}
					buf = r.Bytes(n)
				case 3, 5:
					n := g.spc() * 128
					if r.Intn(4) == 0 {
						n = r.Intn(2*n + 130)
					}
					buf = r.Bytes(n)
				}
				var clusters []fat8.PhysicalCluster
				for k := 0; k < 5; k++ {
					clusters = append(clusters, fat8.PhysicalCluster(pos(g.clusters())))
				}
				input := func() string {
					return fmt.Sprintf("%d blocks, operation %d at %d, count %d, %d data bytes, clusters %v", g.blocks, op, a, count, len(buf), clusters)
				}
				okCase := r.Case([]string{"readblocks", "writeblocks", "readcluster", "writecluster", "readfile", "writefile"}[op], input, func() error {
					valid, at, n := false, 0, 0
					setCluster := func(c uint) {
						valid = c >= 1 && c <= uint(g.clusters())
						if valid {
							at, n = (int(c)-1)*g.spc()*128, g.spc()*128
						}
					}
					var de fat8.DirectoryEntry
					if op >= 4 {
						fl, ok := vField(&de, "clusters")
						if !ok || fl.Type() != reflect.TypeOf(clusters) {
							return nil
						}
						fl.Set(reflect.ValueOf(clusters))
						if a < 5 {
							setCluster(uint(clusters[a]))
						}
					}
					var got []byte
					var err error
					switch op {
					case 0:
						valid = count <= uint(g.blocks) && a <= uint(g.blocks)-count
						at, n = int(a)*128, int(count)*128
						got, err = d.ReadDiskBlocks(fat8.PhysicalBlock(a), count)
					case 1:
						valid = len(buf)%128 == 0 && len(buf)/128 <= g.blocks && a <= uint(g.blocks-len(buf)/128)
						at, n = int(a)*128, len(buf)
						err = d.WriteDiskBlocks(fat8.PhysicalBlock(a), buf)
					case 2:
						setCluster(a)
						got, err = d.ReadAbsoluteCluster(fat8.PhysicalCluster(a))
					case 3:
						setCluster(a)
						valid = valid && len(buf) == n
						err = d.WriteAbsoluteCluster(fat8.PhysicalCluster(a), buf)
					case 4:
						got, err = d.ReadFileCluster(&de, fat8.LogicalCluster(a))
					case 5:
						valid = valid && len(buf) == n
						err = d.WriteFileCluster(&de, fat8.LogicalCluster(a), buf)
					}
					if (err == nil) != valid {
						return fmt.Errorf("valid=%v but the error is %v", valid, err)
					}
					if valid && op%2 == 0 && !bytes.Equal(got, want[at:at+n]) {
						return fmt.Errorf("read the wrong bytes")
					}
					if valid && op%2 == 1 {
						copy(want[at:], buf)
					}
					return vDiff(vContent(f), want)
				})
				if !okCase {
					break
				}
			}
			f.Close()
		}
	})
}

func TestVerif_C20(t *testing.T) {
	dir := t.TempDir()
	verifharness.Run(t, "mounting, unmounting, remounting and flushing images with random FATs, with differences in any copy, of known and unknown sizes", func(r *verifharness.R) {
		for i := 0; i < r.N(1500, 20000) && r.More(); i++ {
			g := vGeos[r.Intn(3)]
			img := r.Bytes(g.blocks * 128)
			fat := func() []byte {
				b := r.Bytes(g.spf() * 128)
				for j := range b {
					switch r.Intn(3) {
					case 0:
						b[j] = 0xff
					case 1:
						b[j] = 0xfe
					}
				}
				if r.Intn(8) == 0 {
					b = bytes.Repeat([]byte{0xff}, len(b))
				}
				return b
			}
			cur := fat()
			put := func() { copy(img[g.fats()*128:], bytes.Repeat(cur, 3)) }
			put()
			damage := -1
			if r.Intn(3) == 0 {
				damage = r.Intn(3 * len(cur))
				if r.Intn(3) == 0 {
					damage = []int{0, len(cur) - 1, len(cur), 2*len(cur) - 1, 2 * len(cur), 3*len(cur) - 1}[r.Intn(6)]
				}
				img[g.fats()*128+damage] ^= byte(1 << r.Intn(8))
			}
			size := len(img)
			switch r.Intn(8) {
			case 0:
				size = r.Intn(len(img))
			case 1:
				size = len(img) - 128*(1+r.Intn(3))
			case 2:
				img = append(img, r.Bytes(128*(1+r.Intn(150)))...)
				size = len(img)
			}
			img = img[:size]
			k, known := vKnown(uint64(size / 128))
			if known && k != g {
				continue
			}
			r.Case("mount", func() string {
				return fmt.Sprintf("%d blocks, %d bytes, damaged FAT byte %d, FAT %x", g.blocks, size, damage, cur)
			}, func() error {
				f := vFile(dir, "image", os.O_RDWR, img)
				defer f.Close()
				d := fat8.NewDriverFromFile(f)
				for round := 0; round < 3; round++ {
					err := d.Mount(0)
					if !known {
						if err == nil {
							return fmt.Errorf("mounted")
						}
						return vDiff(vContent(f), img)
					}
					if damage >= 0 {
						if !errors.Is(err, disko.ErrFileSystemCorrupted) {
							return fmt.Errorf("damaged FAT: error %v", err)
						}
						if err := vDiff(vContent(f), img); err != nil {
							return err
						}
						if err := d.Mount(0); !errors.Is(err, disko.ErrFileSystemCorrupted) {
							return fmt.Errorf("damaged FAT, second attempt: error %v", err)
						}
						return nil
					}
					if err != nil {
						return fmt.Errorf("round %d: %v", round, err)
					}
					if err := d.Mount(0); !errors.Is(err, disko.ErrAlreadyInProgress) {
						return fmt.Errorf("mounted twice: %v", err)
					}
					var free []uint8
					for j := 0; j < g.clusters(); j++ {
						if cur[j] == 0xff {
							free = append(free, uint8(j+1))
						}
					}
					if v, ok := vField(&d, "freeClusters"); ok {
						if fc, ok := v.Interface().([]uint8); ok && !bytes.Equal(fc, free) {
							seen := map[uint8]int{}
							for _, c := range fc {
								seen[c]++
							}
							for _, c := range free {
								seen[c]--
							}
							for c, n := range seen {
								if n != 0 {
									return fmt.Errorf("round %d: cluster %d is %d times too often in the free list", round, c, n)
								}
							}
						}
					}
					st := d.FSStat()
					if st.BlocksFree != uint64(len(free)*g.spc()) || st.TotalBlocks != uint64(g.blocks) {
						return fmt.Errorf("round %d: stat %+v with %d free clusters", round, st, len(free))
					}
					got, err := d.GetFAT()
					if err != nil || !bytes.Equal(got, cur) {
						return fmt.Errorf("GetFAT: wrong content, %v", err)
					}
					// what's in memory is written to all copies
					if v, ok := vField(&d, "fat"); ok {
						if m, ok := v.Interface().([]uint8); ok {
							if len(m) != len(cur) {
								return fmt.Errorf("the FAT in memory has %d bytes", len(m))
							}
							for n := 0; n < 4; n++ {
								j := r.Intn(g.clusters())
								m[j] = []byte{0xff, 0xfe, 7, 0xff}[n]
								cur[j] = m[j]
							}
							put()
						}
					}
					if err := d.Flush(); err != nil {
						return fmt.Errorf("flush: %v", err)
					}
					if err := vDiff(vContent(f), img); err != nil {
						return fmt.Errorf("after a flush: %v", err)
					}
					if err := d.Unmount(); err != nil {
						return err
					}
				}
				return nil
			})
		}
	})
}
