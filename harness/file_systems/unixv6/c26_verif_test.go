package unixv6_test

import (
	"fmt"
	"os"
	"testing"
	"time"

	v6 "github.com/dargueta/disko/file_systems/unixv6"
	"github.com/dargueta/disko/verifharness"
)

// vMode is what flags mean.
func vMode(f uint16) os.FileMode {
	m := os.FileMode(f & 0o777)
	if f&0x800 != 0 {
		m |= os.ModeSetuid
	}
	if f&0x400 != 0 {
		m |= os.ModeSetgid
	}
	switch f >> 13 & 3 {
	case 1:
		m |= os.ModeCharDevice
	case 2:
		m |= os.ModeDir
	case 3:
		m |= os.ModeDevice
	}
	return m
}

func TestVerif_C26(t *testing.T) {
	verifharness.Run(t, "all 65536 on-disk flag words; every combination of a type, set-id bits and permissions, every pair of type bits; random modes and inodes, sizes around every multiple of 512", func(r *verifharness.R) {
		for i := 0; i < 1<<16; i++ {
			f := uint16(i)
			r.Case("flags to mode", func() string { return fmt.Sprintf("flags=%#x", f) }, func() error {
				m, err := v6.ConvertFSFlagsToStandard(f)
				if err != nil || m != vMode(f) {
					return fmt.Errorf("got %#x, %v; want %#x", uint32(m), err, uint32(vMode(f)))
				}
				back, err := v6.ConvertStandardFlagsToFS(m)
				if err != nil || back&0x8000 == 0 || back&0x6dff != f&0x6dff {
					return fmt.Errorf("back to %#x, %v", back, err)
				}
				return nil
			})
		}
		check := func(m os.FileMode) {
			r.Case("mode to flags", func() string { return fmt.Sprintf("mode=%#x", uint32(m)) }, func() error {
				f, err := v6.ConvertStandardFlagsToFS(m)
				ty := m & os.ModeType
				ok := ty == 0 || ty == os.ModeDir || ty == os.ModeDevice || ty == os.ModeCharDevice
				if ok != (err == nil) {
					return fmt.Errorf("error %v for type %#x", err, uint32(ty))
				}
				if f&0x8000 == 0 {
					return fmt.Errorf("flags %#x are not marked allocated", f)
				}
				if ok {
					want := m & (os.ModePerm | os.ModeType | os.ModeSetuid | os.ModeSetgid)
					if vMode(f) != want || f&0x1200 != 0 {
						return fmt.Errorf("flags %#x mean %#x", f, uint32(vMode(f)))
					}
					back, err := v6.ConvertFSFlagsToStandard(f)
					if err != nil || back != want {
						return fmt.Errorf("back to %#x, %v", uint32(back), err)
					}
				}
				return nil
			})
		}
		bits := []os.FileMode{os.ModeDir, os.ModeDevice, os.ModeCharDevice, os.ModeSymlink, os.ModeNamedPipe, os.ModeSocket, os.ModeIrregular, os.ModeSetuid, os.ModeSetgid, os.ModeSticky, os.ModeAppend, os.ModeExclusive, os.ModeTemporary}
		for i := 0; i < 1<<len(bits); i++ {
			var m os.FileMode
			for j, b := range bits {
				if i>>j&1 != 0 {
					m |= b
				}
			}
			check(m)
			check(m | os.FileMode(r.Intn(512)))
			check(m | 0o777)
		}
		stat := func(n v6.Inumber, in v6.RawInode) {
			r.Case("inode", func() string { return fmt.Sprintf("inumber=%d inode=%+v", n, in) }, func() error {
				s, err := v6.RawInodeToStat(n, in)
				if err != nil {
					return err
				}
				size := int64(in.Size[0]) + int64(in.Size[1])<<8 + int64(in.Size[2])<<16
				if s.Size != size || s.BlockSize != 512 || s.NumBlocks != (size+511)/512 {
					return fmt.Errorf("size %d, %d blocks of %d; want %d", s.Size, s.NumBlocks, s.BlockSize, size)
				}
				if s.ModeFlags != vMode(in.Flags) || s.Nlinks != uint64(in.NLink) || s.Uid != uint32(in.UID) || s.Gid != uint32(in.GID) || s.InodeNumber != uint64(n) {
					return fmt.Errorf("got %+v", s)
				}
				if !s.LastAccessed.Equal(time.Unix(int64(in.AccessedTime), 0)) || !s.LastModified.Equal(time.Unix(int64(in.ModifiedTime), 0)) {
					return fmt.Errorf("times %v, %v", s.LastAccessed, s.LastModified)
				}
				return nil
			})
		}
		sized := func(size int) v6.RawInode {
			return v6.RawInode{Flags: uint16(r.Uint64()), NLink: uint8(r.Uint64()), UID: uint8(r.Uint64()), GID: uint8(r.Uint64()), Size: [3]uint8{uint8(size), uint8(size >> 8), uint8(size >> 16)}, AccessedTime: uint32(r.Uint64()), ModifiedTime: uint32(r.Uint64())}
		}
		for size := 0; size < 1<<24; size += 512 {
			for _, d := range []int{-1, 0, 1, 255} {
				if size+d >= 0 {
					stat(v6.Inumber(r.Uint64()), sized(size+d))
				}
			}
		}
		for r.More() {
			check(os.FileMode(r.Uint64()))
			stat(v6.Inumber(r.Uint64()), sized(r.Intn(1<<24)))
		}
	})
}
