package fat_test

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"testing"
	"testing/iotest"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/fat"
	"github.com/dargueta/disko/verifharness"
)

func TestVerif_C21(t *testing.T) {
	verifharness.Run(t, "all sector and cluster sizes with boundary values of every other field; cluster counts around the version limits; random fields; truncated and slow streams", func(r *verifharness.R) {
		le := binary.LittleEndian
		check := func(b []byte, slow bool) {
			r.Case("boot sector", func() string { return fmt.Sprintf("%x slow=%v", b, slow) }, func() error {
				var rd io.Reader = bytes.NewReader(b)
				if slow {
					rd = iotest.OneByteReader(rd)
				}
				bs, err := fat.NewFATBootSectorFromStream(rd)
				if len(b) < 40 {
					if !errors.Is(err, disko.ErrIOFailed) {
						return fmt.Errorf("error %v for %d bytes", err, len(b))
					}
					return nil
				}
				bps, spc, res, nf := uint(le.Uint16(b[11:])), uint(b[13]), uint(le.Uint16(b[14:])), uint(b[16])
				rec, tot, spf := uint(le.Uint16(b[17:])), uint(le.Uint16(b[19:])), uint(le.Uint16(b[22:]))
				if tot == 0 {
					tot = uint(le.Uint32(b[32:]))
				}
				if spf == 0 {
					spf = uint(le.Uint32(b[36:]))
				}
				ok := (bps == 512 || bps == 1024 || bps == 2048 || bps == 4096) && spc != 0 && spc&(spc-1) == 0 && bps*spc <= 32768
				var root, meta, clusters uint
				version := 12
				if ok {
					root = (rec*32 + bps - 1) / bps
					meta = res + nf*spf + root
					ok = meta <= tot
				}
				if ok {
					clusters = (tot - meta) / spc
					if clusters >= 4085 {
						version = 16
					}
					if clusters >= 65525 {
						version = 32
					}
					ok = version != 32 || root == 0
				}
				if !ok {
					if !errors.Is(err, disko.ErrFileSystemCorrupted) {
						return fmt.Errorf("error %v for a corrupted boot sector", err)
					}
					return nil
				}
				if err != nil {
					return fmt.Errorf("error %v for a correct boot sector", err)
				}
				if !bytes.Equal(bs.JmpBoot[:], b[:3]) || !bytes.Equal(bs.OEMName[:], b[3:11]) || uint(bs.BytesPerSector) != bps || uint(bs.SectorsPerCluster) != spc || uint(bs.ReservedSectors) != res || uint(bs.NumFATs) != nf ||
					uint(bs.RootEntryCount) != rec || bs.TotalSectors16 != le.Uint16(b[19:]) || bs.Media != b[21] || bs.SectorsPerFAT16 != le.Uint16(b[22:]) || bs.SectorsPerTrack != le.Uint16(b[24:]) || bs.NumHeads != le.Uint16(b[26:]) ||
					bs.HiddenSectors != le.Uint32(b[28:]) || bs.TotalSectors32 != le.Uint32(b[32:]) {
					return fmt.Errorf("a field is wrong: %+v", bs.RawFATBootSectorWithBPB)
				}
				if bs.SectorsPerFAT != spf || bs.TotalFATSectors != nf*spf || bs.RootDirSectors != root || bs.BytesPerCluster != bps*spc || uint(bs.FirstDataSector) != meta || bs.TotalDataSectors != tot-meta || bs.TotalClusters != clusters || bs.FATVersion != version ||
					uint(bs.DirentsPerCluster)*32 != bps*spc {
					return fmt.Errorf("a derived value is wrong: %+v", bs)
				}
				return nil
			})
		}
		mk := func(bps, spc, res, nf, rec, tot16, spf16, tot32, spf32 int) []byte {
			b := r.Bytes(40 + r.Intn(3)*100)
			le.PutUint16(b[11:], uint16(bps))
			b[13] = byte(spc)
			le.PutUint16(b[14:], uint16(res))
			b[16] = byte(nf)
			le.PutUint16(b[17:], uint16(rec))
			le.PutUint16(b[19:], uint16(tot16))
			le.PutUint16(b[22:], uint16(spf16))
			le.PutUint32(b[32:], uint32(tot32))
			le.PutUint32(b[36:], uint32(spf32))
			return b
		}
		for n := 0; n <= 41; n++ {
			check(mk(512, 1, 1, 2, 16, 100, 1, 0, 0)[:min(n, 40)], n%2 == 0)
		}
		sizes := []int{512, 1024, 2048, 4096}
		for _, bps := range append(sizes, 0, 1, 128, 256, 511, 513, 8192, 768, 1536, 65535) {
			for _, spc := range []int{0, 1, 2, 3, 4, 5, 8, 16, 32, 64, 96, 127, 128, 129, 255} {
				check(mk(bps, spc, 1, 2, 16*r.Intn(2), 0, 1, 1000000, 0), false)
				check(mk(bps, spc, r.Intn(9), r.Intn(4), r.Intn(600), 5000+r.Intn(60000), r.Intn(100), 0, r.Intn(5)), false)
			}
		}
		// around the limits of the versions, and of what fits
		for _, lim := range []int{0, 1, 4084, 4085, 65524, 65525, 70000} {
			for d := -2; d <= 2; d++ {
				for i := 0; i < 12; i++ {
					bps, spc := sizes[r.Intn(4)], 1<<r.Intn(4)
					rec := []int{0, 1, 15, 16, 17, 512}[r.Intn(6)]
					res, nf, spf := r.Intn(40), r.Intn(3), r.Intn(700)
					if spf == 0 {
						spf = 1
					}
					tot := res + nf*spf + (rec*32+bps-1)/bps + (lim+d)*spc + r.Intn(spc)
					if tot < 0 {
						continue
					}
					if i%2 == 0 && tot < 65536 && tot > 0 {
						check(mk(bps, spc, res, nf, rec, tot, spf, r.Int(), r.Int()), false)
					} else {
						check(mk(bps, spc, res, nf, rec, 0, 0, tot, spf), false)
					}
				}
			}
		}
		// huge tables
		for _, nf := range []int{0, 1, 2, 16, 255} {
			for _, spf := range []int{0, 1, 0x01010101, 0x10000000, 0x7fffffff, 0x80000000, 0xffffffff} {
				for _, tot := range []int{0, 1, 100, 0x10000, 0xfffffff0, 0xffffffff} {
					check(mk(512, 1, r.Intn(100), nf, 0, 0, 0, tot, spf), false)
				}
			}
		}
		for r.More() {
			b := r.Bytes(40)
			if r.Intn(4) != 0 {
				le.PutUint16(b[11:], uint16(sizes[r.Intn(4)]))
				b[13] = 1 << r.Intn(8)
				b[16] &= 7
			}
			if r.Intn(2) == 0 {
				le.PutUint16(b[22:], uint16(r.Intn(2)*r.Intn(300)))
				le.PutUint16(b[19:], uint16(r.Intn(2)*r.Intn(65536)))
			}
			if r.Intn(2) == 0 {
				le.PutUint16(b[17:], 0)
			}
			check(b, r.Intn(10) == 0)
		}
	})
}
