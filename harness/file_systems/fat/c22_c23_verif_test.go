package fat

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"testing"
	"time"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/verifharness"
)

func TestVerif_C22(t *testing.T) {
	verifharness.Run(t, "records of every length up to 40; each byte at every value in otherwise random records; names with blanks in every position; directories of one cluster with the first free entry at every position, and of several clusters", func(r *verifharness.R) {
		check := func(b []byte, spc int) {
			v := vNewVolume(2, 512, spc, 1)
			r.Case("entry", func() string { return fmt.Sprintf("%x, %d sectors per cluster", b, spc) }, func() error {
				raw, err := NewRawDirentFromBytes(b)
				if len(b) < 32 {
					if err == nil {
						return fmt.Errorf("no error for %d bytes", len(b))
					}
					return nil
				}
				if err != nil {
					return err
				}
				le := binary.LittleEndian
				if !bytes.Equal(raw.Name[:], b[:8]) || !bytes.Equal(raw.Extension[:], b[8:11]) || raw.AttributeFlags != b[11] || raw.NTReserved != b[12] || raw.CreatedTimeMillis != b[13] || raw.CreatedTime != le.Uint16(b[14:]) || raw.CreatedDate != le.Uint16(b[16:]) ||
					raw.LastAccessedDate != le.Uint16(b[18:]) || raw.FirstClusterHigh != le.Uint16(b[20:]) || raw.LastModifiedTime != le.Uint16(b[22:]) || raw.LastModifiedDate != le.Uint16(b[24:]) || raw.FirstClusterLow != le.Uint16(b[26:]) || raw.FileSize != le.Uint32(b[28:]) {
					return fmt.Errorf("a field of %+v is wrong", raw)
				}
				d, err := NewDirentFromRaw(v.boot, &raw)
				if b[0] == 0 {
					if !errors.Is(err, disko.ErrNotFound) {
						return fmt.Errorf("error %v for a free entry", err)
					}
					return nil
				}
				if err != nil {
					return err
				}
				return vIsEntry(d, b, 512*spc)
			})
		}
		name := func(b []byte) {
			for i := 0; i < 11; i++ {
				switch r.Intn(5) {
				case 0:
					b[i] = ' '
				case 1:
					b[i] = []byte{'.', 0xe5, 5, 0, '/', 0xff, 'a'}[r.Intn(7)]
				}
			}
		}
		for n := 0; n <= 40; n++ {
			check(r.Bytes(n), 1)
		}
		for i := 0; i < 32; i++ {
			for x := 0; x < 256; x++ {
				b := r.Bytes(32)
				if x%2 == 0 {
					name(b)
				}
				if b[0] == 0 {
					b[0] = 'A'
				}
				b[i] = byte(x)
				check(b, 1<<r.Intn(7))
			}
		}
		// every length of name and extension, with each kind of first byte
		for n := 0; n <= 8; n++ {
			for m := 0; m <= 3; m++ {
				for _, c := range []byte{'A', 0xe5, 5, ' ', '.', 0xff} {
					for _, f := range []byte{'A', ' ', 0, 0xe5} {
						b := append([]byte(strings.Repeat("x", n)+strings.Repeat(" ", 8-n)+strings.Repeat("y", m)+strings.Repeat(" ", 3-m)), r.Bytes(21)...)
						if n > 0 {
							b[0] = c
						}
						b[13] = f
						check(b, 1)
					}
				}
			}
		}
		for _, x := range []uint32{0, 1, 511, 512, 513, 1023, 1024, 1025, 65535, 65536, 0x7fffffff, 0x80000000, 0xfffffe00, 0xfffffe01, 0xffffffff} {
			for spc := 1; spc <= 64; spc *= 2 {
				b := r.Bytes(32)
				b[0] = 'A'
				binary.LittleEndian.PutUint32(b[28:], x)
				check(b, spc)
			}
		}
		// directories
		dir := func(nc, spc, free int) {
			v := vNewVolume(nc+2, 512, spc, r.Intn(4))
			v.boot.DirentsPerCluster = 16 * spc
			r.Read(v.image)
			first := v.alloc(r, nc)
			v.root = vEntry("D", 16, first, 0)
			cs, _ := v.chain(first)
			var all []byte
			for _, c := range cs {
				all = append(all, v.cluster(c)...)
			}
			for i := 0; i < len(all); i += 32 {
				if r.Intn(2) == 0 {
					name(all[i:])
				}
				if all[i] == 0 {
					all[i] = 'B'
				}
			}
			if free >= 0 && free*32 < len(all) {
				all[free*32] = 0
			} else {
				free = len(all) / 32
			}
			for i, c := range cs {
				copy(v.cluster(c), all[i*512*spc:])
			}
			r.Case("directory", func() string { return fmt.Sprintf("%d clusters of %d sectors, %d entries: %x", nc, spc, free, all) }, func() error {
				fis, err := v.driver().Readdir("/D")
				if err != nil || len(fis) != free {
					return fmt.Errorf("%d entries, error %v", len(fis), err)
				}
				for i, fi := range fis {
					if err := vIsEntry(fi.(Dirent), all[i*32:i*32+32], 512*spc); err != nil {
						return fmt.Errorf("entry %d: %w", i, err)
					}
				}
				return nil
			})
		}
		for spc := 1; spc <= 4; spc *= 2 {
			for f := -1; f < 16*spc; f++ {
				dir(1, spc, f)
			}
			for f := 0; f <= 48*spc; f += 1 + r.Intn(3) {
				dir(3, spc, f)
			}
		}
		for r.More() {
			b := r.Bytes(32)
			if r.Intn(3) == 0 {
				name(b)
			}
			check(b, 1<<r.Intn(7))
			if r.Intn(500) == 0 {
				dir(1+r.Intn(4), 1<<r.Intn(3), r.Intn(100)-1)
			}
		}
	})
}

// vZones are time zones to try, where the machine knows them.
func vZones() []*time.Location {
	zones := []*time.Location{time.UTC, time.FixedZone("east", 5*3600+1800), time.FixedZone("west", -11*3600)}
	if root, err := exec.Command("go", "env", "GOROOT").Output(); err == nil {
		os.Setenv("ZONEINFO", strings.TrimSpace(string(root))+"/lib/time/zoneinfo.zip")
	}
	for _, n := range []string{"America/New_York", "America/Sao_Paulo", "Europe/London", "Africa/Cairo"} {
		if l, err := time.LoadLocation(n); err == nil {
			zones = append(zones, l)
		}
	}
	return zones
}

func TestVerif_C23(t *testing.T) {
	verifharness.Run(t, "all 65536 dates; all 65536 times of day on several days; all 256 values of hundredths; in several time zones; setters around the epoch on existing and deleted entries; Chtimes with early and late times", func(r *verifharness.R) {
		old := time.Local
		defer func() { time.Local = old }()
		zones := append([]*time.Location{old}, vZones()...)
		v := vNewVolume(2, 512, 1, 1)
		stamp := func(d, x uint16, h byte) {
			r.Case("timestamp", func() string { return fmt.Sprintf("date=%#x time=%#x hundredths=%d in %v", d, x, h, time.Local) }, func() error {
				if g, w := TimestampFromParts(d, x, h), vStamp(d, x, h); !g.Equal(w) {
					return fmt.Errorf("%v, want %v", g, w)
				}
				return nil
			})
		}
		for _, z := range zones {
			time.Local = z
			for i := 0; i < 1<<16; i++ {
				d := uint16(i)
				r.Case("date", func() string { return fmt.Sprintf("%#x in %v", d, z) }, func() error {
					if g, w := DateFromInt(d), vDate(d); !g.Equal(w) {
						return fmt.Errorf("%v, want %v", g, w)
					}
					return nil
				})
				stamp(d, uint16(r.Intn(1<<16)), byte(r.Intn(200)))
			}
			if z == time.Local && z != old && !r.Thorough && z != zones[1] {
				continue
			}
			for _, d := range []uint16{0x21, uint16(20<<9 | 2<<5 | 29), uint16(41<<9 | 3<<5 | 14), uint16(127<<9 | 12<<5 | 31), 0, 0xffff} {
				for i := 0; i < 1<<16; i++ {
					stamp(d, uint16(i), byte(i*7%200))
				}
			}
		}
		time.Local = zones[1]
		for h := 0; h < 256; h++ {
			for i := 0; i < 20; i++ {
				stamp(uint16(r.Intn(1<<16)), uint16(r.Intn(1<<16)), byte(h))
			}
		}
		time.Local = old
		// decoding within an entry
		for i := 0; i < 5000; i++ {
			b := r.Bytes(32)
			b[0] = []byte{'A', 0xe5, 5}[r.Intn(3)]
			r.Case("entry", func() string { return fmt.Sprintf("%x", b) }, func() error {
				d, err := vDirent(v.boot, b)
				if err != nil {
					return err
				}
				return vIsEntry(d, b, 512)
			})
		}
		// setters
		epoch := time.Date(1980, 1, 1, 0, 0, 0, 0, old)
		times := []time.Time{{}, time.Unix(0, 0), epoch.Add(-1), epoch.Add(-time.Second), epoch.Add(-24 * time.Hour), epoch, epoch.Add(1), epoch.Add(time.Hour), epoch.In(time.FixedZone("x", 9*3600)), epoch.Add(-1).In(time.FixedZone("x", -9*3600)), time.Date(2107, 12, 31, 23, 59, 59, 0, old), time.Date(2200, 1, 1, 0, 0, 0, 0, old), time.Now()}
		for r.More() {
			if len(times) > 12 {
				times = times[:13]
			}
			times = append(times, epoch.Add(time.Duration(r.Int63n(1<<61))), epoch.Add(-time.Duration(r.Int63n(1<<61))))
			b := r.Bytes(32)
			b[0] = []byte{'A', 0xe5, 5}[r.Intn(3)]
			d, err := vDirent(v.boot, b)
			if err != nil {
				panic(err)
			}
			del := b[0] == 0xe5
			want := d.Stat()
			for i := 0; i < 6; i++ {
				tm := times[r.Intn(len(times))]
				which := r.Intn(4)
				early := tm.Before(epoch)
				r.Case("setter", func() string { return fmt.Sprintf("setter %d of %x to %v", which, b, tm) }, func() error {
					var err error
					refuse := early
					switch which {
					case 0:
						err = d.SetLastAccessedAt(tm)
						if !early {
							want.LastAccessed = tm
						}
					case 1:
						err = d.SetLastModifiedAt(tm)
						if !early {
							want.LastModified = tm
						}
					case 2:
						err = d.SetCreatedAt(tm)
						refuse = early || del
						if !refuse {
							want.CreatedAt = tm
						}
					case 3:
						err = d.SetDeletedAt(tm)
						if !early {
							want.DeletedAt = tm
							del = true
						}
					}
					if (err != nil) != refuse {
						return fmt.Errorf("error %v", err)
					}
					if d.Stat() != want || !d.GetLastAccessedAt().Equal(want.LastAccessed) || !d.GetLastModifiedAt().Equal(want.LastModified) {
						return fmt.Errorf("%+v, want %+v", d.Stat(), want)
					}
					c, err := d.GetCreatedAt()
					if (err != nil) != del || err == nil && !c.Equal(want.CreatedAt) {
						return fmt.Errorf("created %v, %v", c, err)
					}
					c, err = d.GetDeletedAt()
					if (err == nil) != del || err == nil && !c.Equal(want.DeletedAt) {
						return fmt.Errorf("deleted %v, %v", c, err)
					}
					return nil
				})
			}
			if del {
				continue
			}
			at, mt := times[r.Intn(len(times))], times[r.Intn(len(times))]
			w := vNewVolume(2, 512, 1, 1)
			e := append([]byte("FILE       "), b[11:]...)
			w.root = append(vEntry("OTHER", 0, 0, 0), e...)
			r.Case("Chtimes", func() string { return fmt.Sprintf("%x to %v, %v", e, at, mt) }, func() error {
				err := w.driver().Chtimes("FILE", at, mt)
				if at.Before(epoch) || mt.Before(epoch) {
					if err == nil || len(w.log) != 0 {
						return fmt.Errorf("error %v, calls %v", err, w.log)
					}
					return nil
				}
				if err != nil || len(w.updates) != 1 || len(w.log) != 1 {
					return fmt.Errorf("error %v, calls %v", err, w.log)
				}
				before, _ := vDirent(w.boot, e)
				s := before.Stat()
				s.LastAccessed, s.LastModified = at, mt
				if w.updates[0].Name() != "FILE" || w.updates[0].Stat() != s || w.updates[0].FirstCluster != before.FirstCluster {
					return fmt.Errorf("update to %+v, want %+v", w.updates[0], s)
				}
				return nil
			})
		}
	})
}
