package fat

import (
	"encoding/binary"
	"errors"
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/dargueta/disko/verifharness"
)

var errVFault = errors.New("injected fault")

// vVolume is a version-specific driver over a table and an image in memory.
type vVolume struct {
	boot    *FATBootSector
	next    []ClusterID
	bad     map[ClusterID]bool // table entries that can't be read
	badSec  map[int64]bool     // sectors that can't be read
	image   []byte
	root    []byte // entries of the root directory
	rootErr bool
	steps   int
	hit     bool // a fault was met
	log     []string
	delErr  bool
	freeErr int // the free that fails
	frees   int
	updates []Dirent
}

const vEOC = ClusterID(0x0ffffff8)

func (v *vVolume) valid(c ClusterID) bool { return c >= 2 && uint(c) < v.boot.TotalClusters+2 }

func (v *vVolume) GetBootSector() *FATBootSector { return v.boot }
func (v *vVolume) GetClusterAtIndex(i uint) (ClusterID, error) {
	v.steps++
	if v.steps > 100*len(v.next)+1000 {
		panic("does not terminate: the table was read " + fmt.Sprint(v.steps) + " times")
	}
	if i >= uint(len(v.next)) || v.bad[ClusterID(i)] {
		v.hit = true
		return 0, errVFault
	}
	return v.next[i], nil
}
func (v *vVolume) SetClusterAtIndex(i uint, c ClusterID) error {
	v.log = append(v.log, fmt.Sprintf("set %d", i))
	return nil
}
func (v *vVolume) GetNextClusterInChain(c ClusterID) (ClusterID, error) {
	return v.GetClusterAtIndex(uint(c))
}
func (v *vVolume) IsValidCluster(c ClusterID) bool { return v.valid(c) }
func (v *vVolume) IsEndOfChain(c ClusterID) bool   { return c >= vEOC }
func (v *vVolume) ListRootDirectory() ([]Dirent, error) {
	if v.rootErr {
		v.hit = true
		return nil, errVFault
	}
	var r []Dirent
	for i := 0; i+32 <= len(v.root); i += 32 {
		d, err := vDirent(v.boot, v.root[i:i+32])
		if err != nil {
			break
		}
		r = append(r, d)
	}
	return r, nil
}
func (v *vVolume) AllocateCluster(n uint) ([]ClusterID, error) {
	v.log = append(v.log, "allocate")
	return nil, errVFault
}
func (v *vVolume) FreeCluster(c ClusterID) error {
	v.frees++
	if v.frees == v.freeErr {
		v.hit = true
		return errVFault
	}
	v.log = append(v.log, fmt.Sprintf("free %d", c))
	return nil
}
func (v *vVolume) UpdateDirent(d *Dirent) error {
	v.updates = append(v.updates, *d)
	v.log = append(v.log, "update "+d.Name())
	return nil
}
func (v *vVolume) DeleteDirent(d, p *Dirent) error {
	if v.delErr {
		v.hit = true
		return errVFault
	}
	v.log = append(v.log, fmt.Sprintf("delete %s %d in %d", d.Name(), d.FirstCluster, p.FirstCluster))
	return nil
}
func (v *vVolume) ReadAt(p []byte, o int64) (int, error) {
	if o < 0 {
		v.hit = true
		return 0, errVFault
	}
	for s := o / 512; s*512 < o+int64(len(p)); s++ {
		if v.badSec[s] {
			v.hit = true
			return 0, errVFault
		}
	}
	if o >= int64(len(v.image)) {
		v.hit = true
		return 0, errVFault
	}
	n := copy(p, v.image[o:])
	if n < len(p) {
		v.hit = true
		return n, errVFault
	}
	return n, nil
}

func vDirent(b *FATBootSector, raw []byte) (Dirent, error) {
	rd, err := NewRawDirentFromBytes(raw)
	if err != nil {
		return Dirent{}, err
	}
	return NewDirentFromRaw(b, &rd)
}

// vNewVolume makes a volume of n clusters, of spc sectors of bps bytes.
func vNewVolume(n, bps, spc, first int) *vVolume {
	v := &vVolume{bad: map[ClusterID]bool{}, badSec: map[int64]bool{}}
	v.boot = &FATBootSector{BytesPerCluster: uint(bps * spc), TotalClusters: uint(n), TotalDataSectors: uint(n * spc), FirstDataSector: SectorID(first), FATVersion: 12, DirentsPerCluster: bps * spc / 32}
	v.boot.BytesPerSector = uint16(bps)
	v.boot.SectorsPerCluster = uint8(spc)
	v.next = make([]ClusterID, n+2)
	v.image = make([]byte, (first+n*spc)*bps)
	return v
}

func (v *vVolume) driver() *FATDriver { return &FATDriver{fs: v, diskFile: v} }

func (v *vVolume) cluster(c ClusterID) []byte {
	bpc := int(v.boot.BytesPerCluster)
	o := int(v.boot.FirstDataSector)*int(v.boot.BytesPerSector) + (int(c)-2)*bpc
	return v.image[o : o+bpc]
}

// chain is the chain starting with c, and whether it ends properly.
func (v *vVolume) chain(c ClusterID) (r []ClusterID, ok bool) {
	for c < vEOC {
		if !v.valid(c) || uint(len(r)) >= v.boot.TotalClusters {
			return r, false
		}
		r = append(r, c)
		if v.bad[c] {
			return r, false
		}
		c = v.next[c]
	}
	return r, true
}

func vEntry(name string, attr byte, first ClusterID, size uint32) []byte {
	e := []byte(strings.Repeat(" ", 11) + strings.Repeat("\x00", 21))
	base, ext, _ := strings.Cut(name, ".")
	copy(e[:8], base)
	copy(e[8:11], ext)
	if e[0] == 0xe5 {
		e[0] = 5
	}
	e[11] = attr
	binary.LittleEndian.PutUint16(e[20:], uint16(first>>16))
	binary.LittleEndian.PutUint16(e[26:], uint16(first))
	binary.LittleEndian.PutUint32(e[28:], size)
	binary.LittleEndian.PutUint16(e[16:], 0x21)
	binary.LittleEndian.PutUint16(e[18:], 0x21)
	binary.LittleEndian.PutUint16(e[24:], 0x21)
	return e
}

// vAlloc takes n free clusters in random order and chains them.
func (v *vVolume) alloc(r *verifharness.R, n int) ClusterID {
	var free []ClusterID
	for c := 2; c < len(v.next); c++ {
		if v.next[c] == 0 {
			free = append(free, ClusterID(c))
		}
	}
	if len(free) < n {
		return 0
	}
	r.Shuffle(len(free), func(i, j int) { free[i], free[j] = free[j], free[i] })
	for i := 0; i < n; i++ {
		if i+1 < n {
			v.next[free[i]] = free[i+1]
		} else {
			v.next[free[i]] = vEOC + ClusterID(r.Intn(8))
		}
	}
	if n == 0 {
		return 0
	}
	return free[0]
}

func vDate(v uint16) time.Time {
	return time.Date(1980+int(v>>9), time.Month(v>>5&15), int(v&31), 0, 0, 0, 0, time.Local)
}

func vStamp(d, t uint16, h byte) time.Time {
	return time.Date(1980+int(d>>9), time.Month(d>>5&15), int(d&31), int(t>>11), int(t>>5&63), int(t&31)*2, int(h)*10_000_000, time.Local)
}

// vName is the name of an entry.
func vName(b []byte) string {
	base, ext := strings.TrimRight(string(b[:8]), " "), strings.TrimRight(string(b[8:11]), " ")
	switch b[0] {
	case 0xe5:
		base = string([]byte{b[13]}) + base[1:]
	case 5:
		base = "\xe5" + base[1:]
	}
	if ext != "" {
		return base + "." + ext
	}
	return base
}

// vIsEntry compares an entry with its bytes.
func vIsEntry(d Dirent, b []byte, bpc int) error {
	le := binary.LittleEndian
	first := uint32(le.Uint16(b[20:]))<<16 | uint32(le.Uint16(b[26:]))
	size := int64(le.Uint32(b[28:]))
	mode := os.FileMode(0o777)
	if b[11]&1 != 0 {
		mode = 0o555
	}
	if b[11]&16 != 0 {
		mode |= os.ModeDir
	} else if b[11]&64 != 0 {
		mode |= os.ModeDevice | os.ModeCharDevice
	}
	s := d.Stat()
	if d.Name() != vName(b) {
		return fmt.Errorf("name %q, want %q", d.Name(), vName(b))
	}
	if d.Size() != size || s.Size != size || s.BlockSize != int64(bpc) || s.NumBlocks != (size+int64(bpc)-1)/int64(bpc) {
		return fmt.Errorf("size %d, %+v", d.Size(), s)
	}
	if uint32(d.FirstCluster) != first || s.InodeNumber != uint64(first) || d.AttributeFlags != int(b[11]) || d.NTReserved != int(b[12]) || s.Nlinks != 1 || s.Uid != 0 || s.Gid != 0 {
		return fmt.Errorf("a field of %+v is wrong", d)
	}
	if d.Mode() != mode || s.ModeFlags != mode || d.IsDir() != (b[11]&16 != 0) {
		return fmt.Errorf("mode %v, %v, want %v", d.Mode(), s.ModeFlags, mode)
	}
	if !d.GetLastAccessedAt().Equal(vDate(le.Uint16(b[18:]))) || !d.GetLastModifiedAt().Equal(vStamp(le.Uint16(b[24:]), le.Uint16(b[22:]), 0)) || !s.LastAccessed.Equal(d.GetLastAccessedAt()) || !s.LastModified.Equal(d.GetLastModifiedAt()) {
		return fmt.Errorf("accessed %v, modified %v", d.GetLastAccessedAt(), d.GetLastModifiedAt())
	}
	c, err := d.GetCreatedAt()
	if (err != nil) != (b[0] == 0xe5) || err == nil && !c.Equal(vStamp(le.Uint16(b[16:]), le.Uint16(b[14:]), b[13])) {
		return fmt.Errorf("created %v, %v", c, err)
	}
	_, err = d.GetDeletedAt()
	if (err == nil) != (b[0] == 0xe5) {
		return fmt.Errorf("deletion time: %v", err)
	}
	return nil
}
