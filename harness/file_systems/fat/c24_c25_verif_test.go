package fat

import (
	"bytes"
	"errors"
	"fmt"
	"path"
	"strings"
	"testing"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/verifharness"
)

func (v *vVolume) describe() string {
	return fmt.Sprintf("%d clusters of %d*%d bytes from sector %d, table %x, unreadable entries %v, unreadable sectors %v", v.boot.TotalClusters, v.boot.SectorsPerCluster, v.boot.BytesPerSector, v.boot.FirstDataSector, v.next, v.bad, v.badSec)
}

// scramble makes a table with proper, cyclic and broken chains.
func (v *vVolume) scramble(r *verifharness.R) {
	n := len(v.next) - 2
	for c := range v.next {
		switch r.Intn(6) {
		case 0:
			v.next[c] = vEOC + ClusterID(r.Intn(8))
		case 1:
			v.next[c] = []ClusterID{0, 1, ClusterID(n + 2), ClusterID(n + 3), vEOC - 1, ClusterID(c)}[r.Intn(6)]
		default:
			v.next[c] = ClusterID(2 + r.Intn(n))
		}
	}
}

func TestVerif_C24(t *testing.T) {
	verifharness.Run(t, "random tables of up to 60 clusters: proper, cyclic, broken and unreadable chains; every start and index; files of sizes around every multiple of the cluster size, with chains too short, exact and too long", func(r *verifharness.R) {
		walk := func(v *vVolume, start ClusterID) {
			want, ok := v.chain(start)
			drv := v.driver()
			faulty := len(v.bad) > 0
			r.Case("list", func() string { return fmt.Sprintf("start %d of %s", start, v.describe()) }, func() error {
				v.steps = 0
				got, err := drv.listClusters(start)
				if ok != (err == nil) {
					return fmt.Errorf("error %v for the chain %v (ends: %v)", err, want, ok)
				}
				if ok && fmt.Sprint(got) != fmt.Sprint(append([]ClusterID{}, want...)) {
					return fmt.Errorf("%v, want %v", got, want)
				}
				if !ok && !faulty && v.valid(start) && !errors.Is(err, disko.ErrFileSystemCorrupted) {
					return fmt.Errorf("error %v isn't corruption", err)
				}
				return nil
			})
			c := start
			good := v.valid(start)
			for i := uint(0); i < uint(len(v.next))+3; i++ {
				r.Case("index", func() string { return fmt.Sprintf("element %d from %d of %s", i, start, v.describe()) }, func() error {
					v.steps = 0
					got, err := drv.getClusterInChain(start, i)
					if good != (err == nil) || good && got != c {
						return fmt.Errorf("%d, %v, want %d, %v", got, err, c, good)
					}
					return nil
				})
				if good {
					r.Case("cluster", func() string { return fmt.Sprintf("cluster %d of %s", c, v.describe()) }, func() error {
						v.steps = 0
						got, err := drv.readClusterOfDirent(&Dirent{FirstCluster: start}, i)
						if err != nil || !bytes.Equal(got, v.cluster(c)) {
							return fmt.Errorf("%x, %v, want %x", got, err, v.cluster(c))
						}
						return nil
					})
					if v.bad[c] {
						good = false
					} else {
						c = v.next[c]
						good = v.valid(c)
					}
				}
			}
		}
		file := func(v *vVolume, first ClusterID, size int64) {
			v.root = append(vEntry("A", 0, 0, 0), vEntry("F.X", byte(r.Intn(2)), first, uint32(size))...)
			drv := v.driver()
			cs, ok := v.chain(first)
			if first == 0 && size == 0 {
				cs, ok = nil, true
			}
			var want []byte
			for _, c := range cs {
				want = append(want, v.cluster(c)...)
			}
			ok = ok && int64(len(want)) >= size
			if ok {
				want = want[:size]
			}
			r.Case("file", func() string { return fmt.Sprintf("file of %d bytes in %v of %s", size, cs, v.describe()) }, func() error {
				v.steps, v.hit = 0, false
				got, err := drv.ReadFile("/F.X")
				if v.hit && err == nil {
					return fmt.Errorf("no error, but a read failed")
				}
				if err == nil && (!ok || !bytes.Equal(got, want)) {
					return fmt.Errorf("%x, want %x (%v)", got, want, ok)
				}
				if err != nil && ok && !v.hit {
					return fmt.Errorf("error %v", err)
				}
				return nil
			})
		}
		round := func() {
			n, spc := 1+r.Intn(60), 1<<r.Intn(2)
			v := vNewVolume(n, 512, spc, r.Intn(5))
			r.Read(v.image)
			v.scramble(r)
			if r.Intn(3) == 0 {
				v.bad[ClusterID(2+r.Intn(n))] = true
			}
			starts := []ClusterID{0, 1, 2, ClusterID(n + 1), ClusterID(n + 2), vEOC, vEOC - 1, 0xffffffff}
			for i := 0; i < 4; i++ {
				starts = append(starts, ClusterID(2+r.Intn(n)))
			}
			for _, s := range starts {
				walk(v, s)
				file(v, s, int64(r.Intn(3)*r.Intn(5*512*spc)))
			}
			bps := []int{512, 1024, 4096}[r.Intn(3)]
			v = vNewVolume(14, bps, spc, r.Intn(3))
			r.Read(v.image)
			k := r.Intn(7)
			first := v.alloc(r, k)
			walk(v, first)
			bpc := bps * spc
			for m := 0; m <= k+1; m++ {
				for _, d := range []int{-1, 0, 1, 1 - bpc/2} {
					if m*bpc+d >= 0 {
						file(v, first, int64(m*bpc+d))
					}
				}
			}
			if k > 0 {
				v.badSec[int64(r.Intn(len(v.image)/512))] = true
				file(v, first, int64(r.Intn(k*bpc)))
				file(v, first, int64(k*bpc))
				v.badSec = map[int64]bool{}
			}
		}
		// a cluster beyond 4 GiB into the image: positions don't wrap
		r.Case("far cluster", func() string { return "cluster 9000000 of 512 bytes" }, func() error {
			v := vNewVolume(2, 512, 1, 1)
			v.boot.TotalClusters = 10000000
			far := &vFar{}
			drv := &FATDriver{fs: v, diskFile: far}
			if _, err := drv.readCluster(9000000); err != nil || far.o != (1+8999998)*512 {
				return fmt.Errorf("reads at %d, %v", far.o, err)
			}
			return nil
		})
		for i := 0; i < 4 || r.More(); i++ {
			round()
		}
	})
}

type vFar struct{ o int64 }

func (f *vFar) ReadAt(p []byte, o int64) (int, error) { f.o = o; return len(p), nil }

// vNode is a file or directory of a tree; its entries are in order.
type vNode struct {
	raw  []byte
	kids []*vNode
}

func (n *vNode) dir() bool { return n.raw == nil || n.raw[11]&16 != 0 }
func (n *vNode) first() ClusterID {
	if n.raw == nil {
		return 0
	}
	return ClusterID(n.raw[20])<<16 | ClusterID(n.raw[21])<<24 | ClusterID(n.raw[26]) | ClusterID(n.raw[27])<<8
}

// look resolves a path: the node, or the error it deserves.
func (n *vNode) look(p string) (*vNode, error) {
	cur := n
	for _, part := range strings.Split(strings.TrimPrefix(path.Clean("/"+p), "/"), "/") {
		if part == "" {
			continue
		}
		if !cur.dir() {
			return nil, disko.ErrNotADirectory
		}
		var found *vNode
		for _, k := range cur.kids {
			if k.raw[0] != 0xe5 && vName(k.raw) == part {
				found = k
				break
			}
		}
		if found == nil {
			return nil, disko.ErrNotFound
		}
		cur = found
	}
	return cur, nil
}

func TestVerif_C25(t *testing.T) {
	verifharness.Run(t, "random trees with names that are prefixes of one another, duplicate and deleted names, directories of several clusters; paths that exist, are missing, go through files, and aren't clean; failing reads, deletions and frees at every position", func(r *verifharness.R) {
		names := []string{"A", "B", "AB", "A.B", "ABCDEFGH.IJK", "ABCDEFGH", "a", "A.BC", "\xe5X", "C", "FILE.TXT"}
		build := func() (*vVolume, *vNode) {
			v := vNewVolume(70, 512, 1<<r.Intn(2), r.Intn(4))
			root := &vNode{}
			var fill func(n *vNode, depth int)
			fill = func(n *vNode, depth int) {
				var all []byte
				if n.raw != nil && r.Intn(2) == 0 {
					for _, s := range []string{".", ".."} {
						e := vEntry("", 16, 0, 0)
						copy(e, s)
						n.kids = append(n.kids, &vNode{raw: e})
						all = append(all, e...)
					}
				}
				count := r.Intn(8)
				if r.Intn(4) == 0 {
					count = 14 + r.Intn(24)
				}
				for i := 0; i < count; i++ {
					nm := names[r.Intn(len(names))]
					if r.Intn(3) != 0 && i >= 8 {
						nm = fmt.Sprintf("N%d", i)
					}
					k := &vNode{}
					var e []byte
					if r.Intn(3) == 0 && depth < 3 {
						k.raw = []byte{11: 16, 31: 0}
						fill(k, depth+1)
						var f ClusterID
						if len(k.raw) > 32 {
							size := len(k.raw) - 32
							bpc := int(v.boot.BytesPerCluster)
							nc := (size + bpc - 1) / bpc
							if size%bpc == 0 && r.Intn(2) == 0 {
								nc++
							}
							f = v.alloc(r, nc)
							if f != 0 {
								cs, _ := v.chain(f)
								data := append(append([]byte{}, k.raw[32:]...), make([]byte, nc*bpc-size)...)
								for j := range data[size:] {
									if j%32 != 0 {
										data[size+j] = byte(r.Intn(256))
									}
								}
								for j, c := range cs {
									copy(v.cluster(c), data[j*bpc:])
								}
							}
						} else {
							f = v.alloc(r, 1)
						}
						if f == 0 {
							continue
						}
						e = vEntry(nm, 16|byte(r.Intn(2)*2), f, 0)
					} else {
						m := r.Intn(5)
						f := v.alloc(r, m)
						size := 0
						if f != 0 {
							size = m*int(v.boot.BytesPerCluster) - r.Intn(100)
						}
						e = vEntry(nm, byte(r.Intn(2)), f, uint32(size))
					}
					if r.Intn(4) == 0 {
						e[13] = e[0]
						e[0] = 0xe5
					}
					k.raw = e
					n.kids = append(n.kids, k)
					all = append(all, e...)
				}
				if n.raw == nil {
					v.root = all
				} else {
					n.raw = append(n.raw[:32:32], all...)
				}
			}
			fill(root, 0)
			return v, root
		}
		var all func(n *vNode, at string, out *[]string)
		all = func(n *vNode, at string, out *[]string) {
			for _, k := range n.kids {
				p := at + "/" + vName(k.raw)
				*out = append(*out, p, p+"/"+names[r.Intn(len(names))])
				all(k, p, out)
			}
		}
		try := func(v *vVolume, root *vNode, p string) {
			want, werr := root.look(p)
			reset := func() { v.hit, v.steps, v.frees, v.log = false, 0, 0, nil }
			in := func() string {
				return fmt.Sprintf("%q of %s, root %x, root error %v, delete error %v, free error %d", p, v.describe(), v.root, v.rootErr, v.delErr, v.freeErr)
			}
			verdict := func(err error) error {
				if v.hit {
					if err == nil {
						return fmt.Errorf("no error, but something failed")
					}
					return nil
				}
				if werr != nil && !errors.Is(err, werr) || werr == nil && err != nil {
					return fmt.Errorf("error %v, want %v", err, werr)
				}
				return nil
			}
			r.Case("lookup", in, func() error {
				reset()
				s, err := v.driver().Stat(p)
				if err == nil && want != nil && !v.hit {
					if want.raw == nil {
						if !s.IsDir() {
							return fmt.Errorf("the root directory is %+v", s)
						}
					} else if d, e := vDirent(v.boot, want.raw[:32]); e != nil || s != d.Stat() {
						return fmt.Errorf("found %+v, want %+v (%v)", s, d.Stat(), e)
					}
				}
				return verdict(err)
			})
			r.Case("list", in, func() error {
				reset()
				fis, err := v.driver().Readdir(p)
				if werr == nil && !want.dir() {
					if err == nil || !v.hit && !errors.Is(err, disko.ErrNotADirectory) {
						return fmt.Errorf("error %v for a file", err)
					}
					return nil
				}
				if e := verdict(err); e != nil || err != nil {
					return e
				}
				kids := want.kids
				if want.raw != nil && want.first() == 0 {
					kids = root.kids // "." and ".." of our trees denote the root directory
				}
				if len(fis) != len(kids) {
					return fmt.Errorf("%d entries, want %d", len(fis), len(kids))
				}
				for i, k := range kids {
					if err := vIsEntry(fis[i].(Dirent), k.raw[:32], int(v.boot.BytesPerCluster)); err != nil {
						return fmt.Errorf("entry %d: %w", i, err)
					}
				}
				return nil
			})
			r.Case("remove", in, func() error {
				reset()
				err := v.driver().Remove(p)
				if werr == nil && want.dir() {
					if err == nil || len(v.log) != 0 {
						return fmt.Errorf("removing a directory: error %v, calls %v", err, v.log)
					}
					return nil
				}
				if e := verdict(err); e != nil {
					return e
				}
				if werr != nil {
					if len(v.log) != 0 {
						return fmt.Errorf("error %v, but calls %v", err, v.log)
					}
					return nil
				}
				parent, _ := root.look(path.Dir(path.Clean("/" + p)))
				cs, _ := v.chain(want.first())
				if want.first() == 0 {
					cs = nil
				}
				del := fmt.Sprintf("delete %s %d in %d", vName(want.raw), want.first(), parent.first())
				if len(v.log) > 0 && v.log[0] != del || len(v.log) > 1+len(cs) {
					return fmt.Errorf("calls %v, want %q first", v.log, del)
				}
				left := map[string]bool{}
				for _, c := range cs {
					left[fmt.Sprintf("free %d", c)] = true
				}
				for i, l := range v.log {
					if i > 0 {
						if !left[l] {
							return fmt.Errorf("calls %v, want each of %v freed once", v.log, cs)
						}
						delete(left, l)
					}
				}
				if err == nil && (len(v.log) == 0 || len(left) != 0) {
					return fmt.Errorf("calls %v, want each of %v freed", v.log, cs)
				}
				return nil
			})
		}
		for i := 0; i < 4 || r.More(); i++ {
			v, root := build()
			// in our trees "." and ".." are directories with cluster 0: the root directory
			var link func(n *vNode)
			link = func(n *vNode) {
				for _, k := range n.kids {
					if k.dir() && k.first() == 0 {
						k.kids = root.kids
					} else {
						link(k)
					}
				}
			}
			paths := []string{"/", "", ".", "/NOPE", "A", "A/A", "//A//B", "/A/../B", "../A", "/A/", "A/./AB/."}
			all(root, "", &paths)
			link(root)
			r.Shuffle(len(paths), func(i, j int) { paths[i], paths[j] = paths[j], paths[i] })
			if len(paths) > 40 {
				paths = paths[:40]
			}
			for _, p := range paths {
				v.rootErr, v.delErr, v.freeErr, v.bad, v.badSec = false, false, 0, map[ClusterID]bool{}, map[int64]bool{}
				try(v, root, p)
				switch r.Intn(5) {
				case 0:
					v.rootErr = true
				case 1:
					v.delErr = true
				case 2:
					v.freeErr = 1 + r.Intn(4)
				case 3:
					for j := 0; j < 20; j++ {
						v.bad[ClusterID(2+r.Intn(70))] = true
					}
				case 4:
					for j := 0; j < 20; j++ {
						v.badSec[int64(r.Intn(len(v.image)/512))] = true
					}
				}
				try(v, root, p)
			}
		}
	})
}
