package driver

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path"
	"testing"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/verifharness"
	"github.com/dargueta/disko/verifs"
)

func vEntry(n *verifs.Node, name string, e os.DirEntry) error {
	info, err := e.Info()
	if err != nil {
		return err
	}
	if e.Name() != name {
		return fmt.Errorf("entry %q instead of %q", e.Name(), name)
	}
	if e.IsDir() != (n.Kind == 'd') || e.Type()&os.ModeType != n.Mode()&os.ModeType {
		return fmt.Errorf("entry %q has type %v", name, e.Type())
	}
	return vInfo(n, name, info)
}

func vInfo(n *verifs.Node, name string, info os.FileInfo) error {
	if info.Name() != name {
		return fmt.Errorf("info %q instead of %q", info.Name(), name)
	}
	if info.Size() != int64(len(n.Data)) || info.Mode() != n.Mode() || !info.ModTime().Equal(n.MTime) || info.IsDir() != (n.Kind == 'd') {
		return fmt.Errorf("wrong info of entry %q", name)
	}
	if s, ok := info.Sys().(disko.FileStat); !ok || s.InodeNumber != uint64(n.ID) {
		return fmt.Errorf("entry %q doesn't have the status of #%d", name, n.ID)
	}
	return nil
}

func TestVerif_C32(t *testing.T) {
	verifharness.Run(t, "random trees, every directory listed whole and in pages of random sizes; failing lookups", func(r *verifharness.R) {
		for i := 0; i < r.N(12000, 500000) && r.More(); i++ {
			seed := int64(r.Uint64() >> 8)
			fs := verifs.New()
			q := rand.New(rand.NewSource(seed))
			fs.NoDots = q.Intn(3) == 0
			fs.Random(q)
			if q.Intn(2) == 0 {
				for _, n := range verifs.Names {
					if fs.Root.Kids[n] == nil && q.Intn(2) == 0 {
						fs.Add(fs.Root, n, "dfl"[q.Intn(3)], "/a")
					}
				}
			}
			impl := fs
			d := New(impl, disko.MountFlagsAllowRead)
			n, p := fs.Root, "/"
			name := "/"
			var parent *verifs.Node
			for len(n.Names) > 0 && q.Intn(3) == 0 {
				name = n.Names[q.Intn(len(n.Names))]
				parent, n = n, n.Kids[name]
				p = path.Join(p, name)
			}
			fault, what := 0, "get"
			if q.Intn(10) == 0 {
				fault = 1 + q.Intn(5)
				if q.Intn(4) == 0 {
					fault, what = 1, "list"
				}
			}
			var pages []int
			for j := 0; j < 30; j++ {
				k := 1 + q.Intn(4)
				if q.Intn(8) == 0 {
					k = []int{0, -1, 1000}[q.Intn(3)]
				}
				pages = append(pages, k)
			}
			mode := q.Intn(4)
			r.Case([]string{"ReadDir", "File.ReadDir", "File.Readdir", "File.Readdirnames"}[mode], func() string {
				return fmt.Sprintf("%q in %v, pages %v, failing %s %d", p, fs.Root, pages, what, fault)
			}, func() error {
				if mode == 0 {
					if fault > 0 {
						fs.FailAt[what] = fault
					}
					if n.Kind == 'l' {
						return nil
					}
					l, err := d.ReadDir(p)
					if fs.Failed != nil {
						if err == nil {
							return errors.New("no error although listing failed")
						}
						return nil
					}
					if n.Kind != 'd' {
						if err == nil {
							return errors.New("no error for a non-directory")
						}
						return nil
					}
					if err != nil {
						return err
					}
					if len(l) != len(n.Names) {
						return fmt.Errorf("%d entries instead of %d", len(l), len(n.Names))
					}
					for i, e := range l {
						k := n.Kids[n.Names[i]]
						if err := vEntry(k, n.Names[i], e); err != nil {
							return err
						}
						if e.Stat().InodeNumber != uint64(k.ID) {
							return fmt.Errorf("entry %q has the wrong status", n.Names[i])
						}
					}
					return nil
				}
				f, err := NewFileFromObjectHandle(d, wrapObjectHandle(fs.HandleOf(n, parent, name), p), disko.O_RDONLY)
				if err != nil {
					return err
				}
				if fault > 0 {
					fs.FailAt[what] = fault
				}
				at := 0
				for _, k := range pages {
					var names []string
					var l []os.DirEntry
					var infos []os.FileInfo
					switch mode {
					case 1:
						l, err = f.ReadDir(k)
						for _, e := range l {
							names = append(names, e.Name())
						}
					case 2:
						infos, err = f.Readdir(k)
						for _, e := range infos {
							names = append(names, e.Name())
						}
					case 3:
						names, err = f.Readdirnames(k)
					}
					if fs.Failed != nil {
						if err == nil || err == io.EOF {
							return errors.New("no error although listing failed")
						}
						return nil
					}
					if n.Kind != 'd' {
						if err == nil || err == io.EOF {
							return errors.New("no error for a non-directory")
						}
						return nil
					}
					left := len(n.Names) - at
					if left == 0 && k > 0 {
						if err != io.EOF || len(names) > 0 {
							return fmt.Errorf("%q and error %v at the end", names, err)
						}
						return nil
					}
					if err != nil {
						return fmt.Errorf("error %v with %d entries left", err, left)
					}
					want := left
					if k > 0 && k < left {
						want = k
					}
					if len(names) != want {
						return fmt.Errorf("page of %d: %d entries instead of %d", k, len(names), want)
					}
					for j, x := range names {
						if x != n.Names[at+j] {
							return fmt.Errorf("entry %q instead of %q", x, n.Names[at+j])
						}
						if l != nil {
							err = vEntry(n.Kids[x], x, l[j])
						}
						if infos != nil {
							err = vInfo(n.Kids[x], x, infos[j])
						}
						if err != nil {
							return err
						}
					}
					at += want
					if left == 0 {
						return nil
					}
				}
				return nil
			})
		}
	})
}
