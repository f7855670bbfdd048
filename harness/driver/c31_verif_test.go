package driver_test

import (
	"errors"
	"fmt"
	"testing"
	"time"

	"github.com/dargueta/disko/verifharness"
	"github.com/dargueta/disko/verifs"
)

func TestVerif_C31(t *testing.T) {
	verifharness.Run(t, "random trees with symlinks, dangling ones and cycles included, against an iterative lookup; failing lookups", func(r *verifharness.R) {
		for i := 0; i < r.N(25000, 1000000) && r.More(); i++ {
			seed := int64(r.Uint64() >> 8)
			w := vNew(seed, vWrite)
			p := w.fs.RandomPath(r.Rand)
			kind := r.Intn(10)
			fault := 0
			if r.Intn(12) == 0 {
				fault = 1 + r.Intn(4)
			}
			what := "get"
			if r.Intn(3) == 0 {
				what = "read"
			}
			follow := kind != 0 && kind != 1 && kind != 2
			names := []string{"Lstat", "Readlink", "Lchown", "Stat", "ReadFile", "Open", "Chdir", "Chmod", "Chown", "ReadDir"}
			r.Case(names[kind], func() string {
				return fmt.Sprintf("%s(%q) %v, failing %s %d", names[kind], p, vNew(seed, vWrite), what, fault)
			}, func() error {
				cwd := w.cwd()
				n, real, lerr := w.fs.Look(cwd, p, follow)
				if fault > 0 {
					w.fs.FailAt[what] = w.fs.Count[what] + fault
				}
				log := ""
				var err error
				var is error
				reached := func(id uint64) {
					if err == nil && lerr == nil && id != uint64(n.ID) {
						is = fmt.Errorf("reached #%d, not #%d", id, n.ID)
					}
				}
				content := func(got string) {
					if err == nil && lerr == nil && got != string(n.Data) {
						is = fmt.Errorf("read %q, not %q", got, n.Data)
					}
				}
				fits := true // the operation applies to the object
				switch kind {
				case 0:
					s, e := w.d.Lstat(p)
					err = e
					reached(s.InodeNumber)
				case 1:
					s, e := w.d.Readlink(p)
					err = e
					fits = lerr != nil || n.Kind == 'l'
					content(s)
				case 2:
					err = w.d.Lchown(p, 5, 6)
					log = "chown"
				case 3:
					s, e := w.d.Stat(p)
					err = e
					reached(s.InodeNumber)
				case 4:
					b, e := w.d.ReadFile(p)
					err = e
					fits = lerr != nil || n.Kind == 'f'
					content(string(b))
				case 5:
					f, e := w.d.Open(p)
					err = e
					fits = lerr != nil || n.Kind == 'f'
					if e == nil {
						b := make([]byte, 100)
						k, _ := f.Read(b)
						if w.fs.Failed == nil {
							content(string(b[:k]))
						}
					}
				case 6:
					err = w.d.Chdir(p)
					fits = lerr != nil || n.Kind == 'd'
					if err == nil && lerr == nil {
						at, _, e := w.fs.Look("/", w.cwd(), true)
						if e != nil || at != n {
							is = fmt.Errorf("the working directory is %q, not %q", w.cwd(), real)
						}
					} else if w.cwd() != cwd {
						is = fmt.Errorf("the working directory is %q after an error", w.cwd())
					}
				case 7:
					err = w.d.Chmod(p, 0o700)
					log = "chmod"
				case 8:
					if r.Intn(2) == 0 {
						err = w.d.Chown(p, 5, 6)
						log = "chown"
					} else {
						err = w.d.Chtimes(p, time.Unix(1, 0), time.Unix(2, 0))
						log = "chtimes"
					}
				case 9:
					_, err = w.d.ReadDir(p)
					fits = lerr != nil || n.Kind == 'd'
				}
				if len(w.fs.Bad) > 0 {
					return errors.New(w.fs.Bad[0])
				}
				if is != nil {
					return is
				}
				if w.fs.Failed != nil {
					if err == nil && !(kind == 5) {
						return errors.New("no error although a read failed")
					}
					return nil
				}
				if log != "" {
					want := ""
					if lerr == nil && !w.fs.Plain {
						want = fmt.Sprintf("[%s #%d]", log, n.ID)
					} else {
						want = "[]"
						fits = lerr != nil
					}
					if got := fmt.Sprint(w.fs.Log); got != want {
						return fmt.Errorf("changes are %s, expected %s", got, want)
					}
				} else if len(w.fs.Log) > 0 {
					return fmt.Errorf("changed the volume: %v", w.fs.Log)
				}
				if !fits {
					if err == nil && kind != 4 {
						return errors.New("no error")
					}
					return nil
				}
				return vIs(err, vErr(lerr))
			})
		}
		// Long chains are no cycles.
		for n := 1; n < r.N(40, 60); n++ {
			for _, kind := range []string{"chain", "cycle", "nest", "twice"} {
				fs := verifs.New()
				end := fs.Add(fs.Root, "end", 'd', "")
				f := fs.Add(end, "f", 'f', "x")
				for i := 0; i < n; i++ {
					t := fmt.Sprintf("l%d", i+1)
					switch {
					case i == n-1 && kind == "cycle":
						t = "l0"
					case i == n-1:
						t = "end"
					case kind == "nest":
						t = "l0/../" + t
					case kind == "twice" && i == 0:
						t = "end/../l1"
					}
					fs.Add(fs.Root, fmt.Sprintf("l%d", i), 'l', t)
				}
				d := vDriver(fs, vRead)
				r.Case(kind, func() string { return fmt.Sprintf("%s of %d links", kind, n) }, func() error {
					s, err := d.Stat("/l0/f")
					if kind == "cycle" {
						return vIs(err, vErr(verifs.ErrCycle))
					}
					if err == nil && s.InodeNumber != uint64(f.ID) {
						return fmt.Errorf("reached #%d", s.InodeNumber)
					}
					return vIs(err, nil)
				})
			}
		}
	})
}
