package driver_test

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/verifharness"
	"github.com/dargueta/disko/verifs"
)

func TestVerif_C33(t *testing.T) {
	verifharness.Run(t, "random trees and paths, Remove and RemoveAll, each listing, lookup and removal failing in turn", func(r *verifharness.R) {
		for i := 0; i < r.N(25000, 1000000) && r.More(); i++ {
			seed := int64(r.Uint64() >> 8)
			w := vNew(seed, vWrite)
			p := w.fs.RandomPath(r.Rand)
			all := r.Intn(2) == 0
			fault, what := 0, ""
			if r.Intn(3) == 0 {
				fault, what = 1+r.Intn(5), []string{"list", "get", "unlink", "unlink"}[r.Intn(4)]
			}
			op := "Remove"
			if all {
				op = "RemoveAll"
			}
			r.Case(op, func() string {
				return fmt.Sprintf("%s(%q) %v, failing %s %d", op, p, vNew(seed, vWrite), what, fault)
			}, func() error {
				n, _, lerr := w.fs.Look(w.cwd(), p, false)
				if fault > 0 {
					w.fs.FailAt[what] = w.fs.Count[what] + fault
				}
				// What goes if nothing fails.
				want := []string{}
				var walk func(dir, n *verifs.Node, name string)
				walk = func(dir, n *verifs.Node, name string) {
					for _, k := range n.Names {
						walk(n, n.Kids[k], k)
					}
					want = append(want, fmt.Sprintf("unlink #%d %q from #%d", n.ID, name, dir.ID))
				}
				path := verifs.Clean(w.cwd(), p)
				var is error
				refused := false
				if lerr == nil {
					var dir *verifs.Node
					if path != "/" {
						dir, _, _ = w.fs.Look("/", path[:strings.LastIndex(path, "/")], true)
					}
					switch {
					case dir == nil:
						refused = true
					case all && n.Kind != 'd':
						refused = true
					case !all && n.Kind == 'd' && len(n.Names) > 0:
						refused, is = true, disko.ErrDirectoryNotEmpty
					default:
						walk(dir, n, path[strings.LastIndex(path, "/")+1:])
					}
				}
				var err error
				if all {
					err = w.d.RemoveAll(p)
				} else {
					err = w.d.Remove(p)
				}
				if len(w.fs.Bad) > 0 {
					return errors.New(w.fs.Bad[0])
				}
				got := append([]string{}, w.fs.Log...)
				if len(w.fs.Failed) > 0 {
					if err == nil || !errors.Is(err, disko.ErrIOFailed) {
						return fmt.Errorf("error is %v although a request failed", err)
					}
					// Only what was asked for, not all of it.
					ok := map[string]bool{}
					for _, s := range want {
						ok[s] = true
					}
					for _, s := range got {
						if !ok[s] {
							return fmt.Errorf("unexpected %s", s)
						}
					}
					return nil
				}
				if lerr != nil {
					if len(got) > 0 {
						return fmt.Errorf("changed %v", got)
					}
					return vIs(err, vErr(lerr))
				}
				if refused || n.Kind == 'p' && err != nil {
					if len(got) > 0 {
						return fmt.Errorf("changed %v", got)
					}
					if err == nil {
						return errors.New("no error")
					}
					if is != nil {
						return vIs(err, is)
					}
					return nil
				}
				if err != nil {
					return fmt.Errorf("failed with %v", err)
				}
				// That a directory goes after its contents is checked by the file system.
				sort.Strings(got)
				sort.Strings(want)
				if fmt.Sprint(got) != fmt.Sprint(want) {
					return fmt.Errorf("changes are %v, expected %v", got, want)
				}
				return nil
			})
		}
	})
}
