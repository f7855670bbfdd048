package driver_test

import (
	"errors"
	"fmt"
	"os"
	"strings"
	"testing"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/verifharness"
	"github.com/dargueta/disko/verifs"
)

func TestVerif_C34(t *testing.T) {
	verifharness.Run(t, "random trees, paths and flags; OpenFile, Create, Open, WriteFile, Mkdir, MkdirAll, Link", func(r *verifharness.R) {
		for i := 0; i < r.N(25000, 1000000) && r.More(); i++ {
			seed := int64(r.Uint64() >> 8)
			w := vNew(seed, vWrite)
			p, q := w.fs.RandomPath(r.Rand), w.fs.RandomPath(r.Rand)
			kind := r.Intn(8)
			flags := []disko.IOFlags{disko.O_RDONLY, disko.O_WRONLY, disko.O_RDWR}[r.Intn(3)]
			for _, f := range []disko.IOFlags{disko.O_CREATE, disko.O_CREATE, disko.O_EXCL, disko.O_TRUNC, disko.O_APPEND, disko.O_SYNC} {
				if r.Intn(3) == 0 {
					flags |= f
				}
			}
			perm := vPerms[r.Intn(len(vPerms))]
			if r.Intn(6) == 0 {
				perm |= []os.FileMode{os.ModeDir, os.ModeSymlink, os.ModeDir | os.ModeNamedPipe}[r.Intn(3)]
			}
			data := r.Bytes(r.Intn(30))
			var name string
			switch kind {
			case 0, 1, 2:
				name = fmt.Sprintf("OpenFile(%q, %#x, %v)", p, int(flags), perm)
			case 3:
				name = fmt.Sprintf("Create(%q)", p)
				flags = disko.O_RDWR | disko.O_CREATE | disko.O_EXCL
			case 4:
				name = fmt.Sprintf("WriteFile(%q, %q, %v)", p, data, perm)
				flags = disko.O_WRONLY | disko.O_CREATE | disko.O_TRUNC
			case 5:
				name = fmt.Sprintf("Mkdir(%q, %v)", p, perm)
			case 6:
				name = fmt.Sprintf("MkdirAll(%q, %v)", p, perm)
			case 7:
				name = fmt.Sprintf("Link(%q, %q)", q, p)
			}
			r.Case(name[:strings.Index(name, "(")], func() string { return name + " " + vNew(seed, vWrite).String() }, func() error {
				cwd := w.cwd()
				path := verifs.Clean(cwd, p)
				base := path[strings.LastIndex(path, "/")+1:]
				n, _, lerr := w.fs.Look(cwd, p, true)
				ln, _, llerr := w.fs.Look(cwd, p, false)
				var dir *verifs.Node
				var derr error
				if path != "/" {
					dir, _, derr = w.fs.Look("/", path[:strings.LastIndex(path, "/")], true)
					if derr == nil && dir.Kind != 'd' {
						dir, derr = nil, verifs.ErrNotDir
					}
				}
				old := w.fs.Root.Copy().String()
				none := func() error {
					if got := w.fs.Root.String(); got != old || len(w.fs.Log) > 0 {
						return fmt.Errorf("changed the volume: %v, now %s", w.fs.Log, got)
					}
					return nil
				}
				var err error
				created := func(kind string) error { // exactly one object
					if err != nil {
						return fmt.Errorf("failed with %v", err)
					}
					creates := 0
					for _, l := range w.fs.Log {
						if strings.HasPrefix(l, "create") || strings.HasPrefix(l, "link") || strings.HasPrefix(l, "unlink") {
							creates++
						}
					}
					k := dir.Kids[base]
					if creates != 1 || k == nil {
						return fmt.Errorf("changes are %v", w.fs.Log)
					}
					if string(k.Kind) != kind {
						return fmt.Errorf("made an object of kind %c, not %s", k.Kind, kind)
					}
					return nil
				}
				bad := func() error {
					if len(w.fs.Bad) > 0 {
						return errors.New(w.fs.Bad[0])
					}
					return nil
				}
				switch kind {
				case 5:
					err = w.d.Mkdir(p, perm)
					if e := bad(); e != nil {
						return e
					}
					if llerr == nil {
						if e := vIs(err, disko.ErrExists); e != nil {
							return e
						}
						return none()
					}
					if derr != nil {
						if e := vIs(err, vErr(derr)); e != nil {
							return e
						}
						return none()
					}
					return created("d")
				case 6:
					// The deepest ancestor there is.
					at, atErr, rest := n, lerr, path
					child := ""
					for atErr == verifs.ErrMissing {
						child = rest
						rest = rest[:strings.LastIndex(rest, "/")]
						at, _, atErr = w.fs.Look("/", rest, true)
					}
					clash := false
					if child != "" {
						_, _, e := w.fs.Look("/", child, false)
						clash = e == nil
					}
					err = w.d.MkdirAll(p, perm)
					if e := bad(); e != nil {
						return e
					}
					if atErr != nil || at.Kind != 'd' || clash {
						if err == nil {
							return errors.New("no error")
						}
						return none()
					}
					if err != nil {
						return fmt.Errorf("failed with %v", err)
					}
					m, _, e := w.fs.Look("/", path, true)
					if e != nil || m.Kind != 'd' {
						return fmt.Errorf("not a directory afterwards: %v", w.fs.Log)
					}
					if k := strings.Count(path[len(rest):], "/"); lerr != nil && len(w.fs.Log) != k || lerr == nil && len(w.fs.Log) > 0 {
						return fmt.Errorf("changes are %v", w.fs.Log)
					}
					return nil
				case 7:
					src, _, serr := w.fs.Look(cwd, q, true)
					err = w.d.Link(q, p)
					if e := bad(); e != nil {
						return e
					}
					if !w.linking || serr != nil || src.Kind == 'd' {
						if err == nil {
							return errors.New("no error")
						}
						return none()
					}
					if llerr == nil {
						if e := vIs(err, disko.ErrExists); e != nil {
							return e
						}
						return none()
					}
					if derr != nil {
						if err == nil {
							return errors.New("no error")
						}
						return none()
					}
					if e := created(string(src.Kind)); e != nil {
						return e
					}
					if dir.Kids[base] != src {
						return fmt.Errorf("linked #%d, not #%d", dir.Kids[base].ID, src.ID)
					}
					return nil
				}
				switch kind {
				case 4:
					err = w.d.WriteFile(p, data, perm)
				case 3:
					f, e := w.d.Create(p)
					err = e
					if e == nil {
						err = f.Close()
					}
				default:
					f, e := w.d.OpenFile(p, flags, perm)
					err = e
					if e == nil {
						err = f.Close()
					}
				}
				if e := bad(); e != nil {
					return e
				}
				if flags.Create() && flags.Exclusive() && llerr == nil {
					if e := vIs(err, disko.ErrExists); e != nil {
						return e
					}
					return none()
				}
				if lerr == nil {
					if n.Kind != 'f' {
						if err == nil {
							return errors.New("no error")
						}
						return none()
					}
					if err != nil {
						if flags.Write() || !flags.Truncate() && !flags.Append() {
							return fmt.Errorf("failed with %v", err)
						}
						return none()
					}
					if kind == 4 && string(n.Data) != string(data) {
						return fmt.Errorf("the file contains %q", n.Data)
					}
					for _, l := range w.fs.Log {
						if strings.Contains(l, "create") || strings.Contains(l, "link") {
							return fmt.Errorf("changes are %v", w.fs.Log)
						}
					}
					if !flags.Truncate() {
						return none()
					}
					return nil
				}
				if lerr != verifs.ErrMissing || !flags.Create() {
					if e := vIs(err, vErr(lerr)); e != nil {
						return e
					}
					return none()
				}
				if llerr == nil { // a dangling symlink
					if ln.Kind != 'l' {
						panic("not a symlink")
					}
					return nil
				}
				if derr != nil {
					if e := vIs(err, vErr(derr)); e != nil {
						return e
					}
					return none()
				}
				if err != nil && !flags.Write() && (flags.Truncate() || flags.Append()) {
					return nil
				}
				if e := created("f"); e != nil {
					return e
				}
				if k := dir.Kids[base]; kind == 4 && string(k.Data) != string(data) || kind != 4 && len(k.Data) > 0 {
					return fmt.Errorf("the file contains %q", k.Data)
				}
				return nil
			})
		}
	})
}
