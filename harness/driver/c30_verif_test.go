package driver_test

import (
	"errors"
	"fmt"
	"os"
	"reflect"
	"testing"
	"time"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/driver"
	"github.com/dargueta/disko/verifharness"
)

func TestVerif_C30(t *testing.T) {
	verifharness.Run(t, "random trees, working directories, paths, flags and operations, each on a read-only and on a writable driver over the same tree", func(r *verifharness.R) {
		flagSets := []disko.IOFlags{disko.O_RDONLY, disko.O_WRONLY, disko.O_RDWR, disko.O_RDONLY | disko.O_CREATE, disko.O_RDWR | disko.O_CREATE, disko.O_WRONLY | disko.O_TRUNC, disko.O_RDONLY | disko.O_TRUNC, disko.O_RDONLY | disko.O_APPEND, disko.O_RDWR | disko.O_APPEND | disko.O_SYNC, disko.O_RDONLY | disko.O_CREATE | disko.O_EXCL, disko.O_RDONLY | disko.O_SYNC, disko.O_RDWR | disko.O_CREATE | disko.O_EXCL, disko.O_WRONLY | disko.O_CREATE | disko.O_TRUNC}
		for i := 0; i < r.N(15000, 600000) && r.More(); i++ {
			seed := int64(r.Uint64() >> 8)
			ro, rw := vNew(seed, vRead), vNew(seed, vWrite)
			if r.Intn(8) == 0 {
				f := []disko.MountFlags{0, vWrite &^ disko.MountFlagsAllowWrite}[r.Intn(2)]
				ro = vNew(seed, f)
			}
			p, q := ro.fs.RandomPath(r.Rand), ro.fs.RandomPath(r.Rand)
			data := r.Bytes(r.Intn(20))
			flags := flagSets[r.Intn(len(flagSets))]
			perm := vPerms[r.Intn(len(vPerms))]
			uid, off := r.Intn(1000), int64(r.Intn(30))
			now := time.Unix(int64(r.Intn(1<<30)), 0)
			kind := r.Intn(24)
			sub := r.Intn(12)
			var name string
			// Results of operations on an open file are only compared if they read.
			run := func(d *driver.BaseDriver) (out any, err error) {
				switch kind {
				case 0:
					name = fmt.Sprintf("Chmod(%q)", p)
					err = d.Chmod(p, perm)
				case 1:
					name = fmt.Sprintf("Chown(%q)", p)
					err = d.Chown(p, uid, uid)
				case 2:
					name = fmt.Sprintf("Lchown(%q)", p)
					err = d.Lchown(p, uid, uid)
				case 3:
					name = fmt.Sprintf("Chtimes(%q)", p)
					err = d.Chtimes(p, now, now)
				case 4:
					name = fmt.Sprintf("Link(%q, %q)", p, q)
					err = d.Link(p, q)
				case 5:
					name = fmt.Sprintf("Remove(%q)", p)
					err = d.Remove(p)
				case 6:
					name = fmt.Sprintf("RemoveAll(%q)", p)
					err = d.RemoveAll(p)
				case 7:
					name = fmt.Sprintf("Truncate(%q)", p)
					err = d.Truncate(p)
				case 8:
					name = fmt.Sprintf("WriteFile(%q, %q)", p, data)
					err = d.WriteFile(p, data, perm)
				case 9:
					name = fmt.Sprintf("Mkdir(%q)", p)
					err = d.Mkdir(p, perm)
				case 10:
					name = fmt.Sprintf("MkdirAll(%q)", p)
					err = d.MkdirAll(p, perm)
				case 11:
					name = fmt.Sprintf("Create(%q)", p)
					var f driver.File
					if f, err = d.Create(p); err == nil {
						err = f.Close()
					}
				case 12:
					name = fmt.Sprintf("ReadFile(%q)", p)
					out, err = d.ReadFile(p)
				case 13:
					name = fmt.Sprintf("Stat(%q)", p)
					out, err = d.Stat(p)
				case 14:
					name = fmt.Sprintf("Lstat(%q)", p)
					out, err = d.Lstat(p)
				case 15:
					name = fmt.Sprintf("ReadDir(%q)", p)
					out, err = d.ReadDir(p)
				case 16:
					name = fmt.Sprintf("Readlink(%q)", p)
					out, err = d.Readlink(p)
				case 17:
					name = fmt.Sprintf("Chdir(%q)", p)
					err = d.Chdir(p)
					out, _ = d.Getwd()
				default:
					name = fmt.Sprintf("OpenFile(%q, %#x)", p, int(flags))
					var f driver.File
					f, err = d.OpenFile(p, flags, perm)
					if err != nil {
						return
					}
					buf := make([]byte, 10)
					var e2 error
					switch sub {
					case 0:
						name += fmt.Sprintf(".Write(%q)", data)
						_, err = f.Write(data)
					case 1:
						name += fmt.Sprintf(".WriteAt(%q, %d)", data, off)
						_, err = f.WriteAt(data, off)
					case 2:
						name += fmt.Sprintf(".Truncate(%d)", off)
						err = f.Truncate(off)
					case 3:
						name += fmt.Sprintf(".WriteString(%q)", data)
						_, err = f.WriteString(string(data))
					case 4:
						name += ".Chmod"
						err = f.Chmod(perm)
					case 5:
						name += ".Chown"
						err = f.Chown(uid, uid)
					case 6:
						name += ".Read"
						_, e2 = f.Read(buf)
						out = fmt.Sprintf("%q %v", buf, e2)
					case 7:
						name += ".ReadAt"
						_, e2 = f.ReadAt(buf, off)
						out = fmt.Sprintf("%q %v", buf, e2)
					case 8:
						name += ".Seek.Read"
						_, e3 := f.Seek(off, 0)
						_, e2 = f.Read(buf)
						out = fmt.Sprintf("%q %v %v", buf, e2, e3)
					case 9:
						name += ".Stat"
						_, err = f.Stat()
					case 10:
						name += ".Sync"
						err = f.Sync()
					case 11:
						name += ".Chdir"
						f.Chdir()
					}
					e2 = f.Close()
					if err == nil {
						err = e2
					}
				}
				return
			}
			r.Case("operation", func() string { return name + " " + vNew(seed, vRead).String() }, func() error {
				before := ro.fs.Root.String()
				wout, werr := run(rw.d)
				out, err := run(ro.d)
				if len(ro.fs.Log) > 0 || ro.fs.Root.String() != before {
					return fmt.Errorf("changed the volume: %v", ro.fs.Log)
				}
				if ro.fs.Count["resize"]+ro.fs.Count["write"]+ro.fs.Count["unlink"]+ro.fs.Count["create"]+ro.fs.Count["link"]+ro.fs.Count["attr"] > 0 {
					return errors.New("asked the file system for a change")
				}
				if len(rw.fs.Log) > 0 {
					writes := kind >= 18 && sub <= 3 && flags&(disko.O_WRONLY|disko.O_RDWR) == 0 // the open file isn't writable in the first place
					if err == nil || !writes && !errors.Is(err, disko.ErrReadOnlyFileSystem) {
						return fmt.Errorf("error is %v instead of %v", err, disko.ErrReadOnlyFileSystem)
					}
					return nil
				}
				if kind >= 12 && (kind < 18 || flags&(disko.O_WRONLY|disko.O_RDWR|disko.O_TRUNC) == 0 && sub >= 6) {
					if (err == nil) != (werr == nil) || !reflect.DeepEqual(out, wout) {
						return fmt.Errorf("read %v, %v instead of %v, %v", out, err, wout, werr)
					}
				}
				if kind >= 18 && flags&(disko.O_WRONLY|disko.O_RDWR|disko.O_TRUNC) != 0 {
					if !errors.Is(err, disko.ErrReadOnlyFileSystem) {
						return fmt.Errorf("opened for writing: error is %v instead of %v", err, disko.ErrReadOnlyFileSystem)
					}
				}
				return nil
			})
		}
		_ = os.ModeDir
	})
}
