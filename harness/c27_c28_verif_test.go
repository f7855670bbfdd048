package disko_test

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"testing"
	"time"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/verifharness"
	"github.com/hashicorp/go-multierror"
)

func TestVerif_C27(t *testing.T) {
	verifharness.Run(t, "all combinations of the os open flags with every access mode; all 2^16 low and 2^9 high disko flag words and random ones; every combination of mode type bits; block sizes and counts around powers of two", func(r *verifharness.R) {
		type fl struct {
			os int
			io disko.IOFlags
		}
		tab := []fl{{os.O_APPEND, disko.O_APPEND}, {os.O_CREATE, disko.O_CREATE}, {os.O_EXCL, disko.O_EXCL}, {os.O_TRUNC, disko.O_TRUNC}, {os.O_SYNC, disko.O_SYNC}}
		conv := func(f int) {
			r.Case("convert", func() string { return fmt.Sprintf("os flags %#x", f) }, func() error {
				got := disko.OSFlagsToIOFlags(f)
				var want disko.IOFlags
				for _, x := range tab {
					if x.os == os.O_SYNC && f&x.os != 0 && f&x.os != x.os {
						got &^= disko.O_SYNC // part of O_SYNC: not specified
					} else if f&x.os != 0 {
						want |= x.io
					}
				}
				switch f & 3 {
				case os.O_WRONLY:
					want |= disko.O_WRONLY
				case os.O_RDWR:
					want |= disko.O_RDWR
				case 3:
					got &^= 3 // not an access mode
				}
				if got != want {
					return fmt.Errorf("got %#x, want %#x", int(got), int(want))
				}
				return nil
			})
		}
		for m := 0; m < 4; m++ {
			for s := 0; s < 1<<len(tab); s++ {
				f := m
				for i, x := range tab {
					if s>>i&1 != 0 {
						f |= x.os
					}
				}
				conv(f)
				conv(f | 0x4000 | 0x20000)
			}
		}
		query := func(f disko.IOFlags) {
			r.Case("query", func() string { return fmt.Sprintf("flags %#x", int(f)) }, func() error {
				acc := f & 3
				for _, q := range []struct {
					n         string
					got, want bool
				}{
					{"Append", f.Append(), f&disko.O_APPEND != 0},
					{"Create", f.Create(), f&disko.O_CREATE != 0},
					{"Truncate", f.Truncate(), f&disko.O_TRUNC != 0},
					{"Exclusive", f.Exclusive(), f&disko.O_EXCL != 0},
					{"Synchronous", f.Synchronous(), f&disko.O_SYNC != 0},
					{"NoFollow", f.NoFollow(), f&disko.O_NOFOLLOW != 0},
					{"Read", f.Read(), acc == 0 || acc == 2},
					{"Write", f.Write(), acc == 1 || acc == 2},
					{"RequiresWritePerm", f.RequiresWritePerm(), acc == 1 || acc == 2 || f&disko.O_TRUNC != 0},
				} {
					if q.got != q.want {
						return fmt.Errorf("%s is %v", q.n, q.got)
					}
				}
				m := disko.MountFlags(f)
				for _, q := range []struct {
					n         string
					got, want bool
				}{
					{"CanRead", m.CanRead(), m&disko.MountFlagsAllowRead != 0},
					{"CanWrite", m.CanWrite(), m&disko.MountFlagsAllowWrite != 0},
					{"CanDelete", m.CanDelete(), m&disko.MountFlagsAllowDelete != 0},
				} {
					if q.got != q.want {
						return fmt.Errorf("mount flags: %s is %v", q.n, q.got)
					}
				}
				return nil
			})
		}
		for f := 0; f < 1<<16; f++ {
			query(disko.IOFlags(f))
		}
		for f := 0; f < 1<<9; f++ {
			query(disko.IOFlags(f << 16))
			query(disko.IOFlags(f<<16 | int(r.Uint64()&0xffff)))
		}
		stat := func(m os.FileMode) {
			r.Case("status", func() string { return fmt.Sprintf("mode %#x", uint32(m)) }, func() error {
				s := disko.FileStat{ModeFlags: m}
				d, f, l := s.IsDir(), s.IsFile(), s.IsSymlink()
				if d != m.IsDir() || f != m.IsRegular() || l != (m.Type() == fs.ModeSymlink) {
					return fmt.Errorf("directory %v, file %v, symlink %v", d, f, l)
				}
				return nil
			})
		}
		for i := 0; i < 1<<13; i++ {
			stat(os.FileMode(i)<<19 | os.FileMode(r.Intn(512)))
		}
		size := func(b, n uint64) {
			r.Case("size", func() string { return fmt.Sprintf("%d blocks of %d", n, b) }, func() error {
				got := disko.FSStat{BlockSize: uint(b), TotalBlocks: n, BlocksFree: n / 2, BlocksAvailable: n / 3}.TotalSizeBytes()
				if got != int64(b*n) {
					return fmt.Errorf("size %d", got)
				}
				return nil
			})
		}
		for i := uint(0); i < 24; i++ {
			for j := uint(0); j < 38; j++ {
				for d := uint64(0); d < 3; d++ {
					size(uint64(1)<<i+d, uint64(1)<<j+d)
					size(uint64(1)<<i+d, uint64(1)<<j-d/2)
				}
			}
		}
		for end := time.Now().Add(3 * time.Second); r.More() && time.Now().Before(end); {
			query(disko.IOFlags(r.Uint64()))
			conv(int(r.Uint64() >> (1 + uint(r.Intn(40)))))
			stat(os.FileMode(r.Uint64()))
			size(uint64(r.Intn(1<<20)), uint64(r.Intn(1<<40)))
		}
	})
}

var vAll = map[string]disko.DriverError{
	"Operation already in progress":    disko.ErrAlreadyInProgress,
	"Numerical argument out of domain": disko.ErrArgumentOutOfRange,
	"Block device required":            disko.ErrBlockDeviceRequired,
	"Device or resource busy":          disko.ErrBusy,
	"Invalid cross-device link":        disko.ErrCrossDeviceLink,
	"Directory not empty":              disko.ErrDirectoryNotEmpty,
	"Disk quota exceeded":              disko.ErrDiskQuotaExceeded,
	"File exists":                      disko.ErrExists,
	"File descriptor in bad state":     disko.ErrFileDescriptorBadState,
	"Structure needs cleaning":         disko.ErrFileSystemCorrupted,
	"File too large":                   disko.ErrFileTooLarge,
	"Invalid argument":                 disko.ErrInvalidArgument,
	"Bad file descriptor":              disko.ErrInvalidFileDescriptor,
	"Wrong medium type":                disko.ErrInvalidFileSystem,
	"Input/output error":               disko.ErrIOFailed,
	"Is a directory":                   disko.ErrIsADirectory,
	"Symlink cycle detected":           disko.ErrLinkCycleDetected,
	"File name too long":               disko.ErrNameTooLong,
	"No such device":                   disko.ErrNoDevice,
	"No space left on device":          disko.ErrNoSpaceOnDevice,
	"Not a directory":                  disko.ErrNotADirectory,
	"No such file or directory":        disko.ErrNotFound,
	"Function not implemented":         disko.ErrNotImplemented,
	"Operation not permitted":          disko.ErrNotPermitted,
	"Operation not supported":          disko.ErrNotSupported,
	"Permission denied":                disko.ErrPermissionDenied,
	"Read-only file system":            disko.ErrReadOnlyFileSystem,
	"Numerical result out of range":    disko.ErrResultOutOfRange,
	"Too many links":                   disko.ErrTooManyLinks,
	"Too many open files in system":    disko.ErrTooManyOpenFiles,
	"Too many users":                   disko.ErrTooManyUsers,
}

type vDriverErr struct{ s string }

func (e vDriverErr) Error() string                          { return e.s }
func (e vDriverErr) WithMessage(m string) disko.DriverError { return vDriverErr{e.s + m} }
func (e vDriverErr) Wrap(err error) disko.DriverError       { return vDriverErr{e.s + err.Error()} }

type vBigErr []int // not comparable

func (e vBigErr) Error() string { return fmt.Sprint([]int(e)) }

func TestVerif_C28(t *testing.T) {
	verifharness.Run(t, "all pairs of the library's errors; random derivations of up to 8 messages and wrapped errors (library errors, derived ones, multierrors, joined and formatted errors), checked against the set of errors they were made from; conversions of all kinds of errors", func(r *verifharness.R) {
		var names []string
		for n := range vAll {
			names = append(names, n)
		}
		for _, n := range names {
			for _, m := range names {
				a, b := vAll[n], vAll[m]
				r.Case("pairs", func() string { return fmt.Sprintf("%q and %q", n, m) }, func() error {
					if errors.Is(a, b) != (n == m) {
						return fmt.Errorf("errors.Is is %v", n != m)
					}
					if a.Error() != n {
						return fmt.Errorf("text is %q", a.Error())
					}
					return nil
				})
			}
		}
		type known struct {
			e    error
			text string
			is   []error
		}
		plain := 0
		fresh := func() known {
			plain++
			switch r.Intn(8) {
			case 0:
				e := fmt.Errorf("plain %d", plain)
				return known{e, e.Error(), []error{e}}
			case 1:
				a, b := fmt.Errorf("left %d", plain), fmt.Errorf("right %d", plain)
				e := multierror.Append(a, b)
				return known{e, e.Error(), []error{e, a, b}}
			case 2:
				a, b := fmt.Errorf("left %d", plain), fmt.Errorf("right %d", plain)
				e := errors.Join(a, b)
				return known{e, e.Error(), []error{e, a, b}}
			case 3:
				a := fmt.Errorf("inner %d", plain)
				e := fmt.Errorf("outer: %w", a)
				return known{e, e.Error(), []error{e, a}}
			case 4:
				s := fmt.Sprintf("new %d", plain)
				e := disko.NewError(s)
				return known{e, s, []error{e}}
			case 5:
				return known{io.EOF, "EOF", []error{io.EOF}}
			}
			n := names[r.Intn(len(names))]
			return known{vAll[n], n, []error{vAll[n]}}
		}
		for r.More() {
			var trace string
			var err error
			err = func() (err error) {
				k := fresh()
				r.Case("derive", func() string { return trace }, func() error {
					trace = fmt.Sprintf("%q", k.text)
					var d disko.DriverError
					if x, ok := k.e.(disko.DriverError); ok {
						d = x
						if c := disko.CastToDriverError(k.e); c != d {
							return fmt.Errorf("converting a library error changed it to %v", c)
						}
					} else {
						d = disko.CastToDriverError(k.e)
						if d == nil {
							return fmt.Errorf("converted to nil")
						}
						k.text = d.Error() // the text is not specified
						k.is = append(k.is, d)
					}
					for i := r.Intn(8); i >= 0; i-- {
						before := d
						if r.Intn(2) == 0 {
							m := fmt.Sprintf("message %d", i)
							if r.Intn(8) == 0 {
								m = ""
							}
							if r.Intn(8) == 0 {
								m = "100%s of %d"
							}
							d = d.WithMessage(m)
							k.text += ": " + m
							trace += fmt.Sprintf(".WithMessage(%q)", m)
						} else {
							w := fresh()
							if r.Intn(8) == 0 { // wrap something derived from itself
								w = known{d.WithMessage("again"), k.text + ": again", append([]error{}, k.is...)}
							}
							d = d.Wrap(w.e)
							k.text += ": " + w.text
							k.is = append(k.is, w.is...)
							trace += fmt.Sprintf(".Wrap(%q %T)", w.text, w.e)
						}
						if d == nil {
							return fmt.Errorf("the result is nil")
						}
						k.is = append(k.is, d)
						k.e = d
						if d.Error() != k.text {
							return fmt.Errorf("text is %q, want %q", d.Error(), k.text)
						}
						for _, x := range k.is {
							if !errors.Is(d, x) {
								return fmt.Errorf("not recognised as %q", x)
							}
						}
						for _, n := range names {
							want := false
							for _, x := range k.is {
								want = want || x == error(vAll[n])
							}
							if errors.Is(d, vAll[n]) != want {
								return fmt.Errorf("wrongly recognised as %q", n)
							}
						}
						if errors.Is(d, io.ErrShortWrite) || errors.Is(d, disko.NewError("unrelated")) || errors.Is(before, fmt.Errorf("nothing")) {
							return fmt.Errorf("recognised as an unrelated error")
						}
						if c := disko.CastToDriverError(d); c != d {
							return fmt.Errorf("converting it changed it")
						}
						around := fmt.Errorf("around: %w", d)
						if c := disko.CastToDriverError(around); !errors.Is(c, around) {
							return fmt.Errorf("converting an error around it loses that error")
						} else if !errors.Is(c, d) {
							return fmt.Errorf("lost by converting an error around it")
						}
					}
					return nil
				})
				return nil
			}()
			_ = err
			r.Case("convert", func() string { return "nil, a foreign driver error and an incomparable error" }, func() error {
				if disko.CastToDriverError(nil) != nil {
					return fmt.Errorf("nil is converted to an error")
				}
				v := vDriverErr{"x"}
				if disko.CastToDriverError(v) != disko.DriverError(v) {
					return fmt.Errorf("a driver error is changed")
				}
				big := vBigErr{1, 2}
				c := disko.CastToDriverError(big)
				var back vBigErr
				if !errors.As(c, &back) || len(back) != 2 {
					return fmt.Errorf("an incomparable error is lost")
				}
				errors.Is(c, io.EOF)
				return nil
			})
		}
	})
}
