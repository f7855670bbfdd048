package driver_test

import (
	"bytes"
	"fmt"
	"io"
	"strings"
	"testing"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/verifharness"
)

// What an object contains after the file on it was closed or synchronised, and what other
// files see of it.
func TestVerif_C36(t *testing.T) {
	verifharness.Run(t, "random trees; histories of up to 12 reads, writes, seeks, truncations and syncs on an open file, compared with its object", func(r *verifharness.R) {
		for i := 0; i < r.N(15000, 600000) && r.More(); i++ {
			seed := int64(r.Uint64() >> 8)
			w := vNew(seed, vWrite)
			p := w.fs.RandomPath(r.Rand)
			n, _, err := w.fs.Look(w.cwd(), p, true)
			if err != nil || n.Kind != 'f' {
				continue
			}
			flags := disko.O_RDWR
			for _, f := range []disko.IOFlags{disko.O_TRUNC, disko.O_APPEND, disko.O_SYNC} {
				if r.Intn(4) == 0 {
					flags |= f
				}
			}
			type op struct {
				kind byte
				n    int
				data []byte
			}
			ops := make([]op, r.Intn(12))
			for k := range ops {
				ops[k] = op{"rwwstfc"[r.Intn(7)], r.Intn(40), r.Bytes(r.Intn(30))}
				if r.Intn(4) == 0 {
					clear(ops[k].data)
				}
			}
			name := func() string {
				var b strings.Builder
				fmt.Fprintf(&b, "OpenFile(%q, %#x)", p, int(flags))
				for _, o := range ops {
					switch o.kind {
					case 'r':
						fmt.Fprintf(&b, "; read %d", o.n)
					case 'w':
						fmt.Fprintf(&b, "; write %q", o.data)
					case 's':
						fmt.Fprintf(&b, "; seek %d", o.n)
					case 't':
						fmt.Fprintf(&b, "; truncate %d", o.n)
					case 'f':
						b.WriteString("; sync")
					case 'c':
						b.WriteString("; close, open again")
					}
				}
				return b.String() + "; close " + vNew(seed, vWrite).String()
			}
			r.Case("file of an object", name, func() error {
				model := bytes.Clone(n.Data)
				if flags&disko.O_TRUNC != 0 {
					model = nil
				}
				f, err := w.d.OpenFile(p, flags, 0o644)
				if err != nil {
					return fmt.Errorf("opening failed with %v", err)
				}
				at := 0
				settled := func(what string) error {
					if !bytes.Equal(n.Data, model) {
						return fmt.Errorf("%s left the object at %q, written was %q", what, n.Data, model)
					}
					return nil
				}
				for _, o := range ops {
					switch o.kind {
					case 'r':
						b := make([]byte, o.n)
						m, err := f.Read(b)
						want := 0
						if at < len(model) {
							want = min(o.n, len(model)-at)
						}
						if m != want || err != nil && err != io.EOF || err == io.EOF && m > 0 && at+m < len(model) {
							return fmt.Errorf("reading %d at %d of %d gave %d, %v", o.n, at, len(model), m, err)
						}
						if !bytes.Equal(b[:m], model[min(at, len(model)):min(at, len(model))+m]) {
							return fmt.Errorf("reading at %d gave %q, the file is %q", at, b[:m], model)
						}
						at += m
					case 'w':
						m, err := f.Write(o.data)
						if m != len(o.data) || err != nil {
							return fmt.Errorf("writing %d gave %d, %v", len(o.data), m, err)
						}
						if flags&disko.O_APPEND != 0 {
							at = len(model)
						}
						if m > 0 {
							for len(model) < at+m {
								model = append(model, 0)
							}
							copy(model[at:], o.data)
							at += m
						}
						if flags&disko.O_APPEND != 0 {
							at = len(model)
						}
					case 's':
						if _, err := f.Seek(int64(o.n), io.SeekStart); err != nil {
							return err
						}
						at = o.n
					case 't':
						if err := f.Truncate(int64(o.n)); err != nil {
							return err
						}
						for len(model) < o.n {
							model = append(model, 0)
						}
						model = model[:o.n:o.n]
					case 'f':
						if err := f.Sync(); err != nil {
							return err
						}
						if err := settled("Sync"); err != nil {
							return err
						}
					case 'c':
						if err := f.Close(); err != nil {
							return err
						}
						if err := settled("Close"); err != nil {
							return err
						}
						if f, err = w.d.OpenFile(p, flags&^disko.O_TRUNC, 0o644); err != nil {
							return err
						}
						at = 0
					}
				}
				if err := f.Close(); err != nil {
					return err
				}
				if err := settled("Close"); err != nil {
					return err
				}
				b, err := w.d.ReadFile(p)
				if err != nil || !bytes.Equal(b, model) {
					return fmt.Errorf("reading it again gives %q, %v, written was %q", b, err, model)
				}
				return nil
			})
		}
	})
}
