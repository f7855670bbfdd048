package driver_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/dargueta/disko/driver"
	"github.com/dargueta/disko/verifharness"
	"github.com/dargueta/disko/verifs"
)

func TestVerif_C29(t *testing.T) {
	verifharness.Run(t, "all paths of at most 6 characters out of a . / and a backslash (thorough: 8), random longer ones, from several working directories", func(r *verifharness.R) {
		fs := verifs.New()
		a := fs.Add(fs.Root, "a", 'd', "")
		b := fs.Add(a, "..b", 'd', "")
		fs.Add(b, "c d", 'd', "")
		drivers := []*driver.BaseDriver{}
		cwds := []string{"/", "/a", "/a/..b", "/a/..b/c d"}
		for _, c := range cwds {
			d := driver.New(fs, vWrite)
			if err := d.Chdir(c); err != nil {
				panic(err)
			}
			drivers = append(drivers, d)
		}
		check := func(i int, p string) {
			d := drivers[i]
			r.Case("path", func() string { return fmt.Sprintf("%q from %q", p, cwds[i]) }, func() error {
				if c, _ := d.Getwd(); c != cwds[i] {
					return fmt.Errorf("the working directory is %q", c)
				}
				got, want := d.NormalizePath(p), verifs.Clean(cwds[i], p)
				if got != want {
					return fmt.Errorf("normalised to %q, expected %q", got, want)
				}
				if again := d.NormalizePath(got); again != got {
					return fmt.Errorf("normalised to %q, and that to %q", got, again)
				}
				return nil
			})
		}
		const alphabet = `a./\`
		max := r.N(6, 8)
		var all func(p string)
		all = func(p string) {
			for i := range drivers {
				check(i, p)
			}
			if len(p) < max {
				for _, c := range alphabet {
					all(p + string(c))
				}
			}
		}
		all("")
		parts := []string{"", ".", "..", "...", "a", "..b", "c d", "é", "\x00", "\xff", ".a", "a.", "/", "//"}
		for i := 0; i < r.N(20000, 1000000) && r.More(); i++ {
			var p []string
			for j := r.Intn(12); j > 0; j-- {
				p = append(p, parts[r.Intn(len(parts))])
			}
			check(r.Intn(len(drivers)), strings.Join(p, "/"))
		}
	})
}
