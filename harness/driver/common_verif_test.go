package driver_test

import (
	"errors"
	"fmt"
	"math/rand"
	"os"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/driver"
	"github.com/dargueta/disko/verifs"
)

const (
	vRead  = disko.MountFlagsAllowRead
	vWrite = disko.MountFlagsAllowRead | disko.MountFlagsAllowWrite | disko.MountFlagsAllowInsert | disko.MountFlagsAllowDelete | disko.MountFlagsAllowAdminister
)

// vWorld is a driver over a random file system.
type vWorld struct {
	seed    int64
	linking bool
	fs      *verifs.FS
	d       *driver.BaseDriver
}

func vNew(seed int64, flags disko.MountFlags) *vWorld {
	r := rand.New(rand.NewSource(seed))
	fs := verifs.New()
	fs.NoDots = r.Intn(3) == 0
	fs.Plain = r.Intn(5) == 0
	fs.Random(r)
	w := &vWorld{seed: seed, fs: fs, linking: r.Intn(4) > 0}
	if w.linking {
		w.d = driver.New(verifs.Linking{FS: fs}, flags)
	} else {
		w.d = driver.New(fs, flags)
	}
	for i := 0; i < 4; i++ {
		p := fs.RandomPath(r)
		n, real, err := fs.Look("/", p, true)
		if err == nil && n.Kind == 'd' && r.Intn(2) == 0 {
			// The working directory doesn't matter if that fails.
			_ = w.d.Chdir(real)
			break
		}
	}
	return w
}

func (w *vWorld) cwd() string {
	s, _ := w.d.Getwd()
	return s
}

func (w *vWorld) String() string {
	return fmt.Sprintf("in %v, working directory %q (seed %d)", w.fs.Root, w.cwd(), w.seed)
}

// vErr is the error a lookup failing with err gives.
func vErr(err error) error {
	switch err {
	case verifs.ErrMissing:
		return disko.ErrNotFound
	case verifs.ErrNotDir:
		return disko.ErrNotADirectory
	case verifs.ErrCycle:
		return disko.ErrLinkCycleDetected
	}
	return err
}

func vIs(got error, want error) error {
	if want == nil {
		if got != nil {
			return fmt.Errorf("failed with %v", got)
		}
		return nil
	}
	if !errors.Is(got, want) {
		return fmt.Errorf("error is %v, expected %v", got, want)
	}
	return nil
}

var vPerms = []os.FileMode{0, 0o600, 0o644, 0o755, 0o777}

func vDriver(fs *verifs.FS, flags disko.MountFlags) *driver.BaseDriver {
	return driver.New(verifs.Linking{FS: fs}, flags)
}
