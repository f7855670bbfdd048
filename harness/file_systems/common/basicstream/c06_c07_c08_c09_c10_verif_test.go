package basicstream_test

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"strings"
	"testing"

	"github.com/dargueta/disko"
	c "github.com/dargueta/disko/file_systems/common"
	"github.com/dargueta/disko/file_systems/common/basicstream"
	"github.com/dargueta/disko/file_systems/common/blockcache"
	"github.com/dargueta/disko/verifharness"
)

var vErr = errors.New("injected failure")
var vErrResize = errors.New("injected resize failure")
var vErrSrc = errors.New("injected source failure")
var vErrDst = errors.New("injected destination failure")

// vFile is a stream on a cache in memory together with a model of the file.
type vFile struct {
	bpb     int
	storage []byte
	content []byte
	pos     int64
	flags   disko.IOFlags
	s       *basicstream.BasicStream
	cache   *blockcache.BlockCache
	hist    []string
	bads    []string // "C06 what"

	failFetch, failFlush, failResize int
	fetchErr                         error
	flushes                          int
	calls                            int
	fixed                            bool
}

func (v *vFile) bad(props, f string, a ...any) {
	v.bads = append(v.bads, props+": "+fmt.Sprintf(f, a...))
}

func countdown(p *int) bool {
	if *p > 0 {
		*p--
		return *p == 0
	}
	return false
}

func (v *vFile) fetch(b c.LogicalBlock, buf []byte) error {
	v.calls++
	if countdown(&v.failFetch) {
		for i := range buf {
			buf[i] = 0xEE
		}
		return v.fetchErr
	}
	copy(buf, v.storage[int(b)*v.bpb:(int(b)+1)*v.bpb])
	return nil
}
func (v *vFile) flush(b c.LogicalBlock, buf []byte) error {
	v.calls++
	v.flushes++
	if countdown(&v.failFlush) {
		return vErr
	}
	copy(v.storage[int(b)*v.bpb:(int(b)+1)*v.bpb], buf)
	return nil
}
func (v *vFile) resize(n c.LogicalBlock) error {
	v.calls++
	if v.fixed {
		return disko.ErrNotSupported
	}
	if countdown(&v.failResize) || n > 1<<20 {
		return vErrResize
	}
	want := int(n) * v.bpb
	for len(v.storage) < want {
		v.storage = append(v.storage, 0xDD) // whatever is on the disk
	}
	v.storage = v.storage[:want]
	return nil
}

func (v *vFile) canRead() bool  { return v.flags&3 == 0 || v.flags&3 == 2 }
func (v *vFile) canWrite() bool { return v.flags&3 == 1 || v.flags&3 == 2 }
func (v *vFile) appending() bool {
	return v.flags&disko.O_APPEND != 0
}
func (v *vFile) sync() bool { return v.flags&disko.O_SYNC != 0 }

// full reads the whole file through a stream of its own.
func (v *vFile) full() ([]byte, error) {
	ff, fl := v.failFetch, v.failFlush
	v.failFetch, v.failFlush = 0, 0
	defer func() { v.failFetch, v.failFlush = ff, fl }()
	n := v.s.Size()
	d, err := v.cache.Data()
	if err != nil && n > 0 {
		return nil, err
	}
	if int64(len(d)) < n {
		return nil, fmt.Errorf("the cache is smaller than the file: %d < %d", len(d), n)
	}
	return append([]byte{}, d[:n]...), nil
}

func (v *vFile) persisted(props, what string) {
	b := v.content
	if len(v.storage) < len(b) || !bytes.Equal(v.storage[:len(b)], b) {
		v.bad(props, "after %s the backing storage does not hold the file", what)
	}
}

// check compares the state of the stream with the model.
func (v *vFile) check(props, what string) {
	if v.s.Tell() != v.pos {
		v.bad(props, "%s: position is %d, expected %d", what, v.s.Tell(), v.pos)
	}
	if v.s.Size() != int64(len(v.content)) {
		v.bad(props, "%s: size is %d, expected %d", what, v.s.Size(), len(v.content))
		return
	}
	b, err := v.full()
	if err != nil {
		v.bad(props, "%s: %v", what, err)
	} else if !bytes.Equal(b, v.content) {
		i := 0
		for b[i] == v.content[i] {
			i++
		}
		v.bad(props, "%s: byte %d is %#x, expected %#x (old end and size matter)", what, i, b[i], v.content[i])
	}
}

// resync takes over the state after an operation failed.
func (v *vFile) resync(props, what string, orig []byte, maxSize int64) {
	b, err := v.full()
	if err != nil {
		v.bad(props, "%s: %v", what, err)
		return
	}
	if int64(len(b)) != int64(len(orig)) && int64(len(b)) != maxSize {
		v.bad(props, "%s: failed, size is %d", what, len(b))
	}
	v.content = b
	v.pos = v.s.Tell()
}

func grow(b []byte, n int64) []byte {
	for int64(len(b)) < n {
		b = append(b, 0)
	}
	return b
}

func (v *vFile) put(off int64, data []byte) {
	if len(data) == 0 {
		return
	}
	v.content = grow(v.content, off+int64(len(data)))
	copy(v.content[off:], data)
}

func (v *vFile) doRead(off int64, n int, seq bool) {
	buf := bytes.Repeat([]byte{0xA5}, n)
	var got int
	var err error
	what := fmt.Sprintf("ReadAt(%d bytes, %d)", n, off)
	if seq {
		off = v.pos
		what = fmt.Sprintf("Read(%d bytes) at %d", n, off)
		got, err = v.s.Read(buf)
	} else {
		got, err = v.s.ReadAt(buf, off)
	}
	v.hist = append(v.hist, what)
	switch {
	case !v.canRead():
		if got != 0 || !errors.Is(err, disko.ErrNotPermitted) {
			v.bad("C09", "%s without read access returned %d, %v", what, got, err)
		}
		if !bytes.Equal(buf, bytes.Repeat([]byte{0xA5}, n)) {
			v.bad("C09", "%s without read access returned data", what)
		}
		got = 0
	case off < 0:
		if got != 0 || err == nil || err == io.EOF {
			v.bad("C06", "%s returned %d, %v", what, got, err)
		}
	default:
		want := int64(0)
		if off < int64(len(v.content)) {
			want = min(int64(n), int64(len(v.content))-off)
		}
		if err != nil && err != io.EOF {
			if v.fetchErr == nil || v.failFetch > 0 || want == 0 {
				v.bad("C06", "%s failed: %v", what, err)
			}
			if got != 0 {
				v.bad("C06", "%s returned %d bytes and %v", what, got, err)
			}
			break
		}
		if int64(got) != want {
			v.bad("C06", "%s returned %d bytes, %v, size is %d", what, got, err, len(v.content))
			break
		}
		if (err == io.EOF) != (got < n) {
			v.bad("C06", "%s returned %d, %v", what, got, err)
		}
		if want > 0 && !bytes.Equal(buf[:got], v.content[off:off+want]) {
			v.bad("C06", "%s returned the wrong bytes", what)
		}
		for _, b := range buf[got:] {
			if b != 0xA5 {
				v.bad("C06", "%s wrote past the bytes it returned", what)
				break
			}
		}
	}
	if seq {
		v.pos += int64(got)
	}
	v.check("C06 C09", what)
}

func (v *vFile) doWrite(off int64, data []byte, how int) {
	seq := how != 1
	names := []string{"Write", "WriteAt", "WriteString"}
	what := fmt.Sprintf("%s(%d bytes) at %d", names[how], len(data), off)
	if seq {
		what = fmt.Sprintf("%s(%d bytes) at %d", names[how], len(data), v.pos)
	}
	v.hist = append(v.hist, what)
	keep := append([]byte{}, data...)
	var n int
	var err error
	faulty := v.failFetch > 0 || v.failFlush > 0 || v.failResize > 0 || v.fixed
	orig := append([]byte{}, v.content...)
	oldFlushes := v.flushes
	switch how {
	case 0:
		n, err = v.s.Write(data)
	case 1:
		n, err = v.s.WriteAt(data, off)
	default:
		n, err = v.s.WriteString(string(data))
	}
	if !bytes.Equal(data, keep) {
		v.bad("C07", "%s changed the caller's buffer", what)
	}
	if !v.canWrite() || how == 1 && v.appending() {
		if n != 0 || !errors.Is(err, disko.ErrNotPermitted) {
			v.bad("C09", "%s without permission returned %d, %v", what, n, err)
		}
		if v.flushes != oldFlushes {
			v.bad("C09", "%s without permission changed the storage", what)
		}
		v.check("C09", what)
		return
	}
	if seq {
		off = v.pos
		if v.appending() {
			off = int64(len(v.content))
		}
	}
	if off < 0 {
		if n != 0 || !errors.Is(err, disko.ErrInvalidArgument) {
			v.bad("C07", "%s at a negative offset returned %d, %v", what, n, err)
		}
		v.check("C07", what)
		return
	}
	if seq && v.appending() && (len(data) == 0 || err != nil) {
		v.pos = v.s.Tell() // nothing is said about it
	}
	if err != nil {
		if !faulty && off+int64(len(data)) < 1<<20 {
			v.bad("C07", "%s failed: %v", what, err)
		}
		if n != 0 && n != len(data) {
			v.bad("C07", "%s wrote a part only: %d", what, n)
		}
		if n > 0 {
			v.put(off, data[:n])
		}
		if seq && v.s.Tell() != off+int64(n) && !(v.appending() && n == 0) {
			v.bad("C07", "%s failed with %d bytes written, position is %d", what, n, v.s.Tell())
		}
		// existing bytes are left alone
		b, e := v.full()
		if e != nil {
			v.bad("C07", "%s: %v", what, e)
			return
		}
		if n == 0 {
			for i := range b {
				if i < len(orig) && b[i] != orig[i] || i >= len(orig) && b[i] != 0 {
					v.bad("C07", "%s failed but changed byte %d", what, i)
					break
				}
			}
			if len(b) < len(orig) {
				v.bad("C07", "%s failed but made the file shorter", what)
			}
			v.content = b
			v.pos = v.s.Tell()
			return
		}
		v.pos = v.s.Tell()
		v.check("C07", what)
		return
	}
	if n != len(data) {
		v.bad("C07", "%s returned %d and no error", what, n)
	}
	v.put(off, data)
	if seq {
		if len(data) > 0 || !v.appending() {
			v.pos = off + int64(len(data))
		}
	}
	if v.appending() {
		v.check("C07 C09", what)
	} else {
		v.check("C07", what)
	}
	if v.sync() && len(data) > 0 {
		v.persisted("C09", what)
	}
}

func (v *vFile) doTruncate(n int64) {
	what := fmt.Sprintf("Truncate(%d) of %d", n, len(v.content))
	v.hist = append(v.hist, what)
	faulty := v.failFetch > 0 || v.failFlush > 0 || v.failResize > 0 || v.fixed
	err := v.s.Truncate(n)
	if !v.canWrite() {
		if !errors.Is(err, disko.ErrNotPermitted) {
			v.bad("C09 C08", "%s without permission returned %v", what, err)
		}
		v.check("C09 C08", what)
		return
	}
	if n < 0 {
		if !errors.Is(err, disko.ErrInvalidArgument) {
			v.bad("C08", "%s returned %v", what, err)
		}
		v.check("C08", what)
		return
	}
	if err != nil {
		if !faulty && n < 1<<20 {
			v.bad("C08", "%s failed: %v", what, err)
		}
		if v.s.Size() == n && v.sync() {
			v.content = grow(v.content, n)[:n]
		}
		v.check("C08", what+" which failed")
		return
	}
	v.content = grow(v.content, n)[:n]
	v.check("C08", what)
	if v.sync() {
		v.persisted("C09", what)
	}
}

func (v *vFile) doSeek(off int64, whence int) {
	what := fmt.Sprintf("Seek(%d, %d)", off, whence)
	v.hist = append(v.hist, what)
	n, err := v.s.Seek(off, whence)
	base := int64(0)
	switch whence {
	case io.SeekCurrent:
		base = v.pos
	case io.SeekEnd:
		base = int64(len(v.content))
	}
	over := off > math.MaxInt64-base
	if whence < 0 || whence > 2 || over || base+off < 0 {
		if err == nil {
			v.bad("C09", "%s succeeded", what)
		}
	} else {
		v.pos = base + off
		if err != nil || n != v.pos {
			v.bad("C09", "%s returned %d, %v", what, n, err)
		}
	}
	v.check("C09", what)
}

// vSource delivers data in pieces.
type vSource struct {
	data   []byte
	pieces []int
	failAt int // fail when that many bytes have been delivered
	err    error
	late   bool // EOF comes with the last bytes
}

func (s *vSource) Read(p []byte) (int, error) {
	if s.failAt == 0 {
		return 0, s.err
	}
	if len(s.data) == 0 {
		return 0, io.EOF
	}
	n := min(len(p), len(s.data))
	if len(s.pieces) > 0 {
		n = min(n, s.pieces[0])
		s.pieces = s.pieces[1:]
	}
	if s.failAt > 0 {
		n = min(n, s.failAt)
		s.failAt -= n
	}
	copy(p, s.data[:n])
	s.data = s.data[n:]
	if s.failAt == 0 {
		return n, s.err
	}
	if s.late && len(s.data) == 0 {
		return n, io.EOF
	}
	return n, nil
}

func (v *vFile) doReadFrom(src *vSource) {
	what := fmt.Sprintf("ReadFrom(%d bytes in pieces of %v, failing after %d with %v, late EOF %v) at %d", len(src.data), src.pieces, src.failAt, src.err, src.late, v.pos)
	v.hist = append(v.hist, what)
	all := append([]byte{}, src.data...)
	fails := src.failAt >= 0
	if fails {
		all = all[:min(src.failAt, len(all))]
		fails = src.failAt <= len(src.data)
		if src.failAt == len(src.data) && src.late {
			fails = true
		}
	}
	faulty := v.failFetch > 0 || v.failFlush > 0 || v.failResize > 0 || v.fixed
	orig := append([]byte{}, v.content...)
	n, err := v.s.ReadFrom(src)
	if !v.canWrite() {
		if n != 0 || !errors.Is(err, disko.ErrNotPermitted) {
			v.bad("C09", "%s without permission returned %d, %v", what, n, err)
		}
		v.check("C09", what)
		return
	}
	if err != nil && !(fails && errors.Is(err, vErrSrc)) {
		if !faulty {
			v.bad("C10", "%s failed: %v", what, err)
		}
		v.content, _ = v.full()
		v.pos = v.s.Tell()
		_ = orig
		return
	}
	if fails && err == nil {
		v.bad("C10", "%s: the error of the source was dropped", what)
	}
	if n != int64(len(all)) {
		v.bad("C10", "%s returned %d", what, n)
	}
	off := v.pos
	if v.appending() {
		off = int64(len(v.content))
	}
	v.put(off, all)
	if v.appending() && len(all) == 0 {
		v.pos = v.s.Tell()
	} else {
		v.pos = off + int64(len(all))
	}
	v.check("C10", what)
}

type vSink struct {
	got   []byte
	fail  int // fail when that many bytes were accepted, -1: never
	err   error
	short bool // accept less without an error
}

func (s *vSink) Write(p []byte) (int, error) {
	if s.fail >= 0 && len(s.got)+len(p) > s.fail {
		n := s.fail - len(s.got)
		s.got = append(s.got, p[:n]...)
		if s.short {
			return n, nil
		}
		return n, s.err
	}
	s.got = append(s.got, p...)
	return len(p), nil
}

func (v *vFile) doWriteTo(w *vSink) {
	what := fmt.Sprintf("WriteTo(failing after %d, short %v) at %d", w.fail, w.short, v.pos)
	v.hist = append(v.hist, what)
	faulty := v.failFetch > 0
	n, err := v.s.WriteTo(w)
	if !v.canRead() {
		if n != 0 || !errors.Is(err, disko.ErrNotPermitted) || len(w.got) != 0 {
			v.bad("C09", "%s without permission returned %d, %v", what, n, err)
		}
		v.check("C09", what)
		return
	}
	var rest []byte
	if v.pos < int64(len(v.content)) {
		rest = v.content[v.pos:]
	}
	if n != int64(len(w.got)) {
		v.bad("C10", "%s returned %d, %v but wrote %d", what, n, err, len(w.got))
	}
	if !bytes.HasPrefix(rest, w.got) {
		v.bad("C10", "%s delivered the wrong bytes", what)
	}
	fails := w.fail >= 0 && w.fail < len(rest)
	if err == nil && (fails || len(w.got) != len(rest)) {
		v.bad("C10", "%s delivered %d of %d bytes and reported success", what, len(w.got), len(rest))
	}
	if err != nil && !fails && !faulty {
		v.bad("C10", "%s failed: %v", what, err)
	}
	if err == nil {
		v.pos += int64(len(rest))
	} else {
		v.pos = v.s.Tell()
	}
	v.check("C10", what)
}

func (v *vFile) doSync(closing bool) {
	what := "Sync"
	var err error
	faulty := v.failFlush > 0 || v.failFetch > 0
	if closing {
		what = "Close"
		err = v.s.Close()
	} else {
		err = v.s.Sync()
	}
	v.hist = append(v.hist, what)
	if err != nil {
		if !faulty {
			v.bad("C07 C09", "%s failed: %v", what, err)
		}
		return
	}
	v.persisted("C07 C08", what)
	v.check("C07", what)
}

func (v *vFile) verdict(prop string) error {
	for _, b := range v.bads {
		i := strings.Index(b, ": ")
		if strings.Contains(b[:i], prop) {
			return fmt.Errorf("%s", b[i+2:])
		}
	}
	return nil
}

func newFile(r *verifharness.R) *vFile {
	v := &vFile{bpb: []int{1, 2, 3, 7, 16, 64, 512}[r.Intn(7)], fetchErr: []error{vErr, vErr, io.EOF, io.ErrUnexpectedEOF}[r.Intn(4)]}
	total := r.Intn(6)
	if r.Intn(4) == 0 {
		total = 1 + r.Intn(3)
	}
	v.storage = r.Bytes(total * v.bpb)
	size := 0
	if len(v.storage) > 0 {
		size = r.Intn(len(v.storage) + 1)
		if r.Intn(2) == 0 {
			size = len(v.storage) - r.Intn(min(v.bpb, len(v.storage)))
		}
	}
	v.content = append([]byte{}, v.storage[:size]...)
	v.flags = []disko.IOFlags{2, 2, 2, 2, 2, 0, 1, 1, 3, -2, 1 << 40}[r.Intn(11)]
	for _, f := range []disko.IOFlags{disko.O_APPEND, disko.O_SYNC, disko.O_TRUNC, disko.O_EXCL, disko.O_CREATE, disko.O_NOFOLLOW} {
		if r.Intn(6) == 0 {
			v.flags |= f
		}
	}
	v.fixed = r.Intn(12) == 0
	v.cache = blockcache.New(uint(v.bpb), uint(total), v.fetch, v.flush, v.resize)
	return v
}

func (v *vFile) open() bool {
	v.hist = append(v.hist, fmt.Sprintf("New(size %d, %d blocks of %d bytes, flags %#x, fixed %v)", len(v.content), v.cache.TotalBlocks(), v.bpb, int(v.flags), v.fixed))
	s, err := basicstream.New(int64(len(v.content)), v.cache, v.flags)
	if err != nil {
		if v.flags&disko.O_TRUNC == 0 || v.canWrite() && !v.fixed {
			v.bad("C06 C09 C08", "New failed: %v", err)
		}
		return false
	}
	v.s = s
	if v.flags&disko.O_TRUNC != 0 {
		v.content = nil
	}
	v.check("C06 C08 C09", "New")
	return true
}

var vPaths = []int64{0, 1, -1, math.MinInt64, math.MaxInt64, math.MaxInt64 - 1, math.MinInt64 + 1, 1 << 32}

func vOff(r *verifharness.R, v *vFile) int64 {
	n := len(v.content)
	switch r.Intn(8) {
	case 0:
		return int64(n)
	case 1:
		return int64(n) - 1
	case 2:
		return int64(n) + int64(r.Intn(3*v.bpb+1))
	case 3:
		return int64(v.bpb * r.Intn(5))
	case 4:
		return -int64(r.Intn(4))
	}
	return int64(r.Intn(n + 2))
}

func vLen(r *verifharness.R, v *vFile) int {
	switch r.Intn(6) {
	case 0:
		return 0
	case 1:
		return v.bpb
	case 2:
		return r.Intn(4*v.bpb + 2)
	case 3:
		return len(v.content)
	}
	return r.Intn(2*v.bpb + 3)
}

func vStep(r *verifharness.R, v *vFile, weights []int) {
	sum := 0
	for _, w := range weights {
		sum += w
	}
	k := r.Intn(sum)
	op := 0
	for k >= weights[op] {
		k -= weights[op]
		op++
	}
	switch op {
	case 0:
		off := vOff(r, v)
		if r.Intn(10) == 0 {
			off = vPaths[r.Intn(len(vPaths))]
		}
		v.doRead(off, vLen(r, v), false)
	case 1:
		v.doRead(0, vLen(r, v), true)
	case 2:
		off := vOff(r, v)
		if r.Intn(15) == 0 {
			off = []int64{-1, math.MinInt64}[r.Intn(2)]
		}
		v.doWrite(off, r.Bytes(vLen(r, v)), 1)
	case 3:
		if v.pos < 1<<16 {
			v.doWrite(0, r.Bytes(vLen(r, v)), 2*r.Intn(2))
		}
	case 4:
		n := vOff(r, v)
		if r.Intn(15) == 0 {
			n = []int64{-1, math.MinInt64}[r.Intn(2)]
		}
		v.doTruncate(n)
	case 5:
		off := vOff(r, v)
		if r.Intn(10) == 0 {
			off = vPaths[r.Intn(len(vPaths))]
		} else if r.Intn(3) == 0 {
			off = -off
		}
		v.doSeek(off, []int{0, 1, 2, 0, 1, 2, 0, 1, 2, 3, -1}[r.Intn(11)])
	case 6:
		v.doSync(r.Intn(4) == 0)
	case 7:
		if v.pos > 1<<16 {
			return
		}
		n := r.Intn(1800)
		if r.Intn(3) == 0 {
			n = []int{0, 1, 511, 512, 513, 1024}[r.Intn(6)]
		}
		src := &vSource{data: r.Bytes(n), failAt: -1, late: r.Intn(3) == 0}
		for r.Intn(3) != 0 {
			src.pieces = append(src.pieces, r.Intn(600))
		}
		if r.Intn(4) == 0 {
			src.failAt = r.Intn(n + 2)
			src.err = vErrSrc
			if r.Intn(3) == 0 {
				src.failAt = n
			}
		}
		v.doReadFrom(src)
	case 8:
		w := &vSink{fail: -1, err: vErrDst}
		if r.Intn(3) == 0 {
			w.fail = r.Intn(len(v.content) + 2)
			if r.Intn(3) == 0 {
				w.fail = max(0, len(v.content)-1)
			}
			w.short = r.Intn(2) == 0
		}
		v.doWriteTo(w)
	case 9: // inject a fault
		switch r.Intn(4) {
		case 0:
			v.failFetch = 1 + r.Intn(3)
		case 1:
			v.failFlush = 1 + r.Intn(3)
		case 2:
			v.failResize = 1 + r.Intn(2)
		default:
			v.failFetch, v.failFlush, v.failResize = 0, 0, 0
		}
		v.hist = append(v.hist, fmt.Sprintf("faults: fetch %d flush %d resize %d", v.failFetch, v.failFlush, v.failResize))
	}
}

func vSearch(t *testing.T, prop string, weights []int, also ...func(*verifharness.R)) {
	verifharness.Run(t, "random stream operations compared with a file in memory after each one", func(r *verifharness.R) {
		for i := 0; i < r.N(40000, 2000000) && r.More(); i++ {
			v := newFile(r)
			r.Case("history", func() string { return strings.Join(v.hist, "; ") }, func() error {
				if !v.open() {
					return v.verdict(prop)
				}
				for k := r.Intn(30) + 1; k > 0 && len(v.bads) == 0; k-- {
					vStep(r, v, weights)
				}
				if len(v.bads) == 0 {
					v.failFetch, v.failFlush, v.failResize = 0, 0, 0
					v.doSync(false)
				}
				return v.verdict(prop)
			})
		}
		for _, f := range also {
			f(r)
		}
		// sizes a stream can't have
		for _, d := range []int64{-1, math.MinInt64, 33, math.MaxInt64} {
			r.Case("size", func() string { return fmt.Sprint(d) }, func() error {
				cache := blockcache.WrapSlice(make([]byte, 32), 16)
				s, err := basicstream.New(d, cache, disko.O_RDWR)
				if err == nil || s != nil {
					return fmt.Errorf("New(%d) succeeded for 32 bytes", d)
				}
				return nil
			})
		}
	})
}

// vCopies copies streams into streams.
func vCopies(r *verifharness.R) {
	for i := 0; i < r.N(3000, 100000) && r.More(); i++ {
		a, b := newFile(r), newFile(r)
		a.flags, b.flags = disko.O_RDWR, disko.O_RDWR
		b.fixed = false
		r.Case("copy", func() string { return strings.Join(append(a.hist, b.hist...), "; ") }, func() error {
			if !a.open() || !b.open() {
				return errors.New("streams can't be opened")
			}
			want := append([]byte{}, a.content...)
			var n int64
			var err error
			if r.Intn(2) == 0 {
				b.hist = append(b.hist, "ReadFrom the other one")
				n, err = b.s.ReadFrom(a.s)
			} else {
				b.hist = append(b.hist, "WriteTo from the other one")
				n, err = a.s.WriteTo(b.s)
			}
			if err != nil || n != int64(len(want)) {
				return fmt.Errorf("copying %d bytes returned %d, %v", len(want), n, err)
			}
			b.put(0, want)
			b.pos = n
			b.check("C10", "copy")
			return b.verdict("C10")
		})
	}
}

// ra  r  wa w  t  s  sy rf wt fault
func TestVerif_C06(t *testing.T) { vSearch(t, "C06", []int{30, 30, 8, 8, 8, 10, 1, 0, 0, 2}) }
func TestVerif_C07(t *testing.T) { vSearch(t, "C07", []int{2, 2, 30, 30, 8, 10, 4, 0, 0, 2}) }
func TestVerif_C08(t *testing.T) { vSearch(t, "C08", []int{2, 2, 10, 10, 30, 4, 4, 0, 0, 3}) }
func TestVerif_C09(t *testing.T) { vSearch(t, "C09", []int{8, 8, 10, 10, 8, 20, 2, 3, 3, 1}) }
func TestVerif_C10(t *testing.T) {
	vSearch(t, "C10", []int{0, 1, 2, 2, 2, 8, 0, 20, 20, 2}, vCopies)
}
