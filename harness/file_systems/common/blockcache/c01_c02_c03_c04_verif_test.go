package blockcache_test

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"strings"
	"testing"

	"github.com/dargueta/disko"
	c "github.com/dargueta/disko/file_systems/common"
	"github.com/dargueta/disko/file_systems/common/blockcache"
	"github.com/dargueta/disko/verifharness"
)

type vProblem struct {
	prop string
	msg  string
}

// vModel is a reference model of a cache and its storage.
type vModel struct {
	bpb, total uint
	disk       [][]byte
	view       [][]byte
	dirty      []bool
	loaded     []bool
	cache      *blockcache.BlockCache
	hist       []string
	problems   []vProblem

	failFetch, failFlush int // fail the n-th call from now, 0: never
	failResize           bool
	calls                int
	flushing             bool
	flushed              []int
	fetchFailed          bool
	flushFailed          bool
	maxTotal             uint
	canFailResize        bool
}

var vErr = errors.New("injected failure")
var vErrResize = errors.New("injected resize failure")

func (m *vModel) bad(prop, f string, a ...any) {
	m.problems = append(m.problems, vProblem{prop, fmt.Sprintf(f, a...)})
}

func newVModel(bpb, total uint, fill func(n int) []byte) *vModel {
	m := &vModel{bpb: bpb, total: total}
	for i := uint(0); i < total; i++ {
		b := fill(int(bpb))
		m.disk = append(m.disk, b)
		m.view = append(m.view, append([]byte{}, b...))
		m.dirty = append(m.dirty, false)
		m.loaded = append(m.loaded, false)
	}
	m.cache = blockcache.New(bpb, total, m.fetch, m.flush, m.resize)
	return m
}

func (m *vModel) fetch(block c.LogicalBlock, buf []byte) error {
	m.calls++
	if uint(block) >= uint(len(m.disk)) || uint(len(buf)) != m.bpb {
		m.bad("C03", "fetch callback called with block %d of %d and %d bytes", block, len(m.disk), len(buf))
		m.bad("C01", "fetch callback called with block %d of %d and %d bytes", block, len(m.disk), len(buf))
		return vErr
	}
	if m.loaded[block] {
		m.bad("C01", "block %d is fetched again although it was loaded", block)
	}
	if m.failFetch > 0 {
		m.failFetch--
		if m.failFetch == 0 {
			m.fetchFailed = true
			for i := range buf {
				buf[i] = 0xEE
			}
			return vErr
		}
	}
	copy(buf, m.disk[block])
	m.loaded[block] = true
	return nil
}

func (m *vModel) flush(block c.LogicalBlock, buf []byte) error {
	m.calls++
	if uint(block) >= uint(len(m.disk)) || uint(len(buf)) != m.bpb {
		m.bad("C03", "flush callback called with block %d of %d and %d bytes", block, len(m.disk), len(buf))
		m.bad("C02", "flush callback called with block %d of %d and %d bytes", block, len(m.disk), len(buf))
		return vErr
	}
	if !m.flushing {
		m.bad("C02", "block %d is written to storage outside of a flush", block)
	}
	if !m.dirty[block] {
		m.bad("C02", "block %d is written although it isn't dirty", block)
	}
	if !bytes.Equal(buf, m.view[block]) {
		m.bad("C02", "block %d is written with %x instead of its content %x", block, buf, m.view[block])
	}
	m.flushed = append(m.flushed, int(block))
	if m.failFlush > 0 {
		m.failFlush--
		if m.failFlush == 0 {
			m.flushFailed = true
			for i := range m.disk[block] {
				m.disk[block][i] = 0xDD
			}
			return vErr
		}
	}
	copy(m.disk[block], buf)
	m.dirty[block] = false
	return nil
}

func (m *vModel) resize(n c.LogicalBlock) error {
	m.calls++
	if m.failResize {
		m.failResize = false
		return vErrResize
	}
	for uint(len(m.disk)) < uint(n) {
		m.disk = append(m.disk, bytes.Repeat([]byte{0xCC}, int(m.bpb)))
	}
	m.disk = m.disk[:n]
	return nil
}

func (m *vModel) inside(start, blocks uint) bool {
	return start < m.total && blocks <= m.total-start
}

func (m *vModel) viewBytes() []byte { return bytes.Join(m.view, nil) }

func (m *vModel) ceil(n uint) uint {
	q := n / m.bpb
	if n%m.bpb != 0 {
		q++
	}
	return q
}

// outside checks what a refused request may do.
func (m *vModel) outside(what string, err error, calls int) {
	if err == nil {
		m.bad("C03", "%s outside of the cache (%d blocks) succeeds", what, m.total)
	} else if !errors.Is(err, disko.ErrArgumentOutOfRange) {
		m.bad("C03", "%s outside of the cache fails with %v", what, err)
	}
	if m.calls != calls {
		m.bad("C03", "%s outside of the cache calls the storage", what)
	}
}

func (m *vModel) errOK(what string, err error) {
	if err == nil {
		if m.fetchFailed {
			m.bad("C01", "%s succeeds although loading a block failed", what)
		}
		if m.flushFailed {
			m.bad("C02", "%s succeeds although writing a block failed", what)
		}
	} else {
		if errors.Is(err, disko.ErrArgumentOutOfRange) {
			m.bad("C03", "%s inside the cache is refused: %v", what, err)
		}
		if !m.fetchFailed && !m.flushFailed {
			m.bad("C01", "%s fails although the storage works: %v", what, err)
			m.bad("C02", "%s fails although the storage works: %v", what, err)
			m.bad("C03", "%s fails although the storage works: %v", what, err)
		} else if !errors.Is(err, vErr) {
			m.bad("C02", "%s doesn't report the storage's error but %v", what, err)
		}
	}
	m.fetchFailed, m.flushFailed = false, false
}

func (m *vModel) read(start uint, n int) {
	m.hist = append(m.hist, fmt.Sprintf("ReadAt(%d bytes, %d)", n, start))
	big := make([]byte, n+6)
	for i := range big {
		big[i] = 0xA5
	}
	buf := big[3 : 3+n : 3+n]
	calls := m.calls
	got, err := m.cache.ReadAt(buf, c.LogicalBlock(start))
	for i := range big {
		if (i < 3 || i >= 3+n) && big[i] != 0xA5 {
			m.bad("C01", "ReadAt(%d bytes, %d) writes outside of the buffer", n, start)
		}
	}
	if !m.inside(start, m.ceil(uint(n))) {
		m.outside("ReadAt", err, calls)
		if got != 0 {
			m.bad("C03", "a refused ReadAt returns %d", got)
		}
	} else {
		if err == nil {
			if got != n {
				m.bad("C01", "ReadAt(%d bytes, %d) returns %d", n, start, got)
			}
			want := m.viewBytes()[start*m.bpb:][:n]
			if !bytes.Equal(want, buf) {
				m.bad("C01", "ReadAt(%d bytes, %d) reads %x instead of %x", n, start, buf, want)
				m.bad("C02", "ReadAt(%d bytes, %d) reads %x instead of %x", n, start, buf, want)
				m.bad("C04", "ReadAt(%d bytes, %d) reads %x instead of %x", n, start, buf, want)
			}
		}
		m.errOK("ReadAt", err)
	}
	if err != nil {
		for i := range buf {
			if buf[i] != 0xA5 {
				m.bad("C03", "a failed ReadAt changes the buffer")
				m.bad("C01", "a failed ReadAt changes the buffer")
				break
			}
		}
	}
}

func (m *vModel) write(start uint, data []byte) {
	m.hist = append(m.hist, fmt.Sprintf("WriteAt(%x, %d)", data, start))
	calls := m.calls
	cp := append([]byte{}, data...)
	got, err := m.cache.WriteAt(cp, c.LogicalBlock(start))
	if !bytes.Equal(cp, data) {
		m.bad("C01", "WriteAt changes the caller's buffer")
	}
	blocks := m.ceil(uint(len(data)))
	if !m.inside(start, blocks) {
		m.outside("WriteAt", err, calls)
		if got != 0 {
			m.bad("C03", "a refused WriteAt returns %d", got)
		}
		return
	}
	if err == nil {
		if got != len(data) {
			m.bad("C01", "WriteAt(%d bytes) returns %d", len(data), got)
		}
		for i, b := range data {
			m.view[start+uint(i)/m.bpb][uint(i)%m.bpb] = b
		}
		for i := start; i < start+blocks; i++ {
			m.dirty[i] = true
			m.loaded[i] = true
		}
	}
	m.errOK("WriteAt", err)
}

func (m *vModel) slice(start, count uint, mutate func(b []byte)) {
	m.hist = append(m.hist, fmt.Sprintf("GetSlice(%d, %d) mutate=%v", start, count, mutate != nil))
	calls := m.calls
	b, err := m.cache.GetSlice(c.LogicalBlock(start), count)
	if !m.inside(start, count) {
		m.outside("GetSlice", err, calls)
		return
	}
	m.errOK("GetSlice", err)
	if err != nil {
		return
	}
	want := m.viewBytes()[start*m.bpb:][:count*m.bpb]
	if !bytes.Equal(b, want) {
		m.bad("C01", "GetSlice(%d, %d) is %x instead of %x", start, count, b, want)
		m.bad("C02", "GetSlice(%d, %d) is %x instead of %x", start, count, b, want)
		m.bad("C04", "GetSlice(%d, %d) is %x instead of %x", start, count, b, want)
		return
	}
	if mutate != nil {
		mutate(b)
		for i := range b {
			m.view[start+uint(i)/m.bpb][uint(i)%m.bpb] = b[i]
		}
		m.mark(start, count)
	}
}

func (m *vModel) mark(start, count uint) {
	m.hist = append(m.hist, fmt.Sprintf("MarkBlockRangeDirty(%d, %d)", start, count))
	calls := m.calls
	err := m.cache.MarkBlockRangeDirty(c.LogicalBlock(start), count)
	if !m.inside(start, count) {
		m.outside("MarkBlockRangeDirty", err, calls)
		return
	}
	if err == nil {
		for i := start; i < start+count; i++ {
			m.dirty[i] = true
		}
	}
	m.errOK("MarkBlockRangeDirty", err)
}

func (m *vModel) data(load bool) {
	m.hist = append(m.hist, fmt.Sprintf("Data/LoadAll(%v)", load))
	if load {
		err := m.cache.LoadAll()
		m.errOK("LoadAll", err)
		if err == nil {
			for i, l := range m.loaded {
				if !l {
					m.bad("C02", "LoadAll doesn't load block %d", i)
					m.bad("C01", "LoadAll doesn't load block %d", i)
				}
			}
		}
		return
	}
	b, err := m.cache.Data()
	m.errOK("Data", err)
	if err == nil && !bytes.Equal(b, m.viewBytes()) {
		m.bad("C01", "Data is %x instead of %x", b, m.viewBytes())
		m.bad("C04", "Data is %x instead of %x", b, m.viewBytes())
	}
}

func (m *vModel) flushAll() {
	m.hist = append(m.hist, "Flush()")
	m.flushing = true
	m.flushed = nil
	was := append([]bool{}, m.dirty...)
	before := make([][]byte, len(m.disk))
	for i := range m.disk {
		before[i] = append([]byte{}, m.disk[i]...)
	}
	err := m.cache.Flush()
	m.flushing = false
	if err == nil {
		n := map[int]int{}
		for _, i := range m.flushed {
			n[i]++
		}
		for i := range was {
			want := 0
			if was[i] {
				want = 1
			}
			if n[i] != want {
				m.bad("C02", "a successful flush writes block %d %d times (dirty: %v)", i, n[i], was[i])
				m.bad("C04", "a successful flush writes block %d %d times (dirty: %v)", i, n[i], was[i])
			}
			if was[i] && !bytes.Equal(m.disk[i], m.view[i]) {
				m.bad("C02", "after a flush block %d of the storage is %x instead of %x", i, m.disk[i], m.view[i])
			}
		}
	}
	for i := range was {
		if !was[i] && !bytes.Equal(before[i], m.disk[i]) {
			m.bad("C02", "flush changes clean block %d", i)
		}
	}
	m.errOK("Flush", err)
}

func (m *vModel) resizeTo(n uint, fail bool) {
	m.hist = append(m.hist, fmt.Sprintf("Resize(%d) fail=%v", n, fail))
	m.failResize = fail
	err := m.cache.Resize(n)
	m.failResize = false
	if fail {
		if err == nil || !errors.Is(err, vErrResize) {
			m.bad("C04", "a refused resize returns %v", err)
		}
	} else if err != nil {
		m.bad("C04", "Resize(%d) fails: %v", n, err)
	} else {
		for uint(len(m.view)) < n {
			m.view = append(m.view, make([]byte, m.bpb))
			m.dirty = append(m.dirty, true)
			m.loaded = append(m.loaded, true)
		}
		m.view, m.dirty, m.loaded = m.view[:n], m.dirty[:n], m.loaded[:n]
		m.total = n
	}
	if m.cache.TotalBlocks() != m.total {
		m.bad("C04", "after Resize(%d) (failing: %v) the cache has %d blocks instead of %d", n, fail, m.cache.TotalBlocks(), m.total)
	}
	if m.cache.Size() != int64(m.total*m.bpb) {
		m.bad("C04", "after Resize(%d) (failing: %v) the cache's size is %d", n, fail, m.cache.Size())
	}
}

// check runs at the end of a history.
func (m *vModel) finish(prop string) error {
	if m.cache.TotalBlocks() != m.total || m.cache.BytesPerBlock() != m.bpb {
		m.bad(prop, "the cache has %d blocks of %d bytes", m.cache.TotalBlocks(), m.cache.BytesPerBlock())
	}
	var msgs []string
	for _, p := range m.problems {
		if p.prop == prop {
			msgs = append(msgs, p.msg)
		}
	}
	if len(msgs) > 0 {
		if len(msgs) > 4 {
			msgs = msgs[:4]
		}
		return errors.New(strings.Join(msgs, "; "))
	}
	return nil
}

func vHistories(t *testing.T, prop string) {
	verifharness.Run(t, "random and exhaustive short histories of cache operations with injected storage failures against a reference model; distinct by history", func(r *verifharness.R) {
		// every history of up to three operations on small caches
		ops := []func(m *vModel){
			func(m *vModel) { m.read(0, int(m.bpb)+1) },
			func(m *vModel) { m.write(0, []byte{1, 2, 3}) },
			func(m *vModel) { m.write(1, []byte{9}) },
			func(m *vModel) { m.slice(0, 2, func(b []byte) { b[len(b)-1] ^= 0x55 }) },
			func(m *vModel) { m.mark(1, 1) },
			func(m *vModel) { m.mark(0, 2) },
			func(m *vModel) { m.data(false) },
			func(m *vModel) { m.data(true) },
			func(m *vModel) { m.flushAll() },
			func(m *vModel) { m.failFlush = 1; m.flushAll(); m.failFlush = 0 },
			func(m *vModel) { m.failFlush = 2; m.flushAll(); m.failFlush = 0 },
			func(m *vModel) { m.failFetch = 1 },
			func(m *vModel) { m.failFetch = 2 },
			func(m *vModel) { m.resizeTo(m.total+1, false) },
			func(m *vModel) { m.resizeTo(m.total+9, false) },
			func(m *vModel) { m.resizeTo(1, false) },
			func(m *vModel) { m.resizeTo(0, false) },
			func(m *vModel) { m.resizeTo(m.total+1, true) },
			func(m *vModel) { m.read(m.total, 0) },
			func(m *vModel) { m.read(0, int(m.total*m.bpb)) },
			func(m *vModel) { m.read(1, int(m.total*m.bpb)) },
		}
		depth := r.N(3, 4)
		fill := byte(0)
		det := func(n int) []byte {
			b := make([]byte, n)
			for i := range b {
				fill += 37
				b[i] = fill
			}
			return b
		}
		idx := make([]int, depth)
		for _, total := range []uint{0, 1, 2, 3, 9} {
			for {
				var m *vModel
				fill = 0
				r.Case("history", func() string { return fmt.Sprintf("New(4, %d): %v", total, m.hist) }, func() error {
					m = newVModel(4, total, det)
					for _, k := range idx {
						ops[k](m)
					}
					// what a final look shows
					m.failFetch = 0
					m.data(false)
					m.flushAll()
					m.flushAll()
					m.data(false)
					return m.finish(prop)
				})
				k := 0
				for k < depth && idx[k] == len(ops)-1 {
					idx[k] = 0
					k++
				}
				if k == depth {
					break
				}
				idx[k]++
				if !r.More() {
					break
				}
			}
			for i := range idx {
				idx[i] = 0
			}
		}
		for n := 0; n < r.N(4000, 1<<30) && (n < 500 || r.More()); n++ {
			bpb := []uint{1, 2, 3, 4, 7, 8, 16, 128, 512}[r.Intn(9)]
			total := uint(r.Intn(20))
			var m *vModel
			r.Case("history", func() string { return fmt.Sprintf("New(%d, %d): %v", bpb, total, m.hist) }, func() error {
				m = newVModel(bpb, total, func(n int) []byte { return r.Bytes(n) })
				steps := 3 + r.Intn(30)
				for s := 0; s < steps && len(m.problems) == 0; s++ {
					if r.Intn(10) == 0 {
						m.failFetch = 1 + r.Intn(4)
					}
					if r.Intn(10) == 0 {
						m.failFlush = 1 + r.Intn(4)
					}
					start := uint(r.Intn(int(m.total) + 2))
					left := uint(1)
					if start < m.total {
						left = m.total - start
					}
					count := uint(r.Intn(int(left) + 1))
					if r.Intn(8) == 0 {
						count += 2
					}
					n := int(count * bpb)
					if r.Intn(2) == 0 && n > 0 {
						n -= r.Intn(int(bpb))
					}
					switch r.Intn(12) {
					case 0, 1, 2:
						m.read(start, n)
					case 3, 4, 5:
						m.write(start, r.Bytes(n))
					case 6:
						m.slice(start, count, nil)
					case 7:
						m.slice(start, count, func(b []byte) {
							for i := 0; i < 1+len(b)/3 && len(b) > 0; i++ {
								b[r.Intn(len(b))]++
							}
						})
					case 8:
						m.mark(start, count)
					case 9:
						m.data(r.Intn(2) == 0)
					case 10:
						m.flushAll()
					case 11:
						to := uint(r.Intn(24))
						m.resizeTo(to, r.Intn(4) == 0)
					}
				}
				m.failFetch, m.failFlush = 0, 0
				m.data(false)
				m.flushAll()
				m.flushAll()
				m.data(false)
				return m.finish(prop)
			})
			if !r.More() {
				break
			}
		}
	})
}

func TestVerif_C01(t *testing.T) { vHistories(t, "C01") }
func TestVerif_C02(t *testing.T) { vHistories(t, "C02") }
func TestVerif_C04(t *testing.T) {
	vHistories(t, "C04")
}

func TestVerif_C03(t *testing.T) {
	vHistories(t, "C03")
	if t.Failed() {
		return
	}
	verifharness.Run(t, "requests at and beyond the limits of the cache, including sizes that overflow, and histories; distinct by request", func(r *verifharness.R) {
		interesting := func(total, bpb uint) []uint {
			out := []uint{0, 1, 2, total - 1, total, total + 1, math.MaxUint, math.MaxUint - 1, math.MaxUint / 2, math.MaxUint/2 + 1, math.MaxUint/2 + 2, 1 << 32, 1 << 63}
			for _, d := range []uint{0, 1, 2} {
				out = append(out, math.MaxUint/bpb+d, math.MaxUint/bpb-d, (math.MaxUint-total)/bpb+d, math.MaxUint-total+d, math.MaxInt/bpb+d, math.MaxUint/bpb-total+d)
				if bpb > 1 {
					out = append(out, (1<<63)/bpb*2+d, (math.MaxUint/bpb+1)+d, math.MaxUint/bpb+1+total+d)
				}
			}
			return out
		}
		for _, bpb := range []uint{1, 2, 3, 4, 8, 128, 512, 1000} {
			for _, total := range []uint{0, 1, 2, 5, 8, 9, 17} {
				for _, start := range interesting(total, bpb) {
					for _, size := range interesting(total*bpb, bpb) {
						m := newVModel(bpb, total, func(n int) []byte { return r.Bytes(n) })
						in := func() string { return fmt.Sprintf("New(%d, %d), start %d, size or count %d", bpb, total, start, size) }
						r.Case("bounds", in, func() error {
							q := m.cache.GetMinBlocksForSize(size)
							want := size / bpb
							if size%bpb != 0 {
								want++
							}
							if q != want {
								return fmt.Errorf("GetMinBlocksForSize(%d) is %d instead of %d", size, q, want)
							}
							err := m.cache.CheckBounds(c.LogicalBlock(start), size)
							if m.inside(start, want) != (err == nil) {
								return fmt.Errorf("CheckBounds(%d, %d) returns %v", start, size, err)
							}
							if err != nil && !errors.Is(err, disko.ErrArgumentOutOfRange) {
								return fmt.Errorf("CheckBounds(%d, %d) returns %v", start, size, err)
							}
							m.slice(start, size, nil)
							m.mark(start, size)
							m.data(false)
							m.flushing = true
							return m.finish("C03")
						})
						if size < 1<<16 {
							m2 := newVModel(bpb, total, func(n int) []byte { return r.Bytes(n) })
							r.Case("access", in, func() error {
								m2.read(start, int(size))
								if m2.inside(start, m2.ceil(size)) || size < 4096 {
									m2.write(start, r.Bytes(int(size)))
								}
								m2.data(false)
								return m2.finish("C03")
							})
						}
					}
				}
			}
		}
		for n := 0; n < r.N(100000, 3000000) && r.More(); n++ {
			bpb := uint(1) + uint(r.Uint64()>>uint(r.Intn(63)))
			size := uint(r.Uint64() >> uint(r.Intn(64)))
			m := blockcache.New(min(bpb, 1<<40), 0, nil, nil, nil)
			if bpb > 1<<40 {
				continue
			}
			r.Case("ceiling", func() string { return fmt.Sprintf("GetMinBlocksForSize(%d) with %d-byte blocks", size, bpb) }, func() error {
				want := size / bpb
				if size%bpb != 0 {
					want++
				}
				if q := m.GetMinBlocksForSize(size); q != want {
					return fmt.Errorf("is %d instead of %d", q, want)
				}
				return nil
			})
		}
	})
}
