package blockcache_test

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"runtime/debug"
	"testing"

	"github.com/dargueta/disko"
	c "github.com/dargueta/disko/file_systems/common"
	"github.com/dargueta/disko/file_systems/common/blockcache"
	"github.com/dargueta/disko/verifharness"
)

// vStream is a file in memory that may return short reads and refuse writes.
type vStream struct {
	data      []byte
	pos       int64
	short     bool
	failWrite int
	failSeek  bool
	failTrunc bool
	partial   bool
	eofEarly  bool
}

func (s *vStream) Read(p []byte) (int, error) {
	if s.pos >= int64(len(s.data)) {
		return 0, io.EOF
	}
	if s.short && len(p) > 1 {
		p = p[:(len(p)+1)/2]
	}
	n := copy(p, s.data[s.pos:])
	s.pos += int64(n)
	if s.eofEarly && s.pos == int64(len(s.data)) {
		return n, io.EOF
	}
	return n, nil
}

func (s *vStream) Write(p []byte) (int, error) {
	if s.failWrite > 0 {
		s.failWrite--
		if s.failWrite == 0 {
			n := 0
			if s.partial {
				n = copy(s.data[s.pos:], p[:len(p)/2])
			}
			return n, vErrStream
		}
	}
	for int64(len(s.data)) < s.pos+int64(len(p)) {
		s.data = append(s.data, 0)
	}
	n := copy(s.data[s.pos:], p)
	s.pos += int64(n)
	return n, nil
}

func (s *vStream) Seek(o int64, w int) (int64, error) {
	if s.failSeek {
		return 0, vErrStream
	}
	switch w {
	case io.SeekCurrent:
		o += s.pos
	case io.SeekEnd:
		o += int64(len(s.data))
	}
	if o < 0 {
		return 0, errors.New("negative position")
	}
	s.pos = o
	return o, nil
}

var vErrStream = errors.New("injected stream failure")

type vTruncStream struct{ vStream }

func (s *vTruncStream) Truncate(n int64) error {
	if s.failTrunc {
		return vErrStream
	}
	for int64(len(s.data)) < n {
		s.data = append(s.data, 0)
	}
	s.data = s.data[:n]
	return nil
}

// vSparse is a big stream that keeps only what was written: block b of it is filled with
// the byte b%251 to begin with.
type vSparse struct {
	pos, size, block int64
	written          map[int64]byte
}

func (s *vSparse) Read(p []byte) (int, error) {
	n := int(min(int64(len(p)), s.size-s.pos))
	if n <= 0 {
		return 0, io.EOF
	}
	for i := range p[:n] {
		p[i] = s.at(s.pos + int64(i))
	}
	s.pos += int64(n)
	return n, nil
}

func (s *vSparse) at(o int64) byte {
	if b, ok := s.written[o]; ok {
		return b
	}
	return byte(o / s.block % 251)
}

func (s *vSparse) Write(p []byte) (int, error) {
	for i, b := range p {
		s.written[s.pos+int64(i)] = b
	}
	s.pos += int64(len(p))
	return len(p), nil
}

func (s *vSparse) Seek(o int64, w int) (int64, error) {
	if w == io.SeekCurrent {
		o += s.pos
	} else if w == io.SeekEnd {
		o += s.size
	}
	s.pos = o
	return o, nil
}

// vFar uses blocks on both sides of 4 GiB.
func vFar(bpb uint, b uint) error {
	total := b + 2
	s := &vSparse{size: int64(total) * int64(bpb), block: int64(bpb), written: map[int64]byte{}}
	cache := blockcache.WrapStream(s, bpb, total, false)
	buf := make([]byte, bpb)
	for _, k := range []uint{0, b - 1, b, b + 1} {
		if _, err := cache.ReadAt(buf, c.LogicalBlock(k)); err != nil {
			return fmt.Errorf("reading block %d fails: %w", k, err)
		}
		if want := bytes.Repeat([]byte{byte(k % 251)}, int(bpb)); !bytes.Equal(buf, want) {
			return fmt.Errorf("block %d reads as %x... instead of %x", k, buf[:4], want[:4])
		}
	}
	data := bytes.Repeat([]byte{0xfe}, int(bpb))
	if _, err := cache.WriteAt(data, c.LogicalBlock(b)); err != nil {
		return fmt.Errorf("writing block %d fails: %w", b, err)
	}
	if err := cache.Flush(); err != nil {
		return fmt.Errorf("flush fails: %w", err)
	}
	for i := int64(0); i < int64(bpb); i++ {
		if o := int64(b)*int64(bpb) + i; s.at(o) != 0xfe {
			return fmt.Errorf("after writing block %d the stream holds %x at %d", b, s.at(o), o)
		}
	}
	if len(s.written) != int(bpb) {
		return fmt.Errorf("writing one block changed %d bytes of the stream", len(s.written))
	}
	return nil
}

func TestVerif_C05(t *testing.T) {
	verifharness.Run(t, "histories of block reads, writes, flushes and resizes of caches over streams of every kind; distinct by history", func(r *verifharness.R) {
		for _, b := range []uint{1 << 12, 1<<12 + 1 + uint(r.Intn(900))} {
			r.Case("far", func() string {
				return fmt.Sprintf("a stream of %d blocks of 1 MiB: read blocks 0 and %d to %d, write block %d", b+2, b-1, b+1, b)
			}, func() error { return vFar(1<<20, b) })
			debug.FreeOSMemory()
		}
		for n := 0; (n < r.N(6000, 1<<30) || n < 300) && (n < 300 || r.More()); n++ {
			bpb := uint([]int{1, 2, 3, 5, 8, 64, 128}[r.Intn(7)])
			total := uint(r.Intn(12))
			extra := uint(r.Intn(int(bpb)))
			kind := r.Intn(5)
			trunc := r.Intn(2) == 0
			allow := r.Intn(2) == 0
			short := r.Intn(2) == 0
			var hist []string
			r.Case("stream", func() string {
				return fmt.Sprintf("block size %d, %d blocks and %d bytes, kind %d truncator %v allow %v short %v: %v", bpb, total, extra, kind, trunc, allow, short, hist)
			}, func() error {
				content := r.Bytes(int(total*bpb + extra))
				s := &vTruncStream{vStream{data: append([]byte{}, content...), short: short, eofEarly: r.Intn(2) == 0}}
				var stream io.ReadWriteSeeker = s
				if !trunc {
					stream = &s.vStream
				}
				view := append([]byte{}, content[:total*bpb]...)
				storage := func() []byte { return s.data }
				var cache *blockcache.BlockCache
				missing := uint(0)
				switch kind {
				case 0:
					cache = blockcache.WrapStreamWithInferredSize(stream, bpb, allow)
				case 1:
					b := append([]byte{}, content...)
					cache = blockcache.WrapSlice(b, bpb)
					storage = func() []byte { return b }
					allow = false
				case 2:
					// the stream is too short for the cache
					missing = uint(1 + r.Intn(2))
					cache = blockcache.WrapStream(stream, bpb, total+missing, allow)
				default:
					cache = blockcache.WrapStream(stream, bpb, total, allow)
				}
				if cache.TotalBlocks() != total+missing || cache.BytesPerBlock() != bpb {
					return fmt.Errorf("the cache has %d blocks of %d bytes", cache.TotalBlocks(), cache.BytesPerBlock())
				}
				if missing > 0 {
					buf := make([]byte, bpb)
					for b := total; b < total+missing; b++ {
						hist = append(hist, fmt.Sprintf("ReadAt missing block %d", b))
						if _, err := cache.ReadAt(buf, c.LogicalBlock(b)); err == nil {
							return fmt.Errorf("reading block %d succeeds although the stream has only %d bytes", b, len(s.data))
						}
					}
					return nil
				}
				for k := 0; k < 1+r.Intn(12); k++ {
					switch op := r.Intn(7); op {
					case 0, 1:
						if total == 0 {
							continue
						}
						b := uint(r.Intn(int(total)))
						nb := 1 + r.Intn(int(total-b))
						hist = append(hist, fmt.Sprintf("read %d+%d", b, nb))
						buf := make([]byte, nb*int(bpb))
						if _, err := cache.ReadAt(buf, c.LogicalBlock(b)); err != nil {
							return fmt.Errorf("reading block %d fails: %w", b, err)
						}
						if !bytes.Equal(buf, view[b*bpb:][:len(buf)]) {
							return fmt.Errorf("block %d reads as %x instead of %x", b, buf, view[b*bpb:][:len(buf)])
						}
					case 2, 3:
						if total == 0 {
							continue
						}
						b := uint(r.Intn(int(total)))
						data := r.Bytes(int(bpb) * (1 + r.Intn(int(total-b))))
						hist = append(hist, fmt.Sprintf("write %d+%d", b, len(data)))
						if _, err := cache.WriteAt(data, c.LogicalBlock(b)); err != nil {
							return fmt.Errorf("writing block %d fails: %w", b, err)
						}
						copy(view[b*bpb:], data)
					case 4:
						hist = append(hist, "flush")
						if err := cache.Flush(); err != nil {
							return fmt.Errorf("flush fails: %w", err)
						}
						want := append(append([]byte{}, view...), content[min(len(content), len(view)):]...)
						if !bytes.HasPrefix(storage(), view) {
							return fmt.Errorf("after a flush the stream is %x instead of %x", storage(), want)
						}
						if len(view) == int(uint(len(content))/bpb*bpb) && uint(len(content))%bpb == extra && !bytes.Equal(storage()[len(view):], content[len(view):]) {
							return fmt.Errorf("a flush changes the bytes after the last block")
						}
					case 5:
						if kind == 1 {
							continue
						}
						hist = append(hist, "failing flush")
						if total == 0 {
							continue
						}
						b := uint(r.Intn(int(total)))
						data := r.Bytes(int(bpb))
						if _, err := cache.WriteAt(data, c.LogicalBlock(b)); err != nil {
							return fmt.Errorf("writing block %d fails: %w", b, err)
						}
						copy(view[b*bpb:], data)
						s.failWrite = 1
						s.partial = r.Intn(2) == 0
						err := cache.Flush()
						s.failWrite = 0
						if err == nil {
							return fmt.Errorf("a flush succeeds although the stream didn't accept a block")
						}
					case 6:
						to := uint(r.Intn(14))
						hist = append(hist, fmt.Sprintf("resize %d", to))
						if trunc && allow && kind != 1 && r.Intn(4) == 0 {
							s.failTrunc = true
							err := cache.Resize(to)
							s.failTrunc = false
							if err == nil {
								return fmt.Errorf("a resize succeeds although truncating the stream failed")
							}
							continue
						}
						was := len(storage())
						err := cache.Resize(to)
						switch {
						case !allow:
							if !errors.Is(err, disko.ErrNotPermitted) {
								return fmt.Errorf("a forbidden resize returns %v", err)
							}
						case !trunc:
							if !errors.Is(err, disko.ErrNotSupported) {
								return fmt.Errorf("resizing a stream that can't be truncated returns %v", err)
							}
						default:
							if err != nil {
								return fmt.Errorf("Resize(%d) fails: %w", to, err)
							}
							if uint(len(s.data)) != to*bpb {
								return fmt.Errorf("after Resize(%d) the stream has %d bytes", to, len(s.data))
							}
							for uint(len(view)) < to*bpb {
								view = append(view, 0)
							}
							view = view[:to*bpb]
							total = to
							content = nil
						}
						if err != nil && len(storage()) != was {
							return fmt.Errorf("a refused resize changes the stream's length")
						}
					}
				}
				return nil
			})
		}
	})
}
