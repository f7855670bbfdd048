package compression_test

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"io"
	"testing"

	"github.com/dargueta/disko/utilities/compression"
	"github.com/dargueta/disko/verifharness"
)

var vIn = errors.New("injected input failure")
var vOut = errors.New("injected output failure")

// vReader delivers data in pieces, then fails with err (or EOF).
type vReader struct {
	data  []byte
	err   error
	piece int  // at most this many bytes per call, 0 for any
	early bool // report the end together with the last bytes
	r     *verifharness.R
}

func (v *vReader) Read(p []byte) (int, error) {
	n := len(v.data)
	if n > len(p) {
		n = len(p)
	}
	if v.piece > 0 && n > v.piece {
		n = v.piece
	}
	copy(p, v.data[:n])
	v.data = v.data[n:]
	end := v.err
	if end == nil {
		end = io.EOF
	}
	if len(v.data) == 0 && (v.early && n > 0 || n == 0 && len(p) > 0) {
		return n, end
	}
	return n, nil
}

// vWriter accepts limit bytes and then fails.
type vWriter struct {
	got    []byte
	limit  int // -1: never
	failed bool
	partly bool // the failing write accepts what fits
}

func (v *vWriter) Write(p []byte) (int, error) {
	if v.limit >= 0 && len(v.got)+len(p) > v.limit {
		v.failed = true
		n := 0
		if v.partly {
			n = v.limit - len(v.got)
			v.got = append(v.got, p[:n]...)
		}
		v.limit = len(v.got)
		return n, vOut
	}
	v.got = append(v.got, p...)
	return len(p), nil
}

// vRuns makes data out of runs of interesting lengths.
func vRuns(r *verifharness.R, big bool) []byte {
	var out []byte
	lens := []int{1, 1, 1, 2, 2, 3, 4, 5, 127, 128, 254, 255, 256, 257, 258, 259, 260, 509, 510, 511, 512, 513, 514, 515, 516, 517, 765, 766, 767, 768, 771, 1022, 1028}
	vals := []byte{0, 1, 254, 255, 'a'}
	for n := r.Intn(7); n > 0; n-- {
		l := lens[r.Intn(len(lens))]
		if r.Intn(4) == 0 {
			l = 1 + r.Intn(600)
		}
		if big && r.Intn(3) == 0 {
			l = 257*(1+r.Intn(40)) + r.Intn(5) - 2
		}
		v := vals[r.Intn(len(vals))]
		if r.Intn(4) == 0 {
			v = byte(r.Intn(256))
		}
		out = append(out, bytes.Repeat([]byte{v}, l)...)
	}
	if big && r.Intn(4) == 0 {
		out = append(out, r.Bytes(r.Intn(9000))...)
	}
	return out
}

// vSmall makes short strings over a small alphabet.
func vSmall(r *verifharness.R) []byte {
	al := [][]byte{{0, 1}, {254, 255}, {0, 2, 255}, {1, 2, 3}}[r.Intn(4)]
	out := make([]byte, r.Intn(12))
	for i := range out {
		out[i] = al[r.Intn(len(al))]
	}
	return out
}

func vData(r *verifharness.R) []byte {
	switch r.Intn(4) {
	case 0:
		return vSmall(r)
	case 1:
		return r.Bytes(r.Intn(40))
	}
	return vRuns(r, r.Intn(8) == 0)
}

// vDecode8 is the meaning of RLE8.
func vDecode8(in []byte) ([]byte, bool) {
	var out []byte
	last := -1
	for i := 0; i < len(in); i++ {
		out = append(out, in[i])
		if int(in[i]) != last {
			last = int(in[i])
			continue
		}
		if i+1 == len(in) {
			return out, false
		}
		i++
		out = append(out, bytes.Repeat([]byte{byte(last)}, int(in[i]))...)
		last = -1
	}
	return out, true
}

func vDecodeR(in []byte) ([]byte, bool) {
	var out []byte
	last := -1
	for i := 0; i < len(in); i++ {
		out = append(out, in[i])
		if int(in[i]) != last {
			last = int(in[i])
			continue
		}
		for {
			if i+1 == len(in) {
				return out, false
			}
			i++
			out = append(out, bytes.Repeat([]byte{byte(last)}, int(in[i]))...)
			if in[i] != 255 {
				break
			}
		}
		last = -1
	}
	return out, true
}

func vShow(b []byte) string {
	if len(b) <= 80 {
		return fmt.Sprintf("%x", b)
	}
	s := ""
	for i := 0; i < len(b) && len(s) < 400; {
		j := i
		for j < len(b) && b[j] == b[i] {
			j++
		}
		s += fmt.Sprintf("%02x*%d ", b[i], j-i)
		i = j
	}
	return s
}

type codec func(io.Reader, io.Writer) (int64, error)

func vRead(r *verifharness.R, data []byte, err error) *vReader {
	return &vReader{data: data, err: err, piece: r.Intn(4), early: r.Intn(2) == 0, r: r}
}

func roundTrip(data []byte, comp, dec codec, ref func([]byte) ([]byte, bool), in func([]byte) io.Reader) error {
	var c, d vWriter
	c.limit, d.limit = -1, -1
	n, err := comp(in(data), &c)
	if err != nil {
		return fmt.Errorf("compress: %v", err)
	}
	if n != int64(len(c.got)) {
		return fmt.Errorf("compress returned %d but wrote %d bytes", n, len(c.got))
	}
	if w, ok := ref(c.got); !ok || !bytes.Equal(w, data) {
		return fmt.Errorf("the compressed data %s means %s", vShow(c.got), vShow(w))
	}
	n, err = dec(in(c.got), &d)
	if err != nil {
		return fmt.Errorf("decompress: %v", err)
	}
	if !bytes.Equal(d.got, data) {
		return fmt.Errorf("decompressed %d bytes %s from %s", len(d.got), vShow(d.got), vShow(c.got))
	}
	if n != int64(len(d.got)) {
		return fmt.Errorf("decompress returned %d but wrote %d bytes", n, len(d.got))
	}
	return nil
}

// failures checks that input and output errors come back.
func failures(r *verifharness.R, data []byte, f codec, what string) error {
	var w vWriter
	w.limit = -1
	_, err := f(vRead(r, data, vIn), &w)
	if !errors.Is(err, vIn) {
		return fmt.Errorf("%s: the input failed but the error is %v", what, err)
	}
	w = vWriter{limit: -1}
	if _, err = f(vRead(r, data, nil), &w); err != nil {
		return nil
	}
	for k := 0; k < 3 && len(w.got) > 0; k++ {
		lim := r.Intn(len(w.got))
		if k == 0 {
			lim = len(w.got) - 1
		}
		x := vWriter{limit: lim, partly: r.Intn(2) == 0}
		_, err := f(vRead(r, data, nil), &x)
		if !errors.Is(err, vOut) {
			return fmt.Errorf("%s: the output failed after %d bytes but the error is %v", what, lim, err)
		}
		if !bytes.HasPrefix(w.got, x.got) {
			return fmt.Errorf("%s: wrong output before the failure", what)
		}
	}
	return nil
}

func roundTrips(t *testing.T, rule string, comp, dec codec, ref func([]byte) ([]byte, bool)) {
	verifharness.Run(t, rule, func(r *verifharness.R) {
		one := func(key string, data []byte) {
			r.Case(key, func() string { return vShow(data) }, func() error {
				return roundTrip(data, comp, dec, ref, func(b []byte) io.Reader { return bytes.NewReader(b) })
			})
		}
		for n := 0; n <= 1030; n++ {
			for _, v := range []byte{0, 7, 255} {
				b := bytes.Repeat([]byte{v}, n)
				one("single run", b)
				one("run then byte", append(append([]byte{}, b...), v^1))
				one("byte then run", append([]byte{v ^ 1}, b...))
				one("run then equal-looking run", append(append([]byte{}, b...), bytes.Repeat([]byte{v ^ 255}, n%5)...))
			}
		}
		for _, n := range []int{257 * 255, 255*255 + 2, 65535, 65536, 65537, 1 << 20} {
			one("long run", bytes.Repeat([]byte{3}, n))
		}
		for r.More() {
			data := vData(r)
			r.Case("random", func() string { return vShow(data) }, func() error {
				if err := roundTrip(data, comp, dec, ref, func(b []byte) io.Reader { return vRead(r, b, nil) }); err != nil {
					return err
				}
				if err := failures(r, data, comp, "compress"); err != nil {
					return err
				}
				return nil
			})
		}
	})
}

func TestVerif_C11(t *testing.T) {
	roundTrips(t, "all run lengths up to 1030 alone and next to other runs, long runs, random sequences of runs and bytes with readers that deliver in pieces and report the end early; failing inputs and outputs",
		compression.CompressRLE8, compression.DecompressRLE8, vDecode8)
}

func TestVerif_C13(t *testing.T) {
	roundTrips(t, "all run lengths up to 1030 alone and next to other runs, long runs, random sequences of runs and bytes with readers that deliver in pieces and report the end early; truncated counts; failing inputs and outputs",
		compression.CompressRLERecursive, func(i io.Reader, o io.Writer) (int64, error) {
			n, err := compression.DecompressRLERecursive(i, o)
			if err != nil {
				return n, err
			}
			// a cut count is an error
			for _, k := range []int{0, 1, 2, 5, 300} {
				in := append([]byte{9, 9}, bytes.Repeat([]byte{255}, k)...)
				var w vWriter
				w.limit = -1
				if _, err := compression.DecompressRLERecursive(bytes.NewReader(in), &w); !errors.Is(err, io.ErrUnexpectedEOF) {
					return n, fmt.Errorf("count cut after %d parts: error %v", k, err)
				}
			}
			return n, nil
		}, vDecodeR)
}

func decodes(r *verifharness.R, data []byte, dec codec, ref func([]byte) ([]byte, bool), what string) error {
	want, ok := ref(data)
	w := vWriter{limit: -1}
	n, err := dec(vRead(r, data, nil), &w)
	if ok {
		if err != nil {
			return fmt.Errorf("%s: valid input refused: %v", what, err)
		}
		if !bytes.Equal(w.got, want) {
			return fmt.Errorf("%s: decoded %s instead of %s", what, vShow(w.got), vShow(want))
		}
		if n != int64(len(want)) {
			return fmt.Errorf("%s: returned %d for %d bytes", what, n, len(want))
		}
	} else if !errors.Is(err, io.ErrUnexpectedEOF) {
		return fmt.Errorf("%s: truncated input gave error %v", what, err)
	}
	if errors.Is(err, io.EOF) && err != nil {
		return fmt.Errorf("%s: the error is EOF", what)
	}
	return failures(r, data, dec, what)
}

func TestVerif_C12(t *testing.T) {
	verifharness.Run(t, "all strings of up to 6 bytes over {0,1,255}, random encoded, cut and arbitrary strings; readers that deliver in pieces, failing inputs and outputs", func(r *verifharness.R) {
		one := func(key string, data []byte) {
			r.Case(key, func() string { return vShow(data) }, func() error {
				if err := decodes(r, data, compression.DecompressRLE8, vDecode8, "RLE8"); err != nil {
					return err
				}
				return decodes(r, data, compression.DecompressRLERecursive, vDecodeR, "recursive RLE")
			})
		}
		var rec func(b []byte)
		rec = func(b []byte) {
			one("short", append([]byte{}, b...))
			if len(b) < 6 {
				for _, v := range []byte{0, 1, 255} {
					rec(append(b, v))
				}
			}
		}
		rec(nil)
		for c := 0; c < 256; c++ {
			one("count", []byte{5, 5, byte(c), 5, 5, 0, 5})
			one("count", []byte{5, 5, byte(c), byte(c), byte(c)})
		}
		for r.More() {
			one("random", vData(r))
		}
	})
}

func TestVerif_C14(t *testing.T) {
	verifharness.Run(t, "random sequences of runs and bytes from readers that deliver in pieces and end with EOF or fail", func(r *verifharness.R) {
		for r.More() {
			data := vData(r)
			if r.Intn(300) == 0 {
				// Longer than any counter of 16 bits.
				data = append(data, bytes.Repeat([]byte{byte(r.Intn(3))}, 65530+r.Intn(20))...)
			}
			fail := r.Intn(3) == 0
			scanner := r.Intn(2) == 0
			r.Case("runs", func() string { return fmt.Sprintf("fail=%v scanner=%v %s", fail, scanner, vShow(data)) }, func() error {
				var end error
				if fail {
					end = vIn
				}
				var g compression.RLEGrouper
				if scanner {
					g = compression.NewRLEGrouperFromByteScanner(bufio.NewReaderSize(vRead(r, data, end), 16))
				} else {
					g = compression.NewRLEGrouperFromReader(vRead(r, data, end))
				}
				var got []byte
				prev := -1
				for i := 0; i <= len(data)+3; i++ {
					run, err := g.GetNextRun()
					if run.RunLength < 0 {
						return fmt.Errorf("negative run length")
					}
					if run.RunLength > len(data) {
						return fmt.Errorf("run of %d in %d bytes", run.RunLength, len(data))
					}
					if run.RunLength > 0 {
						if int(run.Byte) == prev {
							return fmt.Errorf("neighbouring runs of %02x", run.Byte)
						}
						prev = int(run.Byte)
						got = append(got, bytes.Repeat([]byte{run.Byte}, run.RunLength)...)
					}
					switch {
					case err == nil:
						if run.RunLength < 1 {
							return fmt.Errorf("empty run without error")
						}
					case errors.Is(err, io.EOF):
						if fail {
							return fmt.Errorf("EOF although the input failed")
						}
						if !bytes.Equal(got, data) {
							return fmt.Errorf("the runs are %s", vShow(got))
						}
						run, err = g.GetNextRun()
						if run.RunLength != 0 || !errors.Is(err, io.EOF) {
							return fmt.Errorf("after the end: %v %v", run, err)
						}
						return nil
					default:
						if !errors.Is(err, vIn) || !fail {
							return fmt.Errorf("unexpected error %v", err)
						}
						if run.RunLength != 0 {
							return fmt.Errorf("a run of %d together with a failure", run.RunLength)
						}
						if !bytes.HasPrefix(data, got) {
							return fmt.Errorf("the runs are %s", vShow(got))
						}
						return nil
					}
				}
				return fmt.Errorf("no end")
			})
		}
	})
}

func vGzip(b []byte) []byte {
	var o bytes.Buffer
	w := gzip.NewWriter(&o)
	w.Write(b)
	w.Close()
	return o.Bytes()
}

func TestVerif_C15(t *testing.T) {
	verifharness.Run(t, "random images, from empty to larger than any buffer; inputs and outputs that fail at any byte; compressed images cut or damaged at any byte", func(r *verifharness.R) {
		for r.More() {
			data := vData(r)
			if r.Intn(6) == 0 {
				data = append(data, r.Bytes(r.Intn(70000))...)
			}
			r.Case("image", func() string { return fmt.Sprintf("%d bytes %s", len(data), vShow(data)) }, func() error {
				w := vWriter{limit: -1}
				n, err := compression.CompressImage(vRead(r, data, nil), &w)
				if err != nil {
					return fmt.Errorf("compress: %v", err)
				}
				if n != int64(len(w.got)) {
					return fmt.Errorf("CompressImage returned %d but wrote %d bytes", n, len(w.got))
				}
				img := w.got
				d := vWriter{limit: -1}
				n, err = compression.DecompressImage(vRead(r, img, nil), &d)
				if err != nil || !bytes.Equal(d.got, data) || n != int64(len(data)) {
					return fmt.Errorf("DecompressImage: %d, %v, equal %v", n, err, bytes.Equal(d.got, data))
				}
				mem, err := compression.DecompressImageToBytes(vRead(r, img, nil))
				if err != nil || !bytes.Equal(mem, data) {
					return fmt.Errorf("DecompressImageToBytes: %d bytes of %d, %v", len(mem), len(data), err)
				}
				// failures of the input
				w = vWriter{limit: -1}
				if _, err = compression.CompressImage(vRead(r, data, vIn), &w); !errors.Is(err, vIn) {
					return fmt.Errorf("CompressImage: the input failed but the error is %v", err)
				}
				for k := 0; k < 4; k++ {
					cut := r.Intn(len(img))
					if k == 0 {
						cut = len(img) - 1 - r.Intn(9)
					}
					d = vWriter{limit: -1}
					if _, err = compression.DecompressImage(vRead(r, img[:cut], vIn), &d); !errors.Is(err, vIn) {
						return fmt.Errorf("DecompressImage: the input failed after %d bytes but the error is %v", cut, err)
					}
					if _, err = compression.DecompressImage(vRead(r, img[:cut], nil), &d); err == nil {
						return fmt.Errorf("DecompressImage: the image ends after %d of %d bytes, no error", cut, len(img))
					}
					if b, err := compression.DecompressImageToBytes(vRead(r, img[:cut], nil)); err == nil || b != nil {
						return fmt.Errorf("DecompressImageToBytes: the image ends after %d of %d bytes, error %v", cut, len(img), err)
					}
				}
				// damage to the checksum or length
				bad := append([]byte{}, img...)
				bad[len(bad)-1-r.Intn(8)] ^= byte(1 + r.Intn(255))
				d = vWriter{limit: -1}
				if _, err = compression.DecompressImage(vRead(r, bad, nil), &d); err == nil {
					return fmt.Errorf("DecompressImage: a damaged image, no error")
				}
				if _, err = compression.DecompressImageToBytes(vRead(r, bad, nil)); err == nil {
					return fmt.Errorf("DecompressImageToBytes: a damaged image, no error")
				}
				// failures of the output
				for k := 0; k < 3; k++ {
					lim := r.Intn(len(img))
					if k == 0 {
						lim = len(img) - 1 - r.Intn(9)
					}
					w = vWriter{limit: lim, partly: r.Intn(2) == 0}
					if _, err = compression.CompressImage(vRead(r, data, nil), &w); !errors.Is(err, vOut) {
						return fmt.Errorf("CompressImage: the output failed after %d bytes but the error is %v", lim, err)
					}
				}
				if len(data) > 0 {
					d = vWriter{limit: r.Intn(len(data)), partly: r.Intn(2) == 0}
					if _, err = compression.DecompressImage(vRead(r, img, nil), &d); !errors.Is(err, vOut) {
						return fmt.Errorf("DecompressImage: the output failed but the error is %v", err)
					}
				}
				// a valid gzip stream that isn't RLE8
				cutRLE := vGzip(append(append([]byte{}, data...), 0, 1, 1))
				if _, ok := vDecode8(append(append([]byte{}, data...), 0, 1, 1)); !ok {
					d = vWriter{limit: -1}
					if _, err = compression.DecompressImage(vRead(r, cutRLE, nil), &d); !errors.Is(err, io.ErrUnexpectedEOF) {
						return fmt.Errorf("DecompressImage: cut RLE8 data, error %v", err)
					}
					if b, err := compression.DecompressImageToBytes(vRead(r, cutRLE, nil)); !errors.Is(err, io.ErrUnexpectedEOF) || b != nil {
						return fmt.Errorf("DecompressImageToBytes: cut RLE8 data, error %v", err)
					}
				}
				return nil
			})
		}
	})
}
