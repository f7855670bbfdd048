package compression

import "io"

// Client code that only exists for verification.

// verifAll255 proves by induction what a decoder does with a block of 255s.
func verifAll255(k, b, i, e int) {
	for m := i; m < e; m++ {
	}
}

// What is compressed into w is decompressed from r, if r reads what w wrote.
func verifRLE8RoundTrip(input io.Reader, w io.Writer, r io.Reader, output io.Writer) (int64, error, int64, error) {
	n1, err1 := CompressRLE8(input, w)
	if err1 != nil {
		return n1, err1, 0, nil
	}
	n2, err2 := DecompressRLE8(r, output)
	return n1, nil, n2, err2
}

func verifRLERecursiveRoundTrip(input io.Reader, w io.Writer, r io.Reader, output io.Writer) (int64, error, int64, error) {
	n1, err1 := CompressRLERecursive(input, w)
	if err1 != nil {
		return n1, err1, 0, nil
	}
	n2, err2 := DecompressRLERecursive(r, output)
	return n1, nil, n2, err2
}
