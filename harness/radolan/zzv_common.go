package radolan

import (
	"bytes"
	"io"
	"math"
)

// zzvPad formats n >= 0 right-aligned in w characters.
func zzvPad(n, w int) string {
	b := make([]byte, w)
	for i := w - 1; i >= 0; i-- {
		if n == 0 && i < w-1 {
			b[i] = ' '
			continue
		}
		b[i] = byte('0' + n%10)
		n /= 10
	}
	return string(b)
}

const zzvStamp = "260950100000616" // DDHHMM WWWWW MMYY

// zzvStream builds a composite stream whose declared length is the header
// plus dataLen+delta bytes.
func zzvStream(prod, stamp, fields string, data []byte, delta int) []byte {
	n := len(prod) + len(stamp) + 2 + 7 + len(fields) + 1
	head := prod + stamp + "BY" + zzvPad(n+len(data)+delta, 7) + fields + "\x03"
	if len(head) != n {
		panic("zzvStream")
	}
	buf := make([]byte, 0, n+len(data))
	buf = append(buf, head...)
	return append(buf, data...)
}

func zzvParse(buf []byte) (*Composite, error) {
	return NewComposite(bytes.NewReader(buf))
}

// zzvGP is the dimension field for a composite of rows x columns.
func zzvGP(rows, cols int) string { return "GP" + zzvPad(rows, 4) + "x" + zzvPad(cols, 4) }

// zzvPR is the precision field.
func zzvPR(p int) string {
	s := "+"
	if p < 0 {
		s = "-"
		p = -p
	}
	return "PR E" + s + string([]byte{byte('0' + p/10), byte('0' + p%10)})
}

func zzvBytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = zzv_Byte(name)
	}
	return b
}

// zzvClose32 reports whether got is want up to float32 rounding of numbers as
// large as scale. The first comparison settles it without arithmetic when the
// code computes exactly the reference expression.
func zzvClose32(got, want float32, scale float64) bool {
	if got == want {
		return true
	}
	g, w := float64(got), float64(want)
	return math.Abs(g-w) <= 1e-6*(math.Abs(w)+scale)
}

// zzvOK accepts success and the unknown-unit error.
func zzvOK(c *Composite, err error) bool {
	return c != nil && (err == nil || err == ErrUnknownUnit)
}

var _ io.Reader
