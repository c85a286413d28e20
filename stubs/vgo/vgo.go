// Package vgo contains models of standard library functions the engine does
// not interpret directly (assembly, reflection, formatting).
package vgo

import (
	"encoding/binary"
	"errors"
	"io"
	"strconv"

	"github.com/bwesterb/go-xmssmt/internal/vnd"
)

func BinaryRead(r io.Reader, order binary.ByteOrder, data interface{}) error {
	n := vnd.BinSize(data)
	if n < 0 {
		return errors.New("binary.Read: invalid type")
	}
	bs := make([]byte, n)
	if _, err := io.ReadFull(r, bs); err != nil {
		return err
	}
	vnd.BinDecode(data, vnd.IsBigEndian(order), bs)
	return nil
}

func BinaryWrite(w io.Writer, order binary.ByteOrder, data interface{}) error {
	n := vnd.BinSize(data)
	if n < 0 {
		return errors.New("binary.Write: invalid type")
	}
	_, err := w.Write(vnd.BinEncode(data, vnd.IsBigEndian(order)))
	return err
}

func BinarySize(v interface{}) int { return vnd.BinSize(v) }

// SortSlice sorts by insertion.
func SortSlice(x interface{}, less func(i, j int) bool) {
	n := vnd.SliceLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			vnd.SliceSwap(x, j, j-1)
		}
	}
}

func ConstantTimeCompare(a, b []byte) int {
	if len(a) != len(b) {
		return 0
	}
	return vnd.IteInt(vnd.Same(a, b), 1, 0)
}

func BytesEqual(a, b []byte) bool { return vnd.Same(a, b) }

func XorBytes(dst, a, b []byte) int {
	n := len(dst)
	if len(a) < n {
		n = len(a)
	}
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		dst[i] = a[i] ^ b[i]
	}
	return n
}

// XorBytes8 and friends exist in xorsimd for fixed sizes.
func XorEncode(dst []byte, src [][]byte) int {
	n := len(dst)
	for i := range src {
		if len(src[i]) < n {
			n = len(src[i])
		}
	}
	if n == 0 || len(src) == 0 {
		return 0
	}
	for i := 0; i < n; i++ {
		var x byte
		for j := range src {
			x ^= src[j][i]
		}
		dst[i] = x
	}
	return n
}

func IndexByteString(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func IndexByte(s []byte, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func CountString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

func Count(s []byte, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

func Compare(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] < b[i] {
			return -1
		}
		if a[i] > b[i] {
			return 1
		}
	}
	if len(a) < len(b) {
		return -1
	}
	if len(a) > len(b) {
		return 1
	}
	return 0
}

func StringsIndex(s, sub string) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}

func StringsContains(s, sub string) bool { return StringsIndex(s, sub) >= 0 }

func StringsCount(s, sub string) int {
	if len(sub) == 0 {
		return len(s) + 1
	}
	n := 0
	for i := 0; i+len(sub) <= len(s); {
		if s[i:i+len(sub)] == sub {
			n++
			i += len(sub)
		} else {
			i++
		}
	}
	return n
}

// Atoi is strconv.Atoi for inputs of at most 18 characters.
func Atoi(s string) (int, error) {
	if len(s) > 18 {
		return 0, &strconv.NumError{"Atoi", s, strconv.ErrRange}
	}
	i := 0
	neg := false
	if len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		i++
	}
	if i == len(s) {
		return 0, &strconv.NumError{"Atoi", s, strconv.ErrSyntax}
	}
	n := 0
	for ; i < len(s); i++ {
		c := s[i] - '0'
		if c > 9 {
			return 0, &strconv.NumError{"Atoi", s, strconv.ErrSyntax}
		}
		n = n*10 + int(c)
	}
	if neg {
		n = -n
	}
	return n, nil
}

// decimal formats an integer; the number of digits is decided by branching.
func decimal(v uint64, signed bool) string {
	neg := false
	if signed && int64(v) < 0 {
		neg = true
		v = -v
	}
	var b [20]byte
	i := 20
	for {
		i--
		b[i] = byte('0' + v%10)
		v /= 10
		if v == 0 {
			break
		}
	}
	if neg {
		return "-" + string(b[i:])
	}
	return string(b[i:])
}

func Sprintf(format string, args ...interface{}) string {
	out := ""
	k := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			out += format[i : i+1]
			continue
		}
		i++
		if i < len(format) && format[i] == '%' {
			out += "%"
			continue
		}
		if i >= len(format) || k >= len(args) {
			return out + "<?>"
		}
		a := args[k]
		k++
		switch format[i] {
		case 'd', 'v', 's':
			if s, ok := vnd.AsString(a); ok {
				out += s
				continue
			}
			if st, ok := a.(interface{ String() string }); ok {
				out += st.String()
				continue
			}
			if v, sg, ok := vnd.AsInt(a); ok {
				out += decimal(v, sg)
				continue
			}
			if e, ok := a.(error); ok {
				out += e.Error()
				continue
			}
			out += "<?>"
		default:
			out += "<?>"
		}
	}
	return out
}

type fmtError struct {
	msg string
	err error
}

func (e *fmtError) Error() string { return e.msg }
func (e *fmtError) Unwrap() error { return e.err }

func Errorf(format string, args ...interface{}) error {
	e := &fmtError{msg: format}
	for _, a := range args {
		if x, ok := a.(error); ok && e.err == nil {
			e.err = x
		}
	}
	return e
}

// ErrorsIs is errors.Is for comparable errors.
func ErrorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return target == nil
}
