package xmssmt

import (
	"encoding/base64"

	"github.com/bwesterb/go-xmssmt/internal/vnd"
)

// Arbitrary bytes as a public key.
func VH_C08_pk() {
	ls := []int{0, 1, 2, 3, 4, 5, 20, 35, 36, 37, 51, 52, 53, 67, 68, 69, 131, 132, 133}
	n := vnd.Param("len", -1)
	if n < 0 {
		n = ls[vnd.Choose("len", len(ls))]
	}
	buf := vnd.Bytes("buf", n)
	var k PublicKey
	err := k.UnmarshalBinary(buf)
	if err != nil {
		vnd.Reach("refused")
		return
	}
	vnd.Reach("accepted")
	vnd.Assert(n >= 4, "a key has a header")
	N := int(buf[1]&15)*8 + 8
	vnd.Assert(n >= 4+2*N, "a short key is refused")
	vnd.Assert(vnd.Or(N == 16, N == 24, N == 32, N == 64), "unsupported n is refused")
	vnd.Assert(buf[2]>>6 < 3, "unsupported hash function is refused")
	vnd.Assert(vnd.And(buf[0] == 0xea, buf[1]>>5 == 0), "magic and version are checked")
	b, err := k.MarshalBinary()
	vnd.Assert(err == nil, "an accepted key can be serialized")
	vnd.Assert(vnd.Same(b, buf[:4+2*N]), "an accepted key is the one given")
}

// Arbitrary bytes as a signature.
func VH_C08_sig() {
	ls := []int{0, 1, 2, 3, 4, 5, 8, 40, 327, 328, 343, 344}
	n := vnd.Param("len", -1)
	if n < 0 {
		n = ls[vnd.Choose("len", len(ls))]
	}
	buf := vnd.Bytes("buf", n)
	var s Signature
	err := s.UnmarshalBinary(buf)
	if err != nil {
		vnd.Reach("refused")
		return
	}
	vnd.Reach("accepted")
	p := s.Context().Params()
	vnd.Assert(n >= 4+vhSigLen(p), "a short signature is refused")
	b, err := s.MarshalBinary()
	vnd.Assert(err == nil, "an accepted signature can be serialized")
	vnd.Assert(vnd.Same(b, buf[:4+vhSigLen(p)]), "an accepted signature is the one given")
}

// Every length below the complete one, for fixed parameters and arbitrary
// contents.
func VH_C08_short() {
	ps := vhEncParams()
	p := ps[vnd.Choose("p", len(ps))]
	buf := make([]byte, 4)
	p.WriteInto(buf)
	full := 4 + vhSigLen(p)
	// every length in the last stretch, some before
	n := full - vnd.Choose("miss", 80)
	if k := vnd.Choose("part", 8); k > 0 && n > 16 {
		n = n*k/8 + 3
	}
	buf = append(buf, vnd.Bytes("=sig", full-4)...)
	var s Signature
	err := s.UnmarshalBinary(buf[:n:n])
	vnd.Assert((err == nil) == (n == full), "accepted exactly if complete")
}

func VH_C08_text() {
	n := vnd.Choose("len", vnd.Param("max", 9))
	t := vnd.Bytes("text", n)
	var k PublicKey
	err := k.UnmarshalText(t)
	vnd.Assert(err != nil, "a text that is too short is refused")
}

// Well-formed base64 of arbitrary bytes.
func VH_C08_text2() {
	n := []int{0, 3, 4, 5, 34, 35, 36, 37, 51, 52}[vnd.Choose("len", 10)]
	b := make([]byte, n)
	for j := range b {
		b[j] = byte(j*41 + 7)
	}
	copy(b, []byte{0xea, 1, 0x40, 0x81})
	if n >= 4 {
		b[vnd.Choose("at", 4)] = vnd.U8("head")
	}
	var k PublicKey
	err := k.UnmarshalText([]byte(base64.StdEncoding.EncodeToString(b)))
	if err == nil {
		vnd.Assert(n >= 36, "a text that is too short is refused")
		vnd.Reach("accepted")
	}
}

// Verify on arbitrary strings that are too short to be accepted, next to valid
// ones.
func VH_C08_verify() {
	ls := []int{0, 3, 4, 5, 327}
	n := ls[vnd.Choose("slen", 5)]
	m := ls[vnd.Choose("plen", 4)]
	sig := vnd.Bytes("sig", n)
	pk := vnd.Bytes("pk", m)
	ok, err := Verify(pk, sig, vnd.Bytes("msg", 2))
	vnd.Assert(!ok, "a signature that cannot be parsed is not accepted")
	vnd.Assert(err != nil, "a signature that cannot be parsed is an error")
}
