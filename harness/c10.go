package xmssmt

import "github.com/bwesterb/go-xmssmt/internal/vnd"

// Parameter sets used for the encodings, from small to large, with every
// index width, w, n, hash function and PRF construction.
func vhEncParams() []Params {
	return []Params{
		{SHA2, 16, 4, 2, 256, RFC},
		{SHAKE256, 32, 10, 1, 256, RFC},
		{SHA2, 24, 20, 2, 16, NIST},
		{SHAKE, 64, 12, 4, 16, RFC},
		{SHAKE, 16, 40, 8, 4, NIST},
		{SHA2, 32, 60, 3, 16, RFC},
		{SHAKE256, 24, 60, 12, 16, NIST},
		{SHA2, 64, 9, 1, 4, RFC},
		{SHAKE256, 16, 63, 9, 256, NIST},
		{SHA2, 32, 5, 5, 256, RFC},
		{SHAKE, 32, 24, 2, 16, RFC},
		{SHA2, 16, 32, 8, 256, RFC},
		{SHA2, 16, 48, 16, 256, RFC},
		{SHA2, 16, 56, 28, 256, RFC},
		{SHA2, 16, 31, 1, 256, RFC},
		// more than 65535 bytes
		{SHA2, 64, 60, 6, 4, RFC},
	}
}

func vhIdxBytes(p Params) int {
	if p.D > 1 {
		return int(p.FullHeight+7) / 8
	}
	return 4
}

func vhSigLen(p Params) int {
	lg := 2
	if p.WotsW == 16 {
		lg = 4
	} else if p.WotsW == 256 {
		lg = 8
	}
	len1 := 8 * int(p.N) / lg
	l := len1 + int(vhLen2s(uint64(len1), uint64(p.WotsW)))
	return vhIdxBytes(p) + int(p.N)*(1+int(p.D)*l+int(p.FullHeight))
}

func vhLen2s(len1, w uint64) uint64 {
	max := len1 * (w - 1)
	k, x := uint64(0), uint64(1)
	for x <= max {
		x *= w
		k++
	}
	return k
}

// Any bytes after valid parameters are a signature; it is written back as it
// was read.
func VH_C10_sig() {
	ps := vhEncParams()
	i := vnd.Param("p", -1)
	if i < 0 {
		i = vnd.Choose("p", len(ps))
	}
	p := ps[i]
	ln := 4 + vhSigLen(p)
	buf := make([]byte, 4)
	err := p.WriteInto(buf)
	vnd.Assert(err == nil, "parameters can be encoded")
	buf = append(buf, vnd.Bytes("sig", ln-4)...)
	orig := append([]byte(nil), buf...)
	var s, s2 Signature
	err = s.UnmarshalBinary(buf)
	vnd.Assert(err == nil, "a complete signature is parsed")
	vnd.Assert(vnd.Same(buf, orig), "parsing does not change the input")
	vnd.Assert(s.Context().Params() == p, "parameters of the signature")
	idx := uint64(0)
	for j := 0; j < vhIdxBytes(p); j++ {
		idx = idx<<8 | uint64(buf[4+j])
	}
	vnd.Assert(uint64(s.SeqNo()) == idx, "sequence number")
	for j := range buf {
		buf[j] ^= 0x55 // the signature has its own copy
	}
	b2, err := s.MarshalBinary()
	vnd.Assert(err == nil, "a parsed signature can be serialized")
	vnd.Assert(len(b2) == ln, "length of the encoding")
	vnd.Assert(vnd.Same(b2, orig), "serialize(parse(b)) == b")
	big := vnd.Bytes("big", ln+5)
	bo := append([]byte(nil), big...)
	err = s.WriteInto(big[2 : 2+ln])
	vnd.Assert(err == nil, "WriteInto")
	vnd.Assert(vnd.Same(big[2:2+ln], orig), "WriteInto writes the same bytes")
	vnd.Assert(vnd.Same(big[:2], bo[:2]), "WriteInto stays inside the buffer")
	vnd.Assert(vnd.Same(big[2+ln:], bo[2+ln:]), "WriteInto stays inside the buffer")
	// into a larger buffer
	err = s.WriteInto(big[1:])
	vnd.Assert(err == nil, "WriteInto a larger buffer")
	vnd.Assert(vnd.Same(big[1:1+ln], orig), "WriteInto a larger buffer writes the same bytes")
	err = s2.UnmarshalBinary(b2)
	vnd.Assert(err == nil, "second parse")
	b3, err := s2.MarshalBinary()
	vnd.Assert(err == nil, "second serialization")
	vnd.Assert(vnd.Same(b3, orig), "second round trip")
	vnd.Reach("done")
}

// A receiver that already holds another signature is overwritten completely.
func VH_C10_reuse() {
	ps := []Params{{SHA2, 16, 4, 2, 256, RFC}, {SHAKE, 24, 3, 1, 256, NIST}, {SHA2, 32, 6, 3, 256, RFC}}
	var s Signature
	var pk PublicKey
	for k := 0; k < 2; k++ {
		p := ps[vnd.Choose("p", 3)]
		buf := make([]byte, 4)
		p.WriteInto(buf)
		pb := append(append([]byte(nil), buf...), vnd.Bytes("pk", 2*int(p.N))...)
		buf = append(buf, vnd.Bytes("sig", vhSigLen(p))...)
		vnd.Assert(s.UnmarshalBinary(buf) == nil, "parse")
		vnd.Assert(pk.UnmarshalBinary(pb) == nil, "parse key")
		b, err := s.MarshalBinary()
		vnd.Assert(err == nil, "serialize")
		vnd.Assert(vnd.Same(b, buf), "reused receiver holds the new signature")
		b, err = pk.MarshalBinary()
		vnd.Assert(err == nil, "serialize key")
		vnd.Assert(vnd.Same(b, pb), "reused receiver holds the new key")
	}
}

// Public keys: binary and text.
func VH_C10_pk() {
	ps := vhEncParams()
	p := ps[vnd.Choose("p", len(ps))]
	n := int(p.N)
	buf := make([]byte, 4)
	p.WriteInto(buf)
	buf = append(buf, vnd.Bytes("pk", 2*n)...)
	orig := append([]byte(nil), buf...)
	var k PublicKey
	err := k.UnmarshalBinary(buf)
	vnd.Assert(err == nil, "a complete public key is parsed")
	vnd.Assert(k.Context().Params() == p, "parameters of the key")
	vnd.Assert(vnd.Same(buf, orig), "parsing does not change the input")
	for j := range buf {
		buf[j] ^= 0x55
	}
	b2, err := k.MarshalBinary()
	vnd.Assert(err == nil, "a parsed key can be serialized")
	vnd.Assert(len(b2) == 4+2*n, "length of the encoding")
	vnd.Assert(vnd.Same(b2, orig), "serialize(parse(b)) == b")
	big := vnd.Bytes("big", 4+2*n+5)
	bo := append([]byte(nil), big...)
	err = k.WriteInto(big[2 : 2+4+2*n])
	vnd.Assert(err == nil, "WriteInto")
	vnd.Assert(vnd.Same(big[2:2+4+2*n], orig), "WriteInto writes the same bytes")
	vnd.Assert(vnd.Same(big[:2], bo[:2]), "WriteInto stays inside the buffer")
	vnd.Assert(vnd.Same(big[6+2*n:], bo[6+2*n:]), "WriteInto stays inside the buffer")
	vnd.Reach("done")
}

// The text form is base64 (RFC 4648, with padding) of the binary form.
func VH_C10_text() {
	ps := []Params{{SHA2, 16, 4, 2, 256, RFC}, {SHAKE, 24, 3, 1, 256, NIST}, {SHAKE256, 32, 10, 1, 16, RFC}}
	p := ps[vnd.Choose("p", vnd.Param("ps", 3))]
	n := int(p.N)
	buf := make([]byte, 4)
	p.WriteInto(buf)
	for j := 0; j < 2*n; j++ {
		buf = append(buf, byte(j*41+7))
	}
	w := vnd.Param("win", 6)
	off := 4 + w*vnd.Choose("off", (2*n+w-1)/w)
	for j, b := range vnd.Bytes("pk", w) {
		if off+j < len(buf) {
			buf[off+j] = b
		}
	}
	var k, k2 PublicKey
	vnd.Assert(k.UnmarshalBinary(buf) == nil, "parse")
	t, err := k.MarshalText()
	vnd.Assert(err == nil, "text")
	vnd.Assert(len(t) == (len(buf)+2)/3*4, "length of the text")
	const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
	for i := 0; i < len(buf); i += 3 {
		var v uint32
		for j := 0; j < 3; j++ {
			v <<= 8
			if i+j < len(buf) {
				v |= uint32(buf[i+j])
			}
		}
		for j := 0; j < 4; j++ {
			if i+j > len(buf) {
				vnd.Assert(t[i/3*4+j] == '=', "padding")
				continue
			}
			vnd.Assert(t[i/3*4+j] == al[(v>>uint(18-6*j))&63], "character of the text")
		}
	}
	err = k2.UnmarshalText(t)
	vnd.Assert(err == nil, "the text is parsed")
	b2, err := k2.MarshalBinary()
	vnd.Assert(err == nil, "serialize")
	vnd.Assert(vnd.Same(b2, buf), "parse(text(k)) == k")
	vnd.Reach("done")
}
