package xmssmt

import "github.com/bwesterb/go-xmssmt/internal/vnd"

func vhAnyParams() Params {
	return Params{
		Func:       HashFunc(vnd.U8("func")),
		N:          vnd.U32("n"),
		FullHeight: vnd.U32("h"),
		D:          vnd.U32("d"),
		WotsW:      vnd.U16("w"),
		Prf:        PrfConstruction(vnd.U8("prf")),
	}
}

// Decoding any four bytes: rejected or re-encoded to the same bytes, with the
// documented layout.
func VH_C11_decode() {
	buf := vnd.Bytes("buf", 4)
	orig := append([]byte(nil), buf...)
	var p Params
	// stale contents must not survive
	p = vhAnyParams()
	err := p.UnmarshalBinary(buf)
	vnd.Assert(vnd.Same(buf, orig), "input unchanged")
	if err != nil {
		vnd.Reach("rejected")
		return
	}
	vnd.Reach("accepted")
	vnd.Assert(buf[0] == 0xea, "magic checked")
	vnd.Assert(buf[1]>>5 == 0, "version checked")
	vnd.Assert(uint8(p.Prf) == (buf[1]>>4)&1, "prf bit")
	vnd.Assert(p.N == (uint32(buf[1]&0xf)+1)*8, "n field")
	vnd.Assert(uint8(p.Func) == buf[2]>>6, "hash field")
	wc := (buf[2] >> 4) & 3
	vnd.Assert(vnd.Or(vnd.And(wc == 0, p.WotsW == 4), vnd.And(wc == 1, p.WotsW == 16), vnd.And(wc == 2, p.WotsW == 256)), "w field")
	vnd.Assert(p.FullHeight == uint32(buf[2]&0xf)<<2|uint32(buf[3]>>6), "height field")
	vnd.Assert(p.D == uint32(buf[3]&0x3f), "d field")
	b2, err := p.MarshalBinary()
	vnd.Assert(err == nil, "decoded parameters can be encoded")
	vnd.Assert(len(b2) == 4, "encoding has four bytes")
	vnd.Assert(vnd.Same(b2, orig), "encode(decode(b)) == b")
}

// Encoding any parameters: refused, or decoded to the same parameters.
func VH_C11_encode() {
	p := vhAnyParams()
	q := p
	buf, err := p.MarshalBinary()
	vnd.Assert(p == q, "encoding leaves the parameters alone")
	big := vnd.Bytes("big", 7)
	b0 := append([]byte(nil), big...)
	err2 := p.WriteInto(big[1:6])
	vnd.Assert((err == nil) == (err2 == nil), "WriteInto and MarshalBinary agree")
	vnd.Assert(vnd.And(big[0] == b0[0], big[5] == b0[5], big[6] == b0[6]), "WriteInto writes four bytes only")
	if err != nil {
		vnd.Reach("refused")
		// everything NewContext can use must be encodable
		vnd.Assert(!vnd.And(p.Func <= 2, p.Prf <= 1, vnd.Or(p.N == 16, p.N == 24, p.N == 32, p.N == 64),
			vnd.Or(p.WotsW == 4, p.WotsW == 16, p.WotsW == 256), p.FullHeight <= 60, p.D >= 1, p.D <= 60),
			"supported parameters are encodable")
		return
	}
	vnd.Reach("encoded")
	vnd.Assert(len(buf) == 4, "encoding has four bytes")
	vnd.Assert(vnd.Same(big[1:5], buf), "WriteInto writes what MarshalBinary returns")
	var r Params
	err = r.UnmarshalBinary(buf)
	vnd.Assert(err == nil, "encoded parameters can be decoded")
	vnd.Assert(r == p, "decode(encode(p)) == p")
}

// Inputs of any other length are refused.
func VH_C11_length() {
	n := vnd.Choose("len", 10)
	buf := vnd.Bytes("buf", n)
	var p Params
	err := p.UnmarshalBinary(buf)
	if n != 4 {
		vnd.Assert(err != nil, "wrong length refused")
		vnd.Reach("refused")
	}
}
