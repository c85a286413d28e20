package xmssmt

import "github.com/bwesterb/go-xmssmt/internal/vnd"

// The smallest k with w^k > len1*(w-1), which is RFC 8391's
// floor(lg(len_1*(w-1))/lg(w)) + 1.
func vhLen2(len1, w uint64) uint64 {
	max := len1 * (w - 1)
	k, x := uint64(0), uint64(1)
	for x <= max {
		x *= w
		k++
	}
	return k
}

// Arbitrary parameters: accepted exactly if usable.
func VH_C14_accept() {
	p := vhAnyParams()
	c, err := NewContext(p)
	good := vnd.And(p.Func <= 2, p.Prf <= 1,
		vnd.Or(p.N == 16, p.N == 24, p.N == 32, p.N == 64),
		vnd.Or(p.WotsW == 4, p.WotsW == 16, p.WotsW == 256),
		p.D != 0, p.FullHeight != 0, p.FullHeight <= 63)
	if err != nil {
		vnd.Assert(c == nil, "no context with an error")
		if good {
			vnd.Assert(vnd.Or(p.FullHeight%p.D != 0, p.FullHeight/p.D > 31), "usable parameters are accepted")
		}
		vnd.Reach("refused")
		return
	}
	vnd.Reach("accepted")
	vnd.Assert(c != nil, "context without an error")
	vnd.Assert(p.Func <= 2, "unknown hash function is refused")
	vnd.Assert(p.Prf <= 1, "unknown PRF construction is refused")
	vnd.Assert(vnd.Or(p.N == 16, p.N == 24, p.N == 32, p.N == 64), "unsupported n is refused")
	vnd.Assert(vnd.Or(p.WotsW == 4, p.WotsW == 16, p.WotsW == 256), "unsupported w is refused")
	vnd.Assert(p.D != 0, "zero layers are refused")
	vnd.Assert(p.FullHeight <= 63, "heights beyond a sequence number are refused")
	vnd.Assert(p.FullHeight%p.D == 0, "layers divide the height")
	vnd.Assert(vnd.Or(p.D == 1, p.FullHeight != 0), "XMSSMT trees have a height")
	vnd.Assert(vnd.Or(p.D > 1, p.FullHeight <= 32), "the height fits XMSS's index")
	vnd.Assert(c.Params() == p, "the context has the parameters")
	vnd.Assert(c.MT() == (p.D > 1), "family")
}

// The sizes for every usable combination.
func VH_C14_sizes() {
	ns := []uint32{16, 24, 32, 64}
	ws := []uint16{4, 16, 256}
	var p Params
	p.Func = HashFunc(vnd.U8("func"))
	p.Prf = PrfConstruction(vnd.U8("prf"))
	p.N = ns[vnd.Choose("n", 4)]
	p.WotsW = ws[vnd.Choose("w", 3)]
	h := vnd.U32("h")
	vnd.Assume(h < 70)
	p.D = uint32(vnd.Choose("d", vnd.Param("dmax", 64)))
	p.FullHeight = h
	c, err := NewContext(p)
	if err != nil {
		return
	}
	vnd.Reach("accepted")
	lg := uint64(2)
	if p.WotsW == 16 {
		lg = 4
	} else if p.WotsW == 256 {
		lg = 8
	}
	n := uint64(p.N)
	H := uint64(p.FullHeight)
	D := uint64(p.D)
	len1 := (8*n + lg - 1) / lg
	len2 := vhLen2(len1, uint64(p.WotsW))
	th := H / D
	idx := uint64(4)
	if D > 1 {
		idx = (H + 7) / 8
	}
	vnd.Assert(uint64(p.WotsLogW()) == lg, "log w")
	vnd.Assert(uint64(p.WotsLen1()) == len1, "len_1")
	vnd.Assert(uint64(p.WotsLen2()) == len2, "len_2")
	vnd.Assert(uint64(p.WotsLen()) == len1+len2, "len")
	vnd.Assert(uint64(c.wotsLen) == len1+len2, "len of the context")
	vnd.Assert(uint64(p.WotsSignatureSize()) == n*(len1+len2), "WOTS+ signature size")
	vnd.Assert(uint64(c.wotsSigBytes) == n*(len1+len2), "WOTS+ signature size of the context")
	vnd.Assert(uint64(c.SignatureSize()) == idx+n+(H+D*(len1+len2))*n, "signature size")
	vnd.Assert(uint64(p.BareSubTreeSize()) == ((2<<th)-1)*n, "subtree size")
	vnd.Assert(uint64(p.CachedSubTreeSize()) == ((2<<th)-1)*n+n*(len1+len2)+8, "cached subtree size")
	vnd.Assert(uint64(p.PrivateKeySize()) == 3*n, "private key size")
	vnd.Assert(p.MaxSignatureSeqNo() == (1<<H)-1, "number of signatures")
}
