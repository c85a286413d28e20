package xmssmt

import "github.com/bwesterb/go-xmssmt/internal/vnd"

func vhP() Params {
	return Params{HashFunc(vnd.Param("func", 0)), uint32(vnd.Param("n", 16)), uint32(vnd.Param("h", 2)), uint32(vnd.Param("d", 1)),
		uint16(vnd.Param("w", 4)), PrfConstruction(vnd.Param("prf", 0))}
}

func vhAddr() (a rfAddr, b address) {
	a = rfAddr{layer: vnd.U32("layer"), tree: vnd.U64("tree"), a: vnd.U32("ots")}
	b = address{a.layer, uint32(a.tree >> 32), uint32(a.tree), 0, a.a}
	return
}

func vhFlat(x [][]byte) []byte {
	var r []byte
	for _, y := range x {
		r = append(r, y...)
	}
	return r
}

// WOTS+ public key from an arbitrary signature and digest.
func VH_C06_wotsPkFromSig() {
	p := vhP()
	c := vhCtx2(p)
	vnd.SetMerge(true)
	vnd.SetSplit(vnd.Param("split", 4))
	vnd.SetLazy(vnd.Param("lazy", 1) == 1)
	n := int(p.N)
	seed := vnd.Bytes("seed", n)
	msg := make([]byte, n)
	sym := vnd.Param("sym", n)
	copy(msg[:n-sym], vhPattern(n-sym))
	copy(msg[n-sym:], vnd.Bytes("msg", sym))
	if bits := vnd.Param("bits", 8); bits < 8 {
		// only the last bits of the bytes are arbitrary
		for i := n - sym; i < n; i++ {
			if vnd.Param("cases", 0) == 1 {
				// one case per value
				vnd.SetMerge(false)
				msg[i] = byte(vnd.Choose("low", 1<<uint(bits)))
				vnd.SetMerge(true)
			}
			msg[i] = msg[i]&(1<<uint(bits)-1) | byte(vnd.Param("base", 0))
		}
	}
	sig := vnd.Bytes("sig", n*rfLen(p))
	ra, a := vhAddr()
	pk := c.wotsPkFromSig(c.newScratchPad(), sig, msg, c.precomputeHashes(seed, nil), a)
	want := rfWotsPkFromSig(p, sig, msg, seed, ra)
	vnd.Assert(len(pk) == n*len(want), "length of the public key")
	for i := range want {
		vnd.Assert(vnd.Same(pk[i*n:i*n+n], want[i]), "WOTS+ public key from signature")
	}
	vnd.Reach("done")
}

func vhPattern(n int) []byte {
	r := make([]byte, n)
	for i := range r {
		r[i] = byte(i*73 + 0x1b)
	}
	return r
}

func vhCtx2(p Params) *Context {
	c, err := NewContext(p)
	vnd.Assert(err == nil, "context")
	c.Threads = 1
	return c
}
