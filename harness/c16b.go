package xmssmt

import "github.com/bwesterb/go-xmssmt/internal/vnd"

// H in place and PRF of an index, which have no other entry point.
func VH_C16_inner() {
	p := vhP()
	c := vhCtx2(p)
	n := int(p.N)
	pad := c.newScratchPad()
	seed, sk := vnd.Bytes("seed", n), vnd.Bytes("sk", n)
	ph := c.precomputeHashes(seed, sk)
	ra, a := vhFullAddr("addr")
	for k := 0; k < 2; k++ {
		l, r := vnd.Bytes("left", n), vnd.Bytes("right", n)
		want := rfRandHash(p, l, r, seed, ra)
		out := append([]byte(nil), l...)
		if vnd.Choose("side", 2) == 1 {
			c.hInto(pad, out, r, ph, a, out)
		} else {
			out = append([]byte(nil), r...)
			c.hInto(pad, l, out, ph, a, out)
		}
		vnd.Assert(vnd.Same(out, want), "H in place")
		key, i := vnd.Bytes("key", n), vnd.U64("i")
		vnd.Assert(vnd.Same(c.prfUint64(pad, i, key), rfPRF(p, key, rfToByte(i, 32))), "PRF of an index")
	}
	vnd.Reach("done")
}
