package xmssmt

import "github.com/bwesterb/go-xmssmt/internal/vnd"

// The chain lengths RFC 8391 defines for a digest: base-w digits, then the
// base-w digits of the checksum shifted left to a byte boundary.
func vhLengths(p Params, msg []byte) []uint8 {
	lg := uint(2)
	if p.WotsW == 16 {
		lg = 4
	} else if p.WotsW == 256 {
		lg = 8
	}
	w := uint32(p.WotsW)
	len1 := int(8*p.N) / int(lg)
	len2 := int(vhLen2s(uint64(len1), uint64(w)))
	var ret []uint8
	csum := uint32(0)
	for i := 0; i < len1; i++ {
		bit := uint(i) * lg
		d := (msg[bit/8] >> (8 - lg - bit%8)) & uint8(w-1)
		ret = append(ret, d)
		csum += w - 1 - uint32(d)
	}
	// csum in len2 digits, most significant first
	for i := len2 - 1; i >= 0; i-- {
		ret = append(ret, uint8((csum>>(uint(i)*lg))&(w-1)))
	}
	return ret
}

func vhCtx(p Params) *Context {
	c, err := NewContext(p)
	vnd.Assert(err == nil, "context")
	c.Threads = 1
	return c
}

func vhWotsParams() (p Params) {
	ns := []uint32{16, 24, 32, 64}
	ws := []uint16{4, 16, 256}
	p = Params{SHA2, ns[vnd.Param("n", 0)], 4, 2, ws[vnd.Param("w", 0)], RFC}
	return
}

// The chain lengths of every digest.
func VH_C15_lengths() {
	p := vhWotsParams()
	c := vhCtx(p)
	msg := vnd.Bytes("msg", int(p.N))
	orig := append([]byte(nil), msg...)
	got := c.wotsChainLengths(msg)
	want := vhLengths(p, orig)
	vnd.Assert(vnd.Same(msg, orig), "the digest is not changed")
	vnd.Assert(len(got) == len(want), "number of chains")
	for i := range want {
		vnd.Assert(got[i] == want[i], "chain length")
	}
}

// Two different digests that agree outside a few bytes: some chain is shorter
// for the first one, on the real code directly.
func VH_C15_dominate() {
	p := vhWotsParams()
	c := vhCtx(p)
	n := int(p.N)
	a := make([]byte, n)
	pat := vnd.Choose("pattern", 3)
	for i := range a {
		a[i] = []byte{0, 0xff, byte(i*73 + 5)}[pat]
	}
	b := append([]byte(nil), a...)
	for k := 0; k < vnd.Param("bytes", 2); k++ {
		at := []int{0, n - 1, n / 2}[k]
		a[at] = vnd.U8("a")
		b[at] = vnd.U8("b")
	}
	vnd.Assume(!vnd.Same(a, b))
	la := c.wotsChainLengths(a)
	lb := c.wotsChainLengths(b)
	vnd.Assert(len(la) == len(lb), "number of chains")
	dom := true
	for i := range la {
		dom = vnd.And(dom, la[i] >= lb[i])
	}
	vnd.Assert(!dom, "no digest dominates another")
}

// The induction that extends this to all digests, given that the chain lengths
// are those of vhLengths (VH_C15_lengths).  (1) Checksums of the prefixes: if
// every digit of the first digest is at least that of the second then either
// all were equal and so are the sums, or the first checksum is smaller.
func VH_C15_step() {
	p := vhWotsParams()
	w := uint32(p.WotsW)
	max := uint32(8*p.N) / 2 * (w - 1)
	sa, sb := vnd.U32("sa"), vnd.U32("sb")
	eq := vnd.Bool("equal")
	vnd.Assume(vnd.And(sa <= max, sb <= max, vnd.Or(vnd.And(eq, sa == sb), sa < sb)))
	x, y := vnd.U32("x"), vnd.U32("y")
	vnd.Assume(vnd.And(x < w, y < w, x >= y))
	sa2, sb2 := sa+(w-1-x), sb+(w-1-y)
	eq2 := vnd.And(eq, x == y)
	vnd.Assert(vnd.Or(vnd.And(eq2, sa2 == sb2), sa2 < sb2), "checksums of the prefixes")
}

// (2) A smaller checksum has a smaller digit.
func VH_C15_checksum() {
	p := vhWotsParams()
	w := uint32(p.WotsW)
	lg := uint(p.WotsLogW())
	len1 := uint32(8*p.N) / uint32(lg)
	len2 := vhLen2s(uint64(len1), uint64(w))
	sa, sb := vnd.U32("sa"), vnd.U32("sb")
	vnd.Assume(vnd.And(sb <= len1*(w-1), sa < sb))
	some := false
	for i := uint(0); i < uint(len2); i++ {
		some = vnd.Or(some, (sa>>(i*lg))&(w-1) < (sb>>(i*lg))&(w-1))
	}
	vnd.Assert(some, "a smaller checksum has a smaller digit")
}
