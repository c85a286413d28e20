package xmssmt

import "github.com/bwesterb/go-xmssmt/internal/vnd"

// The four-way F and PRF, each lane against the standard, for every subset of
// the lanes.
func VH_C17_lanes() {
	p := vhP()
	c := vhCtx2(p)
	n := int(p.N)
	pad := c.newScratchPad()
	key := vnd.Bytes("key", n)
	okey := append([]byte(nil), key...)
	// any earlier contents
	rounds := 1 + vnd.Param("again", 1)
	for r := 0; r < rounds; r++ {
		var ras [4]rfAddr
		var as [4]address
		var in, out, want [4][]byte
		sub := vnd.Choose("lanes", 16)
		fn := vnd.Choose("fn", 2)
		inplace := vnd.Choose("inplace", 2) == 1
		for j := 0; j < 4; j++ {
			ras[j], as[j] = vhFullAddr("addr")
			if sub>>uint(j)&1 == 0 {
				continue
			}
			out[j] = make([]byte, n)
			in[j] = vnd.Bytes("in", n)
			if inplace {
				out[j] = in[j]
			}
			if fn == 0 {
				want[j] = rfF(p, okey, ras[j], in[j])
			} else {
				want[j] = rfPRF(p, okey, ras[j].bytes())
			}
		}
		if fn == 0 {
			c.fX4Into(pad, in, key, as, out)
		} else {
			c.prfAddrX4Into(pad, as, key, out)
		}
		for j := 0; j < 4; j++ {
			if out[j] == nil {
				continue
			}
			if fn == 0 {
				vnd.Assert(vnd.Same(out[j], want[j]), "four-way F")
			} else {
				vnd.Assert(vnd.Same(out[j], want[j]), "four-way PRF")
			}
		}
		vnd.Assert(vnd.Same(key, okey), "key is not modified")
	}
	vnd.Reach("done")
}

// WOTS+ with the four-way code: key, signature and key from signature.
func VH_C17_wots() {
	p := vhP()
	c := vhCtx2(p)
	vnd.SetMerge(false)
	vnd.SetSplit(vnd.Param("split", 4))
	vnd.SetLazy(true)
	n := int(p.N)
	seed, sk := vnd.Bytes("seed", n), vnd.Bytes("sk", n)
	ra, a := vhAddr()
	pad := c.newScratchPad()
	what := vnd.Param("what", 0)
	if what == 0 {
		pk := vhFlat(rfWotsPk(p, sk, seed, ra))
		vnd.Assert(vnd.Same(c.wotsPkGen(pad, c.precomputeHashes(seed, sk), a), pk), "WOTS+ public key")
		vnd.Reach("done")
		return
	}
	// a digest in which some bits are arbitrary
	msg := vhPattern(n)
	switch vnd.Param("pat", 0) {
	case 1:
		for i := range msg {
			msg[i] = 0
		}
	case 2:
		for i := range msg {
			msg[i] = 0xff
		}
	case 3:
		for i := range msg {
			msg[i] = byte(i / 4 * 17)
		}
	}
	bits := uint(vnd.Param("bits", 4))
	pos := vnd.Param("pos", 0)
	msg[pos] = msg[pos]&^byte(1<<bits-1) | vnd.U8("digest")&byte(1<<bits-1)
	// one path per value of these bits
	for i := 0; i < 256; i++ {
		if msg[pos] == byte(i) {
			msg[pos] = byte(i)
			break
		}
	}
	omsg := append([]byte(nil), msg...)
	if what == 1 {
		want := vhFlat(rfWotsSign(p, msg, sk, seed, ra))
		vnd.Assert(vnd.Same(c.wotsSign(pad, msg, seed, sk, a), want), "WOTS+ signature")
	} else {
		sig := vnd.Bytes("sig", n*rfLen(p))
		osig := append([]byte(nil), sig...)
		want := vhFlat(rfWotsPkFromSig(p, sig, msg, seed, ra))
		vnd.Assert(vnd.Same(c.wotsPkFromSig(pad, sig, msg, c.precomputeHashes(seed, nil), a), want), "WOTS+ public key from signature")
		vnd.Assert(vnd.Same(sig, osig), "signature is not modified")
	}
	vnd.Assert(vnd.Same(msg, omsg), "digest is not modified")
	vnd.Reach("done")
}
