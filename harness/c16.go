package xmssmt

import (
	"bytes"

	"github.com/bwesterb/go-xmssmt/internal/vnd"
)

// A full address with every word arbitrary.
func vhFullAddr(l string) (r rfAddr, a address) {
	r = rfAddr{layer: vnd.U32(l + ".layer"), tree: vnd.U64(l + ".tree"), typ: vnd.U32(l + ".type"),
		a: vnd.U32(l + ".a"), b: vnd.U32(l + ".b"), c: vnd.U32(l + ".c"), km: vnd.U32(l + ".km")}
	a = address{r.layer, uint32(r.tree >> 32), uint32(r.tree), r.typ, r.a, r.b, r.c, r.km}
	return
}

// F, H, PRF, H_msg and PRF_keygen, each after some other computation on the
// same scratch pad.
func VH_C16_hashes() {
	p := vhP()
	c := vhCtx2(p)
	n := int(p.N)
	pad := c.newScratchPad()
	seed, sk := vnd.Bytes("seed", n), vnd.Bytes("sk", n)
	ph := c.precomputeHashes(seed, sk)
	oseed, osk := append([]byte(nil), seed...), append([]byte(nil), sk...)
	for _, k := range []int{vnd.Choose("before", 5), vnd.Choose("which", 5)} {
		ra, a := vhFullAddr("addr")
		switch k {
		case 0:
			in := vnd.Bytes("in", n)
			oin := append([]byte(nil), in...)
			out := make([]byte, n)
			c.fInto(pad, in, ph, a, out)
			vnd.Assert(vnd.Same(out, rfF(p, oseed, ra, oin)), "F")
			vnd.Assert(vnd.Same(c.f(oin, oseed, a), out), "f")
			vnd.Assert(vnd.Same(in, oin), "F leaves its input alone")
			// in place
			c.fInto(pad, in, ph, a, in)
			vnd.Assert(vnd.Same(in, out), "F in place")
		case 1:
			l, r := vnd.Bytes("left", n), vnd.Bytes("right", n)
			want := rfRandHash(p, l, r, oseed, ra)
			vnd.Assert(vnd.Same(c.h(l, r, oseed, a), want), "H")
		case 2:
			key := vnd.Bytes("key", n)
			vnd.Assert(vnd.Same(c.prfAddr(pad, a, key), rfPRF(p, key, ra.bytes())), "PRF of an address")
		case 3:
			r, root, idx := vnd.Bytes("R", n), vnd.Bytes("root", n), vnd.U64("idx")
			l := []int{0, 1, 5, 31, 32, 33, 64, 135, 136, 137, 168, 200}[vnd.Choose("len", vnd.Param("lens", 12))]
			m := vnd.Bytes("msg", l)
			om := append([]byte(nil), m...)
			h, err := c.hashMessage(pad, bytes.NewReader(m), r, root, idx)
			vnd.Assert(err == nil, "H_msg without error")
			vnd.Assert(vnd.Same(h, rfHmsg(p, r, root, idx, om)), "H_msg")
			vnd.Assert(vnd.Same(m, om), "H_msg leaves the message alone")
		case 4:
			rw := rfAddr{layer: ra.layer, tree: ra.tree, a: ra.a}
			wa := address{a[0], a[1], a[2], 0, a[4]}
			// digits 0 reveal the secret values themselves
			sig := c.wotsSign(pad, make([]byte, n), seed, sk, wa)
			l1 := 8 * n / int(p.WotsLogW())
			for i := 0; i < l1; i++ {
				vnd.Assert(vnd.Same(sig[i*n:i*n+n], rfWotsSk(p, osk, oseed, rw, i)), "PRF_keygen")
			}
		}
	}
	vnd.Assert(vnd.Same(seed, oseed), "public seed is not modified")
	vnd.Assert(vnd.Same(sk, osk), "secret seed is not modified")
	vnd.Reach("done")
}
