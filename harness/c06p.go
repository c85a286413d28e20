package xmssmt

import "github.com/bwesterb/go-xmssmt/internal/vnd"

// A signature as RFC 8391 defines it in a tree of which only the path to one
// leaf was computed: the nodes beside the path are arbitrary.  So it costs
// nothing to have trees of any height.
func rfPathSign(p Params, skSeed, seed, r, auth []byte, idx uint64, msg []byte) (sig, root []byte) {
	n := int(p.N)
	th := int(p.FullHeight / p.D)
	tree := idx
	var addrs []rfAddr
	var tops [][]byte
	for layer := uint32(0); layer < p.D; layer++ {
		leaf := uint32(tree & (1<<uint(th) - 1))
		tree >>= uint(th)
		a := rfAddr{layer: layer, tree: tree, a: leaf}
		addrs = append(addrs, a)
		pk := rfWotsPk(p, skSeed, seed, a)
		a.typ = 1
		node := rfLTree(p, pk, seed, a)
		for k := 0; k < th; k++ {
			sib := auth[(int(layer)*th+k)*n : (int(layer)*th+k+1)*n]
			na := rfAddr{layer: layer, tree: tree, typ: 2, b: uint32(k), c: leaf >> uint(k+1)}
			if (leaf>>uint(k))&1 == 0 {
				node = rfRandHash(p, node, sib, seed, na)
			} else {
				node = rfRandHash(p, sib, node, seed, na)
			}
		}
		tops = append(tops, node)
	}
	root = tops[p.D-1]
	m := rfHmsg(p, r, root, idx, msg)
	sig = rfCat(rfToByte(idx, rfIdxBytes(p)), r)
	for layer := range addrs {
		for _, c := range rfWotsSign(p, m, skSeed, seed, addrs[layer]) {
			sig = append(sig, c...)
		}
		sig = append(sig, auth[layer*th*n:(layer+1)*th*n]...)
		m = tops[layer]
	}
	return
}

// Such signatures are accepted; those for a node of another path are not.
func VH_C06_path() {
	p := vhP()
	vhSetup()
	n := int(p.N)
	hdr := vhHeader(p)
	skSeed, seed, r := vnd.Bytes("skSeed", n), vnd.Bytes("pubSeed", n), vnd.Bytes("r", n)
	auth := vnd.Bytes("auth", n*int(p.FullHeight))
	msg := vnd.Bytes("msg", vnd.Param("mlen", 2))
	idx := vhIdx(p, 1<<uint(p.FullHeight))
	sig, root := rfPathSign(p, skSeed, seed, r, auth, idx, msg)
	ok, err := Verify(rfCat(hdr, root, seed), rfCat(hdr, sig), msg)
	vnd.Assert(ok, "a signature of RFC 8391 is accepted")
	vnd.Assert(err == nil, "a signature of RFC 8391 is accepted without error")
	vnd.Reach("accepted")
	if vnd.Param("change", 0) == 0 {
		return
	}
	// one byte of one part is another
	vnd.SetMerge(false)
	ib, th, wl := rfIdxBytes(p), int(p.FullHeight/p.D), rfLen(p)*n
	layer := vnd.Choose("layer", int(p.D))
	at := ib + n + layer*(wl+th*n)
	part := vnd.Choose("part", 10)
	vnd.SetMerge(true)
	d := vnd.U8("change")
	vnd.Assume(d != 0)
	sig = append([]byte(nil), sig...)
	root = append([]byte(nil), root...)
	seed = append([]byte(nil), seed...)
	msg = append([]byte(nil), msg...)
	if layer > 0 && (part < 2 || part > 6) {
		return
	}
	switch part {
	case 0: // index (a number in the tree)
		sig[ib-1] ^= 1
	case 1: // randomizer
		sig[ib+n-1] ^= d
	case 2: // WOTS+ signature: first, some and last chain
		sig[at] ^= d
	case 3:
		sig[at+wl/2] ^= d
	case 4:
		sig[at+wl-1] ^= d
	case 5: // authentication path
		sig[at+wl] ^= d
	case 6:
		sig[at+wl+th*n-1] ^= d
	case 7:
		msg[len(msg)-1] ^= d
	case 8:
		root[n-1] ^= d
	case 9:
		seed[n-1] ^= d
	}
	want := vnd.Same(rfVerifyRoot(p, sig, root, seed, msg), root)
	ok, err = Verify(rfCat(hdr, root, seed), rfCat(hdr, sig), msg)
	vnd.Assert(ok == want, "a changed signature is accepted exactly as in RFC 8391")
	vnd.Assert((err == nil) == want, "an error unless accepted")
	vnd.Reach("changed")
}

// The root of any subtree, wherever it is.
func VH_C07_subtree() {
	p := vhP()
	vhSetup()
	n := int(p.N)
	skSeed, seed := vnd.Bytes("skSeed", n), vnd.Bytes("pubSeed", n)
	layer, tree := vnd.U32("layer"), vnd.U64("tree")
	c := vhCtx2(p)
	mt := c.genSubTree(c.newScratchPad(), append([]byte(nil), skSeed...), append([]byte(nil), seed...), SubTreeAddress{Layer: layer, Tree: tree})
	th := p.FullHeight / p.D
	nodes := rfTree(p, skSeed, seed, layer, tree)
	var got, want []byte
	for h := uint32(0); h <= th; h++ {
		for i := range nodes[h] {
			got = append(got, mt.Node(h, uint32(i))...)
			want = append(want, nodes[h][i]...)
		}
	}
	vnd.Assert(vnd.Same(got, want), "the nodes of a subtree")
	vnd.Reach("done")
}
