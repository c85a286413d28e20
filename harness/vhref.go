package xmssmt

// RFC 8391 / SP 800-208, written down from the standards for arbitrary
// parameters; used as the oracle.

import (
	"crypto/sha256"
	"crypto/sha512"

	"golang.org/x/crypto/sha3"
)

type rfAddr struct {
	layer uint32
	tree  uint64
	typ   uint32
	a, b  uint32 // OTS address, chain | L-tree address, height | 0, height
	c, km uint32 // hash | index | index, keyAndMask
}

func rfToByte(x uint64, n int) []byte {
	r := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		r[i] = byte(x)
		x >>= 8
	}
	return r
}

func (a rfAddr) bytes() []byte {
	var r []byte
	r = append(r, rfToByte(uint64(a.layer), 4)...)
	r = append(r, rfToByte(a.tree, 8)...)
	for _, x := range []uint32{a.typ, a.a, a.b, a.c, a.km} {
		r = append(r, byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
	}
	return r
}

func rfCat(xs ...[]byte) []byte {
	var r []byte
	for _, x := range xs {
		r = append(r, x...)
	}
	return r
}

func rfHash(p Params, in []byte) []byte {
	switch {
	case p.Func == SHA2 && p.N == 64:
		h := sha512.Sum512(in)
		return append([]byte(nil), h[:]...)
	case p.Func == SHA2:
		h := sha256.Sum256(in)
		return append([]byte(nil), h[:p.N]...)
	}
	out := make([]byte, p.N)
	if p.Func == SHAKE && p.N < 64 {
		sha3.ShakeSum128(out, in)
	} else {
		sha3.ShakeSum256(out, in)
	}
	return out
}

func rfPre(p Params, x uint64) []byte {
	if p.Prf == NIST {
		return rfToByte(x, 4)
	}
	return rfToByte(x, int(p.N))
}

func rfPRF(p Params, key, m []byte) []byte {
	return rfHash(p, rfCat(rfPre(p, 3), key, m))
}

func rfXor(a, b []byte) []byte {
	r := make([]byte, len(a))
	for i := range a {
		r[i] = a[i] ^ b[i]
	}
	return r
}

func rfF(p Params, seed []byte, a rfAddr, m []byte) []byte {
	a.km = 0
	key := rfPRF(p, seed, a.bytes())
	a.km = 1
	bm := rfPRF(p, seed, a.bytes())
	return rfHash(p, rfCat(rfPre(p, 0), key, rfXor(m, bm)))
}

func rfRandHash(p Params, l, r, seed []byte, a rfAddr) []byte {
	a.km = 0
	key := rfPRF(p, seed, a.bytes())
	a.km = 1
	b0 := rfPRF(p, seed, a.bytes())
	a.km = 2
	b1 := rfPRF(p, seed, a.bytes())
	return rfHash(p, rfCat(rfPre(p, 1), key, rfXor(l, b0), rfXor(r, b1)))
}

func rfHmsg(p Params, r, root []byte, idx uint64, m []byte) []byte {
	return rfHash(p, rfCat(rfPre(p, 2), r, root, rfToByte(idx, int(p.N)), m))
}

func rfPRFKeyGen(p Params, sk, seed []byte, a rfAddr) []byte {
	return rfHash(p, rfCat(rfPre(p, 4), sk, seed, a.bytes()))
}

func rfLen(p Params) int {
	lg := 2
	if p.WotsW == 16 {
		lg = 4
	} else if p.WotsW == 256 {
		lg = 8
	}
	l1 := 8 * int(p.N) / lg
	l2, x := 0, uint64(1)
	for x <= uint64(l1)*uint64(p.WotsW-1) {
		x *= uint64(p.WotsW)
		l2++
	}
	return l1 + l2
}

func rfDigits(p Params, msg []byte) []uint8 {
	lg := uint(2)
	if p.WotsW == 16 {
		lg = 4
	} else if p.WotsW == 256 {
		lg = 8
	}
	w := uint32(p.WotsW)
	len1 := int(8*p.N) / int(lg)
	len2 := rfLen(p) - len1
	var ret []uint8
	csum := uint32(0)
	for i := 0; i < len1; i++ {
		bit := uint(i) * lg
		d := (msg[bit/8] >> (8 - lg - bit%8)) & uint8(w-1)
		ret = append(ret, d)
		csum += w - 1 - uint32(d)
	}
	for i := len2 - 1; i >= 0; i-- {
		ret = append(ret, uint8((csum>>(uint(i)*lg))&(w-1)))
	}
	return ret
}

func rfChain(p Params, x []byte, from, to int, seed []byte, a rfAddr) []byte {
	x = append([]byte(nil), x...)
	for i := from; i < to; i++ {
		a.c = uint32(i)
		copy(x, rfF(p, seed, a, x))
	}
	return x
}

func rfWotsSk(p Params, sk, seed []byte, a rfAddr, i int) []byte {
	a.b, a.c, a.km = uint32(i), 0, 0
	return rfPRFKeyGen(p, sk, seed, a)
}

func rfWotsPk(p Params, sk, seed []byte, a rfAddr) (pk [][]byte) {
	for i := 0; i < rfLen(p); i++ {
		a.b = uint32(i)
		pk = append(pk, rfChain(p, rfWotsSk(p, sk, seed, a, i), 0, int(p.WotsW)-1, seed, a))
	}
	return
}

func rfWotsSign(p Params, msg, sk, seed []byte, a rfAddr) (sig [][]byte) {
	d := rfDigits(p, msg)
	for i := 0; i < rfLen(p); i++ {
		a.b = uint32(i)
		sig = append(sig, rfChain(p, rfWotsSk(p, sk, seed, a, i), 0, int(d[i]), seed, a))
	}
	return
}

func rfWotsPkFromSig(p Params, sig, msg, seed []byte, a rfAddr) (pk [][]byte) {
	d := rfDigits(p, msg)
	n := int(p.N)
	for i := 0; i < rfLen(p); i++ {
		a.b = uint32(i)
		pk = append(pk, rfChain(p, sig[i*n:i*n+n], int(d[i]), int(p.WotsW)-1, seed, a))
	}
	return
}

func rfLTree(p Params, pk [][]byte, seed []byte, a rfAddr) []byte {
	pk = append([][]byte(nil), pk...)
	l := len(pk)
	a.b = 0
	for l > 1 {
		for i := 0; i < l/2; i++ {
			a.c = uint32(i)
			pk[i] = rfRandHash(p, pk[2*i], pk[2*i+1], seed, a)
		}
		if l%2 == 1 {
			pk[l/2] = pk[l-1]
		}
		l = (l + 1) / 2
		a.b++
	}
	return pk[0]
}

// The nodes of a subtree: nodes[height][index].
func rfTree(p Params, sk, seed []byte, layer uint32, tree uint64) (nodes [][][]byte) {
	th := p.FullHeight / p.D
	var cur [][]byte
	for i := uint32(0); i < 1<<th; i++ {
		a := rfAddr{layer: layer, tree: tree, typ: 0, a: i}
		pk := rfWotsPk(p, sk, seed, a)
		a.typ = 1
		cur = append(cur, rfLTree(p, pk, seed, a))
	}
	nodes = append(nodes, cur)
	for h := uint32(0); h < th; h++ {
		var up [][]byte
		for i := 0; i < len(cur)/2; i++ {
			up = append(up, rfRandHash(p, cur[2*i], cur[2*i+1], seed,
				rfAddr{layer: layer, tree: tree, typ: 2, b: h, c: uint32(i)}))
		}
		nodes = append(nodes, up)
		cur = up
	}
	return
}

// The root computed from one signature of a layer.
func rfRootFromSig(p Params, leaf uint32, wsig, auth, msg, seed []byte, layer uint32, tree uint64) []byte {
	n := int(p.N)
	a := rfAddr{layer: layer, tree: tree, typ: 0, a: leaf}
	pk := rfWotsPkFromSig(p, wsig, msg, seed, a)
	a.typ = 1
	node := rfLTree(p, pk, seed, a)
	th := int(p.FullHeight / p.D)
	for k := 0; k < th; k++ {
		sib := auth[k*n : k*n+n]
		a := rfAddr{layer: layer, tree: tree, typ: 2, b: uint32(k), c: leaf >> uint(k+1)}
		if (leaf>>uint(k))&1 == 0 {
			node = rfRandHash(p, node, sib, seed, a)
		} else {
			node = rfRandHash(p, sib, node, seed, a)
		}
	}
	return node
}

func rfIdxBytes(p Params) int {
	if p.D > 1 {
		return int(p.FullHeight+7) / 8
	}
	return 4
}

func rfSigLen(p Params) int {
	return rfIdxBytes(p) + int(p.N)*(1+int(p.D)*rfLen(p)+int(p.FullHeight))
}

// The root recomputed from a complete signature (without parameter prefix).
func rfVerifyRoot(p Params, sig, root, seed, msg []byte) []byte {
	n := int(p.N)
	ib := rfIdxBytes(p)
	var idx uint64
	for i := 0; i < ib; i++ {
		idx = idx<<8 | uint64(sig[i])
	}
	m := rfHmsg(p, sig[ib:ib+n], root, idx, msg)
	off := ib + n
	th := p.FullHeight / p.D
	tree := idx
	for layer := uint32(0); layer < p.D; layer++ {
		leaf := uint32(tree & (1<<th - 1))
		tree >>= th
		wl := rfLen(p) * n
		m = rfRootFromSig(p, leaf, sig[off:off+wl], sig[off+wl:off+wl+int(th)*n], m, seed, layer, tree)
		off += wl + int(th)*n
	}
	return m
}

// The signature of RFC 8391 with keys generated by PRF_keygen.
func rfSign(p Params, skSeed, skPrf, seed, root []byte, idx uint64, msg []byte) []byte {
	r := rfPRF(p, skPrf, rfToByte(idx, 32))
	m := rfHmsg(p, r, root, idx, msg)
	sig := rfCat(rfToByte(idx, rfIdxBytes(p)), r)
	th := p.FullHeight / p.D
	tree := idx
	for layer := uint32(0); layer < p.D; layer++ {
		leaf := uint32(tree & (1<<th - 1))
		tree >>= th
		for _, c := range rfWotsSign(p, m, skSeed, seed, rfAddr{layer: layer, tree: tree, a: leaf}) {
			sig = append(sig, c...)
		}
		nodes := rfTree(p, skSeed, seed, layer, tree)
		for k := uint32(0); k < th; k++ {
			sig = append(sig, nodes[k][(leaf>>k)^1]...)
		}
		m = nodes[th][0]
	}
	return sig
}

func rfRoot(p Params, skSeed, seed []byte) []byte {
	th := p.FullHeight / p.D
	return rfTree(p, skSeed, seed, p.D-1, 0)[th][0]
}
