package xmssmt

import "github.com/bwesterb/go-xmssmt/internal/vnd"

// Parameter sets that differ from p in some fields.
func vhOthers(p Params) (r []Params) {
	add := func(q Params) {
		if _, err := NewContext(q); err == nil && q != p {
			r = append(r, q)
		}
	}
	for _, f := range []HashFunc{SHA2, SHAKE, SHAKE256} {
		q := p
		q.Func = f
		add(q)
	}
	for _, f := range []PrfConstruction{RFC, NIST} {
		q := p
		q.Prf = f
		add(q)
	}
	for _, n := range []uint32{16, 24, 32, 64} {
		q := p
		q.N = n
		add(q)
	}
	for _, w := range []uint16{4, 16, 256} {
		q := p
		q.WotsW = w
		add(q)
	}
	for _, hd := range [][2]uint32{{1, 1}, {2, 1}, {2, 2}, {3, 1}, {4, 1}, {4, 2}, {6, 3}, {10, 1}, {20, 10}, {40, 20}, {60, 30}} {
		q := p
		q.FullHeight, q.D = hd[0], hd[1]
		add(q)
	}
	return
}

// A signature that would be accepted under p, laid out for q: every part that
// q has too, has p's contents; the rest is arbitrary.
func vhRelayout(p, q Params, sig []byte) []byte {
	fit := func(from []byte, n int) []byte {
		if n <= len(from) {
			return append([]byte(nil), from[:n]...)
		}
		return rfCat(from, vnd.Bytes("=rest", n-len(from)))
	}
	n, m := int(p.N), int(q.N)
	var idx uint64
	for i := 0; i < rfIdxBytes(p); i++ {
		idx = idx<<8 | uint64(sig[i])
	}
	r := rfToByte(idx, rfIdxBytes(q))
	off := rfIdxBytes(p)
	r = append(r, fit(sig[off:off+n], m)...)
	off += n
	for l := uint32(0); l < q.D; l++ {
		var ws, auth []byte
		if l < p.D {
			k := rfLen(p) * n
			ws = sig[off : off+k]
			off += k
			k = int(p.FullHeight/p.D) * n
			auth = sig[off : off+k]
			off += k
		}
		r = append(r, fit(ws, rfLen(q)*m)...)
		r = append(r, fit(auth, int(q.FullHeight/q.D)*m)...)
	}
	return r
}

// A signature that would be accepted, relabelled with other parameters.
func VH_C09_relabel() {
	p := vhP()
	vhSetup()
	n := int(p.N)
	skSeed, skPrf, seed := vnd.Bytes("skSeed", n), vnd.Bytes("skPrf", n), vnd.Bytes("pubSeed", n)
	idx := vhIdx(p, 1<<uint(p.FullHeight))
	msg := vnd.Bytes("msg", 2)
	root := rfRoot(p, skSeed, seed)
	honest := rfSign(p, skSeed, skPrf, seed, root, idx, msg)
	vnd.SetMerge(false)
	qs := vhOthers(p)
	q := qs[vnd.Choose("other", len(qs))]
	sig := vhRelayout(p, q, honest)
	vnd.Assert(len(sig) == rfSigLen(q), "length")
	pkb := rfCat(vhHeader(p), root, seed)
	sigb := rfCat(vhHeader(q), sig)
	var pk PublicKey
	var s Signature
	vnd.Assert(pk.UnmarshalBinary(pkb) == nil, "key is parsed")
	vnd.Assert(s.UnmarshalBinary(sigb) == nil, "signature is parsed")
	ok, err := pk.Verify(&s, msg)
	vnd.Assert(!ok, "signature for other parameters is not accepted")
	vnd.Assert(err != nil, "signature for other parameters is an error")
	ok, err = Verify(pkb, sigb, msg)
	vnd.Assert(!ok, "signature for other parameters is not accepted by Verify")
	vnd.Assert(err != nil, "signature for other parameters is an error of Verify")
	vnd.Reach("refused")
}

// Arbitrary contents.
func VH_C09_any() {
	p := vhP()
	vhSetup()
	vnd.SetMerge(false)
	n := int(p.N)
	qs := vhOthers(p)
	q := qs[vnd.Choose("other", len(qs))]
	if vnd.Bool("swap") {
		p, q = q, p
		n = int(p.N)
	}
	pkb := rfCat(vhHeader(p), vnd.Bytes("root", n), vnd.Bytes("pubSeed", n))
	sigb := rfCat(vhHeader(q), vnd.Bytes("=sig", rfSigLen(q)))
	var pk PublicKey
	var s Signature
	vnd.Assert(pk.UnmarshalBinary(pkb) == nil, "key is parsed")
	vnd.Assert(s.UnmarshalBinary(sigb) == nil, "signature is parsed")
	ok, err := pk.Verify(&s, vnd.Bytes("msg", 2))
	vnd.Assert(!ok, "signature for other parameters is not accepted")
	vnd.Assert(err != nil, "signature for other parameters is an error")
	vnd.Reach("refused")
}
