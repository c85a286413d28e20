package xmssmt

import "github.com/bwesterb/go-xmssmt/internal/vnd"

func vhSetup() {
	vnd.SetMerge(true)
	vnd.SetSplit(vnd.Param("split", 4))
	vnd.SetLazy(vnd.Param("lazy", 1) == 1)
}

func vhHeader(p Params) []byte {
	h, err := p.MarshalBinary()
	vnd.Assert(err == nil, "parameters can be encoded")
	return h
}

// Verify of an arbitrary signature and key against RFC 8391, through the
// binary encodings.
func VH_C06_verify() {
	p := vhP()
	vhSetup()
	n := int(p.N)
	hdr := vhHeader(p)
	sigb := vnd.Bytes("sig", rfSigLen(p))
	ib := rfIdxBytes(p)
	// indices within the tree (for others the standard defines nothing)
	mask, base := uint64(vnd.Param("mask", -1)), uint64(vnd.Param("base", 0))
	mask &= 1<<uint(p.FullHeight) - 1
	for i := 0; i < ib; i++ {
		k := uint(8 * (ib - 1 - i))
		sigb[i] = sigb[i]&byte(mask>>k) | byte(base>>k)
	}
	root, seed := vnd.Bytes("root", n), vnd.Bytes("seed", n)
	msg := vnd.Bytes("msg", vnd.Param("mlen", 3))
	origMsg := append([]byte(nil), msg...)
	origSig := append([]byte(nil), sigb...)
	origRoot := append([]byte(nil), root...)
	origSeed := append([]byte(nil), seed...)
	rawSig := rfCat(hdr, sigb)
	rawPk := rfCat(hdr, root, seed)
	origRawSig := append([]byte(nil), rawSig...)
	origRawPk := append([]byte(nil), rawPk...)
	var ok bool
	var err Error
	switch vnd.Param("api", 0) {
	case 0:
		ok, err = Verify(rawPk, rawSig, msg)
	case 1:
		var pk PublicKey
		var sig Signature
		vnd.Assert(pk.UnmarshalBinary(rawPk) == nil, "key is parsed")
		vnd.Assert(sig.UnmarshalBinary(rawSig) == nil, "signature is parsed")
		ok, err = pk.Verify(&sig, msg)
		again, err2 := pk.Verify(&sig, msg)
		vnd.Assert(vnd.And(again == ok, (err2 == nil) == (err == nil)), "verifying again gives the same answer")
	}
	want := vnd.Same(rfVerifyRoot(p, origSig, origRoot, origSeed, origMsg), origRoot)
	vnd.Assert(ok == want, "accepted exactly as in RFC 8391")
	vnd.Assert((err == nil) == want, "an error unless accepted")
	vnd.Assert(vnd.Same(msg, origMsg), "message is not modified")
	vnd.Assert(vnd.Same(rawSig, origRawSig), "signature is not modified")
	vnd.Assert(vnd.Same(rawPk, origRawPk), "public key is not modified")
	vnd.Reach("done")
}

// The sequence numbers looked at: given ones, or all.
func vhIdx(p Params, n uint64) uint64 {
	if i := vnd.Param("idx", -1); i >= 0 {
		return uint64(i)
	}
	return uint64(vnd.Choose("idx", int(n)))
}
