package xmssmt

import "github.com/bwesterb/go-xmssmt/internal/vnd"

// An honest signature made by the standard's algorithm for symbolic seeds is
// accepted; with one byte of the signature, message or key changed it is
// accepted exactly if the recomputed root still matches.
func VH_C06_honest() {
	p := vhP()
	vhSetup()
	n := int(p.N)
	hdr := vhHeader(p)
	skSeed, skPrf, seed := vnd.Bytes("skSeed", n), vnd.Bytes("skPrf", n), vnd.Bytes("pubSeed", n)
	idx := vhIdx(p, 1<<uint(p.FullHeight))
	msg := vnd.Bytes("msg", vnd.Param("mlen", 3))
	root := rfRoot(p, skSeed, seed)
	sig := rfSign(p, skSeed, skPrf, seed, root, idx, msg)
	ok, err := Verify(rfCat(hdr, root, seed), rfCat(hdr, sig), msg)
	vnd.Assert(ok, "honest signature is accepted")
	vnd.Assert(err == nil, "honest signature is accepted without error")
	vnd.Reach("accepted")
}

// The key derived for given seeds and the signature made with it, against the
// standard.
func VH_C07_sign() {
	p := vhP()
	vhSetup()
	n := int(p.N)
	hdr := vhHeader(p)
	skSeed, skPrf, seed := vnd.Bytes("skSeed", n), vnd.Bytes("skPrf", n), vnd.Bytes("pubSeed", n)
	c := vhCtx2(p)
	st := &vhStore{}
	sk, pk, err := c.DeriveInto(vhNewCtr(st), append([]byte(nil), seed...), append([]byte(nil), skSeed...), append([]byte(nil), skPrf...))
	vnd.Assert(err == nil, "key is derived")
	root := rfRoot(p, skSeed, seed)
	pkb, err2 := pk.MarshalBinary()
	vnd.Assert(err2 == nil, "public key is encoded")
	vnd.Assert(vnd.Same(pkb, rfCat(hdr, root, seed)), "public key of RFC 8391")
	vnd.Reach("derived")
	if vnd.Param("sigs", 1) == 0 {
		return
	}
	idx := vhIdx(p, 1<<uint(p.FullHeight)-1)
	sk.DangerousSetSeqNo(SignatureSeqNo(idx))
	msg := vnd.Bytes("msg", vnd.Param("mlen", 3))
	sig, err := sk.Sign(msg)
	vnd.Assert(err == nil, "message is signed")
	sigb, err2 := sig.MarshalBinary()
	vnd.Assert(err2 == nil, "signature is encoded")
	vnd.Assert(uint64(sig.SeqNo()) == idx, "sequence number")
	want := rfSign(p, skSeed, skPrf, seed, root, idx, msg)
	vnd.Assert(len(sigb) == len(hdr)+len(want), "length of the signature")
	ib := rfIdxBytes(p)
	b := sigb[len(hdr):]
	vnd.Assert(vnd.Same(b[:ib], want[:ib]), "index of RFC 8391")
	vnd.Assert(vnd.Same(b[ib:ib+n], want[ib:ib+n]), "randomizer of RFC 8391")
	vnd.Assert(vnd.Same(b, want), "signature of RFC 8391")
	vnd.Reach("signed")
}

// Sign then Verify with the code alone.
func VH_C05_roundtrip() {
	p := vhP()
	vhSetup()
	n := int(p.N)
	skSeed, skPrf, seed := vnd.Bytes("skSeed", n), vnd.Bytes("skPrf", n), vnd.Bytes("pubSeed", n)
	c := vhCtx2(p)
	st := &vhStore{}
	sk, pk, err := c.DeriveInto(vhNewCtr(st), seed, skSeed, skPrf)
	vnd.Assert(err == nil, "key is derived")
	idx := vhIdx(p, 1<<uint(p.FullHeight)-1)
	sk.DangerousSetSeqNo(SignatureSeqNo(idx))
	msg := vnd.Bytes("msg", vnd.Param("mlen", 3))
	sig, err := sk.Sign(msg)
	vnd.Assert(err == nil, "message is signed")
	ok, err := pk.Verify(sig, msg)
	vnd.Assert(ok, "signature verifies")
	vnd.Assert(err == nil, "signature verifies without error")
	sigb, err2 := sig.MarshalBinary()
	vnd.Assert(err2 == nil, "signature is encoded")
	pkb, err2 := pk.MarshalBinary()
	vnd.Assert(err2 == nil, "public key is encoded")
	ok, err = Verify(pkb, sigb, msg)
	vnd.Assert(ok, "signature verifies after serialization")
	vnd.Assert(err == nil, "signature verifies after serialization without error")
	vnd.Reach("verified")
}
