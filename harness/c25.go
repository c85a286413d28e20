package xmssmt

import (
	"github.com/bwesterb/go-xmssmt/internal/vnd"
	"github.com/bwesterb/go-xmssmt/internal/vstubs/vlockfile"
	"github.com/bwesterb/go-xmssmt/internal/vstubs/vos"
)

func vhPkBytes(pk *PublicKey) []byte {
	b, err := pk.MarshalBinary()
	vnd.Assert(err == nil, "the public key is encoded")
	return b
}

// A key that is stored and loaded again.
func VH_C25_reload() {
	p := vhP()
	vhSetup()
	vhFSInit()
	vos.MaxMem = 1 << 17
	n := int(p.N)
	skSeed, skPrf, seed := vnd.Bytes("skSeed", n), vnd.Bytes("skPrf", n), vnd.Bytes("pubSeed", n)
	cp := func(b []byte) []byte { return append([]byte(nil), b...) }
	c := vhCtx2(p)
	no := uint64(vnd.Param("idx", 0))
	msg := vnd.Bytes("msg", vnd.Param("mlen", 2))

	// the same key, never stored in a file
	sk0, pk0, err := c.DeriveInto(vhNewCtr(&vhStore{}), cp(seed), cp(skSeed), cp(skPrf))
	vnd.Assert(err == nil, "the key is derived")
	sk0.DangerousSetSeqNo(SignatureSeqNo(no))
	sig0, err := sk0.Sign(msg)
	vnd.Assert(err == nil, "a message is signed")
	want, wantPk := vhSigBytes(sig0), vhPkBytes(pk0)

	a, b, d := cp(seed), cp(skSeed), cp(skPrf)
	sk, pk, err := c.Derive(vhPath, a, b, d)
	vnd.Assert(err == nil, "the key is derived")
	vnd.Assert(vnd.And(vnd.Same(a, seed), vnd.Same(b, skSeed), vnd.Same(d, skPrf)), "the seeds are left alone")
	vnd.Assert(vnd.Same(vhPkBytes(pk), wantPk), "the public key depends on the seeds only")
	vnd.Assert(sk.SeqNo() == 0, "a fresh key starts at zero")
	vnd.Assert(sk.Close() == nil, "the key is closed")

	// another number
	ctr, err := OpenFSPrivateKeyContainer(vhPath)
	vnd.Assert(err == nil, "the container is opened")
	q := ctr.Initialized()
	vnd.Assert(q != nil && *q == p, "the parameters are stored")
	vnd.Assert(ctr.SetSeqNo(SignatureSeqNo(no)) == nil, "a sequence number is stored")
	how := vnd.Param("how", 0)
	if how == 1 {
		vnd.Assert(ctr.ResetCache() == nil, "the cache is reset")
	}
	if how < 2 {
		vnd.Assert(ctr.Close() == nil, "the container is closed")
		sk, pk, _, err = LoadPrivateKey(vhPath)
	} else {
		sk, pk, _, err = LoadPrivateKeyFrom(ctr)
	}
	vnd.Assert(err == nil, "the key is loaded")
	vnd.Assert(uint64(sk.SeqNo()) == no, "the stored sequence number is next")
	vnd.Assert(vnd.Same(vhPkBytes(pk), wantPk), "the loaded public key is the same")
	vnd.Assert(vnd.Same(vhPkBytes(sk.PublicKey()), wantPk), "the loaded public key is the same")
	cx := sk.Context()
	vnd.Assert(cx.Params() == p, "the loaded parameters are the same")
	cx.Threads = 1
	sig, err := sk.Sign(msg)
	vnd.Assert(err == nil, "a message is signed")
	vnd.Assert(uint64(sig.SeqNo()) == no, "the stored sequence number is used")
	vnd.Assert(vnd.Same(vhSigBytes(sig), want), "the signature is the same")
	ok, err := pk.Verify(sig, msg)
	vnd.Assert(ok && err == nil, "the signature is accepted")
	vnd.Assert(sk.Close() == nil, "the key is closed")
	ctr, err = OpenFSPrivateKeyContainer(vhPath)
	vnd.Assert(err == nil, "the container is opened")
	no2, lost, err := ctr.GetSeqNo()
	vnd.Assert(err == nil && uint64(no2) == no+1 && lost == 0, "the next sequence number is stored")
	vnd.Reach("reloaded")
}

// Every stored number.
func VH_C25_seqno() {
	p := vhP()
	vnd.SetMerge(false)
	vhFSInit()
	vos.MaxMem = 1 << 19
	n := int(p.N)
	c := vhCtx2(p)
	sk, pk, err := c.Derive(vhPath, vhPattern(n), vhPattern(n + 1)[1:], vhPattern(n + 2)[2:])
	vnd.Assert(err == nil, "the key is derived")
	vnd.Assert(sk.Close() == nil, "the key is closed")
	ctr, err := OpenFSPrivateKeyContainer(vhPath)
	vnd.Assert(err == nil, "the container is opened")
	no := vnd.U64("no")
	vnd.Assert(ctr.SetSeqNo(SignatureSeqNo(no)) == nil, "a sequence number is stored")
	vnd.Assert(ctr.Close() == nil, "the container is closed")
	sk, pk2, lost, err := LoadPrivateKey(vhPath)
	if err != nil {
		vnd.Assert(no > p.MaxSignatureSeqNo(), "a usable key is loaded")
		vnd.Reach("refused")
		return
	}
	vnd.Assert(no <= p.MaxSignatureSeqNo(), "a number that does not fit is refused")
	vnd.Assert(uint64(sk.SeqNo()) == no, "the stored sequence number is next")
	vnd.Assert(lost == 0, "no signatures are lost")
	vnd.Assert(vnd.Same(vhPkBytes(pk), vhPkBytes(pk2)), "the loaded public key is the same")
	vnd.Assert(sk.Close() == nil, "the key is closed")
	vnd.Reach("loaded")
}

// Seeds of the wrong length.
func VH_C25_seeds() {
	p := vhP()
	vnd.SetMerge(false)
	vhFSInit()
	vos.MaxMem = 1 << 17
	n := int(p.N)
	ls := []int{n, 0, n - 1, n + 1, 2 * n}
	l := func() []byte {
		k := ls[vnd.Choose("len", len(ls))]
		return vhPattern(k)
	}
	a, b, d := l(), l(), l()
	ok := len(a) == n && len(b) == n && len(d) == n
	sk, pk, err := vhCtx2(p).Derive(vhPath, a, b, d)
	vnd.Assert((err == nil) == ok, "a key is derived from seeds of the prescribed length only")
	vnd.Assert((sk != nil) == ok && (pk != nil) == ok, "no key with an error")
	if !ok {
		vnd.Assert(vos.Lookup(vhPath) == nil, "nothing is stored")
		vnd.Assert(!vlockfile.Held(vhLock), "the lock is released")
		vnd.Reach("refused")
	}
}
