package xmssmt

import (
	"io"

	"github.com/bwesterb/go-xmssmt/internal/vnd"
)

// A reader that delivers data in the pieces given by cuts.
type vhReader struct {
	data  []byte
	empty int  // empty reads left
	late  bool // EOF comes on its own
	fail  int  // the position at which it fails (-1: never)
	big   int  // fixed size of the pieces (0: chosen)
	reads int
}

type vhReadErr struct{}

func (vhReadErr) Error() string { return "read failed" }

func (r *vhReader) Read(p []byte) (int, error) {
	r.reads++
	if r.fail == 0 {
		return 0, vhReadErr{}
	}
	max := len(r.data)
	if r.fail > 0 && r.fail < max {
		max = r.fail
	}
	if max > len(p) {
		max = len(p)
	}
	n := 0
	if r.big > 0 {
		n = r.big
		if n > max {
			n = max
		}
	} else if max > 0 {
		min := 1
		if r.empty > 0 {
			min = 0
		}
		n = min + vnd.Choose("piece", max-min+1)
		if n == 0 {
			r.empty--
			return 0, nil
		}
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if r.fail > 0 {
		r.fail -= n
	}
	if len(r.data) == 0 && r.fail < 0 {
		if n == 0 || !r.late {
			return n, io.EOF
		}
	}
	return n, nil
}

func vhSigBytes(s *Signature) []byte {
	b, err := s.MarshalBinary()
	vnd.Assert(err == nil, "signature is encoded")
	return b
}

// All ways of delivering a short message.
func VH_C26_split() {
	p := vhP()
	vhSetup()
	n := int(p.N)
	skSeed, skPrf, seed := vnd.Bytes("skSeed", n), vnd.Bytes("skPrf", n), vnd.Bytes("pubSeed", n)
	oskSeed, oskPrf, oseed := append([]byte(nil), skSeed...), append([]byte(nil), skPrf...), append([]byte(nil), seed...)
	c := vhCtx2(p)
	sk, pk, err := c.DeriveInto(vhNewCtr(&vhStore{}), seed, skSeed, skPrf)
	vnd.Assert(err == nil, "key is derived")
	idx := SignatureSeqNo(vnd.Param("idx", 1))
	sk.DangerousSetSeqNo(idx)
	ml := vnd.Param("mlen", 3)
	msg := vnd.Bytes("msg", ml)
	omsg := append([]byte(nil), msg...)
	sig, err := sk.Sign(msg)
	vnd.Assert(err == nil, "message is signed")
	vnd.Assert(vnd.Same(msg, omsg), "signing leaves the message alone")
	vnd.Assert(vnd.Same(seed, oseed), "signing leaves the public seed alone")
	vnd.Assert(vnd.Same(skSeed, oskSeed), "signing leaves the secret seed alone")
	vnd.Assert(vnd.Same(skPrf, oskPrf), "signing leaves the PRF seed alone")
	want := vhSigBytes(sig)
	r := &vhReader{fail: -1, empty: vnd.Choose("empty", vnd.Param("empty", 1)+1), late: vnd.Choose("late", 2) == 1}
	if vnd.Choose("fails", 2) == 1 {
		r.fail = vnd.Choose("failAt", ml+1)
	}
	fails := r.fail >= 0
	if vnd.Param("what", 0) == 0 {
		r.data = msg
		sk.DangerousSetSeqNo(idx)
		s, err := sk.SignFrom(r)
		vnd.Assert(vnd.Same(msg, omsg), "signing leaves the message alone")
		if fails {
			vnd.Assert(err != nil, "a failing reader makes SignFrom fail")
			vnd.Assert(s == nil, "no signature when the reader fails")
			vnd.Reach("failed")
			return
		}
		vnd.Assert(err == nil, "stream is signed")
		vnd.Assert(vnd.Same(vhSigBytes(s), want), "SignFrom gives the signature of the bytes")
		vnd.Reach("signed")
		return
	}
	// another message
	other := vnd.Bytes("other", ml)
	oo := append([]byte(nil), other...)
	r.data = other
	ok, err := pk.VerifyFrom(sig, r)
	if fails {
		vnd.Assert(!ok, "not verified when the reader fails")
		vnd.Assert(err != nil, "a failing reader makes VerifyFrom fail")
		vnd.Reach("failed")
		return
	}
	ok2, err2 := pk.Verify(sig, other)
	vnd.Assert(ok == ok2, "VerifyFrom gives the verdict on the bytes")
	vnd.Assert((err == nil) == (err2 == nil), "VerifyFrom fails when Verify does")
	vnd.Assert(vnd.Same(other, oo), "verifying leaves the message alone")
	vnd.Assert(vnd.Same(vhSigBytes(sig), want), "verifying leaves the signature alone")
	vnd.Reach("verified")
}

// Long messages, in pieces of several sizes.
func VH_C26_long() {
	p := vhP()
	vhSetup()
	n := int(p.N)
	c := vhCtx2(p)
	pad := c.newScratchPad()
	ml := vnd.Param("mlen", 70000)
	msg := make([]byte, ml)
	for i := range msg {
		msg[i] = byte(i*7 + i>>8)
	}
	for _, i := range []int{0, 1, 4095, 32767, 32768, 65535, 65536, ml - 1} {
		if i >= 0 && i < ml {
			msg[i] = vnd.U8("byte")
		}
	}
	r, root, idx := vnd.Bytes("R", n), vnd.Bytes("root", n), vnd.U64("idx")
	want := rfHmsg(p, r, root, idx, msg)
	rd := &vhReader{data: msg, fail: -1, big: []int{1 << 20, 32768, 32767, 1000}[vnd.Choose("size", 4)], late: vnd.Choose("late", 2) == 1}
	if vnd.Choose("fails", 2) == 1 {
		rd.fail = []int{ml, 40000, 32768, 1}[vnd.Choose("failAt", 4)]
		if rd.fail > ml {
			rd.fail = ml
		}
		h, err := c.hashMessage(pad, rd, r, root, idx)
		vnd.Assert(err != nil, "a failing reader makes hashing fail")
		vnd.Assert(h == nil, "no digest when the reader fails")
		vnd.Reach("failed")
		return
	}
	h, err := c.hashMessage(pad, rd, r, root, idx)
	vnd.Assert(err == nil, "long stream is hashed")
	vnd.Assert(vnd.Same(h, want), "digest of a long stream")
	vnd.Reach("hashed")
}
