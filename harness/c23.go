package xmssmt

import (
	"io"
	"sync"

	"github.com/bwesterb/go-xmssmt/internal/vnd"
)

// A key used by several goroutines.
type vhShared struct {
	p    Params
	st   *vhStore
	ctr  *vhCtr
	sk   *PrivateKey
	pk   *PublicKey
	ref  *vhKeyRef
	base uint64
	used []bool
	wg   sync.WaitGroup
}

func vhNewShared() *vhShared {
	p := vhP()
	vhSetup()
	s := &vhShared{p: p, st: &vhStore{}, base: uint64(vnd.Param("idx", 2))}
	s.ref = vhNewKeyRef(p)
	sk, _, err := vhCtx2(p).DeriveInto(vhNewCtr(s.st), s.ref.seed, s.ref.skSeed, s.ref.skPrf)
	vnd.Assert(err == nil, "the key is derived")
	s.st.seqNo = s.base
	if vnd.Param("warm", 0) == 1 {
		sk.DangerousSetSeqNo(SignatureSeqNo(s.base))
		sk.Sign(vhMsg)
		s.st.seqNo = s.base
	}
	s.used = make([]bool, vnd.Param("signs", 2)+1)
	for i := range s.used {
		s.ref.ref(s.base + uint64(i))
	}
	s.ctr = vhNewCtr(s.st)
	s.sk, s.pk, _, err = LoadPrivateKeyFrom(s.ctr)
	vnd.Assert(err == nil, "the key is loaded")
	return s
}

// start runs f in a goroutine.
func (s *vhShared) start(f func()) {
	s.wg.Add(1)
	go func() {
		f()
		s.wg.Done()
	}()
}

func (s *vhShared) sign(n int) {
	for i := 0; i < n; i++ {
		sig, err := s.sk.Sign(vhMsg)
		vnd.Assert(err == nil, "signing succeeds")
		no := uint64(sig.SeqNo())
		vnd.Assert(no >= s.base && no < s.base+uint64(len(s.used)), "sequence numbers are used in order")
		vnd.Assert(!s.used[no-s.base], "no sequence number is used twice")
		s.used[no-s.base] = true
		vnd.Assert(vnd.Same(vhSigBytes(sig), s.ref.ref(no)), "the signature is the one made without concurrency")
	}
}

func (s *vhShared) finish(signs int) {
	s.wg.Wait()
	for i := 0; i < signs; i++ {
		vnd.Assert(s.used[i], "no sequence number is skipped")
	}
	vnd.Assert(uint64(s.sk.SeqNo()) == s.base+uint64(signs), "the next sequence number")
	vnd.Assert(s.sk.UnretiredSeqNos() == 0, "no signature is unfinished")
}

// Signatures made concurrently, in every schedule.
func VH_C23_sign() {
	s := vhNewShared()
	vnd.SetMerge(false)
	g := vnd.Param("goroutines", 2)
	each := vnd.Param("each", 1)
	vnd.Preempt(vnd.Param("preempt", 1))
	if vnd.Param("precompute", 0) == 1 {
		s.sk.EnableSubTreePrecomputation()
	}
	for i := 0; i < g; i++ {
		s.start(func() { s.sign(each) })
	}
	signs := g * each
	if vnd.Param("main", 0) == 1 {
		s.sign(1)
		signs++
	}
	if vnd.Param("borrow", 0) == 1 {
		s.start(func() { vnd.Assert(s.sk.BorrowExactly(2) == nil, "borrowing succeeds") })
	}
	s.finish(signs)
	s.ctr.fails = nil
	vnd.Assert(s.sk.Close() == nil, "the key is closed")
	vnd.Assert(s.st.seqNo == s.base+uint64(signs) || vnd.Param("borrow", 0) == 1, "the next sequence number is stored")
	vnd.Reach("done")
}

// Closing a key of which a subtree is generated in the background.
func VH_C23_close() {
	s := vhNewShared()
	vnd.SetMerge(false)
	vnd.Preempt(vnd.Param("preempt", 1))
	if vnd.Param("when", 0) == 1 {
		s.sk.EnableSubTreePrecomputation()
	}
	if n := vnd.Param("signs", 1); n > 0 {
		s.sign(n)
	}
	if vnd.Param("when", 0) == 0 {
		s.sk.EnableSubTreePrecomputation()
	}
	s.ctr.onGet = func(a SubTreeAddress) {
		vnd.Assert(s.ctr.open, "no subtree is fetched from a closed container")
	}
	vnd.Assert(s.sk.Close() == nil, "the key is closed")
	vnd.Assert(!s.ctr.open, "the container is closed")
	// nobody uses the cache anymore
	bufs := map[SubTreeAddress][]byte{}
	for a, b := range s.st.trees {
		bufs[a] = append([]byte(nil), b...)
	}
	s.ctr.onGet = func(a SubTreeAddress) { vnd.Assert(false, "the container is used after it was closed") }
	for i := 0; i < vnd.Param("later", 4); i++ {
		// waiting lets the others go on
		s.start(func() {})
		s.wg.Wait()
	}
	for a, b := range bufs {
		vnd.Assert(vnd.Same(b, s.st.trees[a]), "the cache is written after it was closed")
	}
	vnd.Reach("done")
}

// Every pair of operations, watched for data races.
func VH_C23_race() {
	s := vhNewShared()
	vnd.SetMerge(false)
	msg := vhMsg
	op := func(i int) {
		switch i {
		case 0:
			s.sk.SignFrom(&vhMsgReader{left: msg})
		case 1:
			s.sk.BorrowExactly(1)
		case 2:
			s.sk.BorrowExactlyIfBelow(1, 1)
		case 3:
			s.sk.SeqNo()
			s.sk.BorrowedSeqNos()
		case 4:
			s.sk.CachedSubTrees()
			s.sk.UnretiredSeqNos()
		case 5:
			s.sk.EnableSubTreePrecomputation()
		case 6:
			pk := s.sk.PublicKey()
			vnd.Assert(vnd.Same(pk.root, s.ref.root), "the public key")
		case 7:
			s.sk.Context()
			s.sk.DangerousSetSeqNo(SignatureSeqNo(s.base + 1))
		case 8:
			s.sk.Close()
		}
	}
	a := vnd.Param("a", 0)
	b := vnd.Choose("b", 8)
	if vnd.Param("b", -1) >= 0 {
		vnd.Assume(b == vnd.Param("b", -1))
	}
	vnd.Preempt(vnd.Param("preempt", 1))
	vnd.Races()
	s.start(func() { op(a) })
	s.start(func() { op(b) })
	s.wg.Wait()
	s.sk.Close()
	vnd.Reach("done")
}

// Verifying with one public key.
func VH_C23_verify() {
	s := vhNewShared()
	sig, err := s.sk.Sign(vhMsg)
	vnd.Assert(err == nil, "signing succeeds")
	vnd.SetMerge(false)
	vnd.Preempt(vnd.Param("preempt", 1))
	vnd.Races()
	for i := 0; i < 2; i++ {
		s.start(func() {
			ok, err := s.pk.Verify(sig, vhMsg)
			vnd.Assert(ok && err == nil, "the signature is accepted")
			vhSigBytes(sig)
			vhPkBytes(s.pk)
		})
	}
	s.wg.Wait()
	vnd.Reach("done")
}

// Generating a subtree with several workers.
func VH_C23_threads() {
	p := vhP()
	vhSetup()
	c := vhCtx2(p)
	n := int(p.N)
	skSeed, seed := vhPattern(n), vhPattern(n + 2)[2:]
	sta := SubTreeAddress{Layer: uint32(vnd.Param("layer", 0)), Tree: uint64(vnd.Param("tree", 0))}
	want := c.genSubTree(c.newScratchPad(), skSeed, seed, sta)
	vnd.SetMerge(false)
	vnd.Preempt(vnd.Param("preempt", 1))
	if vnd.Param("races", 0) == 1 {
		vnd.Races()
	}
	c.Threads = vnd.Param("threads", 2)
	got := c.genSubTree(c.newScratchPad(), skSeed, seed, sta)
	for h := uint32(0); h <= p.FullHeight/p.D; h++ {
		for i := uint32(0); i < 1<<(p.FullHeight/p.D-h); i++ {
			vnd.Assert(vnd.Same(got.Node(h, i), want.Node(h, i)), "a subtree does not depend on the number of workers")
		}
	}
	vnd.Reach("done")
}

var _ io.Reader = &vhMsgReader{}
