package xmssmt

import (
	"io"
	"sync"

	"github.com/bwesterb/go-xmssmt/internal/vnd"
	"github.com/bwesterb/go-xmssmt/internal/vstubs/vos"
)

// vhCause tells whether err reports want: as it is or as (inner) cause.
func vhCause(err error, want error) bool {
	for i := 0; err != nil && i < 5; i++ {
		if err == want {
			return true
		}
		e, ok := err.(Error)
		if !ok {
			return false
		}
		err = e.Inner()
	}
	return false
}

type vhFails struct {
	p      Params
	ref    *vhKeyRef
	st     *vhStore
	ctr    *vhCtr
	sk     *PrivateKey
	left   int    // failures left
	only   bool   // failures from now on hit the same operation
	failed bool   // one was delivered
	op     string // where
}

func (f *vhFails) fails(op string) bool {
	if f.left == 0 {
		return false
	}
	if !vnd.Bool("fail") {
		return false
	}
	f.left--
	f.ctr.effect = vnd.Bool("effect")
	if op != "DropSubTree" {
		f.failed = true
	}
	vnd.Reach("failed in " + op)
	return true
}

// try calls an operation.
func (f *vhFails) try(what string, op func() (bool, error)) {
	f.failed = false
	got, err := op()
	vnd.Assert((err != nil) == f.failed, what+" fails exactly if something it needs does")
	if err != nil {
		vnd.Assert(!got, what+" gives no result with an error")
		vnd.Assert(vhCause(err, vhErrInjected) || vhCause(err, vhReadErr{}), what+" returns the failure")
		vnd.Reach(what + " failed")
	}
}

func (f *vhFails) load() bool {
	f.ctr = vhNewCtr(f.st)
	f.ctr.fails = f.fails
	f.try("loading", func() (bool, error) {
		sk, pk, _, err := LoadPrivateKeyFrom(f.ctr)
		if err != nil {
			return sk != nil || pk != nil, err
		}
		vnd.Assert(vnd.Same(pk.root, f.ref.root), "the key loaded is the right one")
		f.sk = sk
		return true, nil
	})
	return !f.failed
}

type vhBrokenMsg struct {
	after int // bytes before it fails
	f     *vhFails
}

func (m *vhBrokenMsg) Read(p []byte) (int, error) {
	if m.after > 0 && len(p) > 0 {
		m.after--
		p[0] = 1
		return 1, nil
	}
	m.f.failed = true
	return 0, vhReadErr{}
}

type vhMsgReader struct{ left []byte }

func (m *vhMsgReader) Read(p []byte) (int, error) {
	if len(m.left) == 0 {
		return 0, io.EOF
	}
	n := copy(p, m.left)
	m.left = m.left[n:]
	return n, nil
}

func (f *vhFails) sign(msg io.Reader, label string) {
	no := uint64(f.sk.SeqNo())
	f.try(label, func() (bool, error) {
		sig, err := f.sk.SignFrom(msg)
		if err != nil {
			return sig != nil, err
		}
		vnd.Assert(uint64(sig.SeqNo()) == no, "the announced number is used")
		vnd.Assert(vnd.Same(vhSigBytes(sig), f.ref.ref(no)), "every signature made is valid")
		vnd.Reach("signed")
		return true, nil
	})
	vnd.Assert(f.sk.UnretiredSeqNos() == 0, "no signature is unfinished")
}

// Every pattern of failures in a few operations.
func VH_C24_fail() {
	p := vhP()
	vhSetup()
	f := &vhFails{p: p, st: &vhStore{}}
	f.ref = vhNewKeyRef(p)
	sk, _, err := vhCtx2(p).DeriveInto(vhNewCtr(f.st), f.ref.seed, f.ref.skSeed, f.ref.skPrf)
	vnd.Assert(err == nil, "the key is derived")
	vnd.Assert(sk.Close() == nil, "the key is closed")
	f.st.seqNo = uint64(vnd.Param("idx", 2))
	after := vnd.Param("after", 2)
	ops := vnd.Param("ops", 2)
	for i := 0; i < ops+after+1; i++ {
		f.ref.ref(f.st.seqNo + uint64(i))
	}
	if vnd.Param("lost", 0) == 1 {
		f.st.noCache = true
		f.st.trees = map[SubTreeAddress][]byte{}
	}
	vnd.SetMerge(false)
	f.left = vnd.Param("faults", 1)
	if vnd.Param("load", 0) == 0 {
		l := f.left
		f.left = 0
		f.load()
		f.left = l
	} else {
		for !f.load() {
		}
	}
	for i := 0; i < ops; i++ {
		op := vnd.Param("op", -1)
		if op < 0 || i > 0 {
			op = vnd.Choose("op", 6)
		}
		switch op {
		case 0:
			f.sign(&vhMsgReader{left: vhMsg}, "signing")
		case 1:
			m := &vhBrokenMsg{after: vnd.Param("msg", 2), f: f}
			f.sign(m, "signing an unreadable message")
		case 2:
			f.try("borrowing", func() (bool, error) {
				err := f.sk.BorrowExactly(uint32(vnd.Param("amount", 2)))
				if err != nil {
					return false, err
				}
				return true, nil
			})
		case 3:
			f.try("borrowing", func() (bool, error) {
				err := f.sk.BorrowExactlyIfBelow(uint32(vnd.Param("amount", 2)), 0)
				if err != nil {
					return false, err
				}
				return true, nil
			})
		case 4:
			f.try("closing", func() (bool, error) {
				err := f.sk.Close()
				if err != nil {
					return false, err
				}
				return true, nil
			})
			// whether that worked or not
			for !f.load() {
			}
		case 5:
			f.try("borrowing", func() (bool, error) {
				err := f.sk.BorrowExactly(0)
				if err != nil {
					return false, err
				}
				return true, nil
			})
		}
	}
	// the cause is gone
	f.left = 0
	for i := 0; i < after; i++ {
		if uint64(f.sk.SeqNo()) == p.MaxSignatureSeqNo() {
			break
		}
		f.sign(&vhMsgReader{left: vhMsg}, "signing once the failure is gone")
	}
	f.try("closing once the failure is gone", func() (bool, error) {
		err := f.sk.Close()
		if err != nil {
			return false, err
		}
		return true, nil
	})
	vnd.Assert(!f.ctr.open, "the container is closed")
	vnd.Assert(f.load(), "the key can be loaded again")
	if uint64(f.sk.SeqNo()) < p.MaxSignatureSeqNo() {
		f.sign(&vhMsgReader{left: vhMsg}, "signing after loading again")
	}
	vnd.Reach("done")
}

// Goroutines sign while one call to the container fails: all of them end, with
// a signature or the failure.
func VH_C24_together() {
	s := vhNewShared()
	vnd.SetMerge(false)
	g := vnd.Param("goroutines", 2)
	vnd.Preempt(vnd.Param("preempt", 0))
	left := 1
	op := []string{"GetSubTree", "BorrowSeqNos"}[vnd.Param("what", 0)]
	n := 0
	s.ctr.fails = func(o string) bool {
		if o != op || left == 0 {
			return false
		}
		n++
		if n < vnd.Param("nth", 1) || !vnd.Bool("fail") {
			return false
		}
		left--
		if vnd.Param("slow", 0) == 1 {
			// the call takes time: others go on before it fails
			wg := new(sync.WaitGroup)
			wg.Add(1)
			go func() { wg.Done() }()
			wg.Wait()
		}
		return true
	}
	for i := 0; i < g; i++ {
		s.start(func() {
			sig, err := s.sk.Sign(vhMsg)
			if err != nil {
				vnd.Assert(sig == nil, "no signature with an error")
				vnd.Assert(left == 0, "signing fails only if something failed")
				vnd.Assert(vhCause(err, vhErrInjected), "signing returns the failure")
				vnd.Reach("failed")
				return
			}
			no := uint64(sig.SeqNo())
			vnd.Assert(no >= s.base && no < s.base+uint64(len(s.used)), "sequence numbers are used in order")
			vnd.Assert(!s.used[no-s.base], "no sequence number is used twice")
			s.used[no-s.base] = true
			vnd.Assert(vnd.Same(vhSigBytes(sig), s.ref.ref(no)), "every signature made is valid")
		})
	}
	s.wg.Wait()
	s.ctr.fails = nil
	vnd.Assert(s.sk.UnretiredSeqNos() == 0, "no signature is unfinished")
	no := uint64(s.sk.SeqNo())
	if no < s.base+uint64(len(s.used)) {
		sig, err := s.sk.Sign(vhMsg)
		vnd.Assert(err == nil, "signing works once the failure is gone")
		vnd.Assert(vnd.Same(vhSigBytes(sig), s.ref.ref(no)), "every signature made is valid")
	}
	vnd.Assert(s.sk.Close() == nil, "the key is closed")
	vnd.Reach("done")
}

// Operations on the files of a key that fail.
func VH_C24_files() {
	vnd.SetMerge(false)
	vhFSInit()
	vos.MaxMem = vnd.Param("mem", 1<<17)
	p := vhP()
	k := vhNewKeyRef(p)
	k.derive()
	k.sk.DangerousSetSeqNo(SignatureSeqNo(vnd.Param("idx", 2)))
	vnd.Assert(k.w.SetSeqNo(SignatureSeqNo(vnd.Param("idx", 2))) == nil, "a sequence number is stored")
	k.close()
	no := uint64(vnd.Param("idx", 2))
	for i := uint64(0); i < 3; i++ {
		k.ref(no + i)
	}
	left := vnd.Param("faults", 1)
	hit := false
	fault := func(op, path string) int {
		if left == 0 || !vnd.Bool("fail") {
			return 0
		}
		left--
		hit = true
		vnd.Reach("failed: " + op)
		return 1 + vnd.Choose("effect", 2)
	}
	op := vnd.Param("op", 0)
	if op == 0 {
		// loading
		if vnd.Param("lost", 0) == 1 {
			vos.Forget(vhPath + ".cache")
		}
		vos.Fault = fault
		c, err := OpenFSPrivateKeyContainer(vhPath)
		if err == nil {
			var e Error
			k.sk, k.pk, _, e = LoadPrivateKeyFrom(c)
			if e != nil {
				vnd.Assert(hit, "loading fails only if something failed")
				vnd.Assert(k.sk == nil && k.pk == nil, "no key with an error")
				vos.Fault = nil
				vnd.Assert(c.Close() == nil, "the container is closed")
				vnd.Reach("loading failed")
			} else {
				vos.Fault = nil
				vnd.Assert(k.sk.Close() == nil, "the key is closed")
			}
		} else {
			vnd.Assert(hit, "opening fails only if something failed")
			vnd.Reach("opening failed")
		}
		vos.Fault = nil
		k.load(no)
	} else {
		k.load(no)
		vos.Fault = fault
		var err Error
		var sig *Signature
		switch op {
		case 1:
			sig, err = k.sk.Sign(vhMsg)
			if err != nil {
				vnd.Assert(sig == nil, "no signature with an error")
			} else {
				vnd.Assert(vnd.Same(vhSigBytes(sig), k.ref(no)), "every signature made is valid")
			}
		case 2:
			err = k.sk.BorrowExactly(2)
		case 3:
			err = k.sk.Close()
		}
		vos.Fault = nil
		if err != nil {
			vnd.Assert(hit, "an operation fails only if something failed")
			vnd.Reach("failed")
		}
		if op == 3 {
			k.load(no)
		}
	}
	// the cause is gone
	for i := 0; i < 2 && uint64(k.sk.SeqNo()) < p.MaxSignatureSeqNo(); i++ {
		k.sign()
	}
	next := k.sk.SeqNo()
	k.close()
	k.load(uint64(next))
	k.close()
	vnd.Reach("done")
}
