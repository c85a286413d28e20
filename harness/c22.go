package xmssmt

import (
	"encoding/binary"
	"io"
	"sync"

	"github.com/bwesterb/go-xmssmt/internal/vnd"
	"github.com/cespare/xxhash"
)

// A message that is not there until it is let go.
type vhGate struct {
	started sync.WaitGroup
	gate    sync.Mutex
	done    sync.WaitGroup
	fail    bool // the message cannot be read
	panics  bool // reading it panics
	noTree  bool // a subtree is not available
	sig     *Signature
	failed  bool
	over    bool // it was let go
	read    bool
}

func (g *vhGate) Read(p []byte) (int, error) {
	if !g.read {
		g.read = true
		g.started.Done()
		g.gate.Lock()
	}
	if g.panics {
		panic(vhReadErr{})
	}
	if g.fail {
		return 0, vhReadErr{}
	}
	return 0, io.EOF
}

// vhRetire watches the signatures of one key.
type vhRetire struct {
	p    Params
	sk   *PrivateKey
	ctr  *vhCtr
	base uint64
	sigs []*vhGate

	failing int
}

// span returns the sequence numbers which need the given subtree.
func (r *vhRetire) span(a SubTreeAddress) (lo, hi uint64) {
	s := uint(r.p.FullHeight/r.p.D) * uint(a.Layer+1)
	return a.Tree << s, (a.Tree + 1) << s
}

func (r *vhRetire) dropped(a SubTreeAddress) {
	lo, hi := r.span(a)
	vnd.Assert(hi <= r.base+uint64(len(r.sigs)), "a subtree is dropped only if no later signature needs it")
	for i, g := range r.sigs {
		if !g.over {
			s := r.base + uint64(i)
			vnd.Assert(vnd.Or(s < lo, s >= hi), "a subtree is dropped only when every signature that needs it has finished")
		}
	}
	vnd.Reach("dropped")
}

// start starts a signature.
func (r *vhRetire) start() {
	i := uint(len(r.sigs))
	g := &vhGate{}
	g.noTree = vnd.Param("noTree", 0)>>i&1 == 1
	g.panics = vnd.Param("panics", 0)>>i&1 == 1
	g.fail = r.failing>>i&1 == 1 || g.noTree || g.panics
	g.over = g.noTree
	r.ctr.fails = func(op string) bool { return g.noTree && op == "GetSubTree" }
	g.started.Add(1)
	g.done.Add(1)
	g.gate.Lock()
	r.sigs = append(r.sigs, g)
	go func() {
		defer g.done.Done()
		defer func() {
			if e := recover(); e != nil {
				_, ok := e.(vhReadErr)
				vnd.Assert(ok, "signing does not panic")
				g.failed = true
			}
		}()
		sig, err := r.sk.SignFrom(g)
		g.sig = sig
		g.failed = err != nil
		if !g.read {
			g.started.Done()
		}
	}()
	g.started.Wait()
	if g.noTree {
		g.done.Wait()
		vnd.Assert(g.failed, "signing fails if the container does")
	}
	vnd.Assert(g.read != g.noTree, "the message is read")
	r.check()
}

func (r *vhRetire) finish(i int) {
	g := r.sigs[i]
	g.over = true
	g.gate.Unlock()
	g.done.Wait()
	vnd.Assert(g.failed == g.fail, "signing fails exactly if the message cannot be read")
	if !g.fail {
		vnd.Assert(uint64(g.sig.SeqNo()) == r.base+uint64(i), "sequence numbers are used in order")
	}
	r.check()
}

func (r *vhRetire) open() (n int) {
	for _, g := range r.sigs {
		if !g.over {
			n++
		}
	}
	return
}

func (r *vhRetire) check() {
	vnd.Assert(r.sk.UnretiredSeqNos() == uint32(r.open()), "the unretired sequence numbers are those of the signatures that have not finished")
	vnd.Assert(uint64(r.sk.SeqNo()) == r.base+uint64(len(r.sigs)), "the next sequence number")
}

// idle checks what holds when no signature is being made.
func (r *vhRetire) idle() {
	next := r.base + uint64(len(r.sigs))
	for a := range r.ctr.st.trees {
		_, hi := r.span(a)
		vnd.Assert(vnd.Or(hi > next, hi <= r.base), "a subtree is dropped when the last signature that needs it has finished")
	}
	vnd.Reach("idle")
}

// Overlapping signatures that finish in any order.
func VH_C22_retire() {
	p := vhP()
	vhSetup()
	c := vhCtx2(p)
	n := int(p.N)
	st := &vhStore{}
	r := &vhRetire{p: p}
	m := vnd.Param("signs", 3)
	failing := vnd.Param("failing", 0) // those that fail to read the message
	if vnd.Param("symb", 0) == 1 {
		// Any sequence number.  The subtrees needed are in the cache
		// (with arbitrary contents) and no message can be read.
		r.base = vnd.U64("base")
		if span := uint64(vnd.Param("span", 0)); span != 0 {
			from := uint64(vnd.Param("from", 0))
			vnd.Assume(vnd.And(r.base >= from, r.base < from+span))
		}
		max := p.MaxSignatureSeqNo()
		vnd.SetLazy(false)
		vnd.Assume(r.base <= max-uint64(m))
		*st = vhStore{init: true, params: p, seqNo: r.base, sk: make([]byte, p.PrivateKeySize())}
		r.ctr = vhNewCtr(st)
		tree := func(a SubTreeAddress) {
			b, ok, _ := r.ctr.GetSubTree(a)
			if !ok {
				binary.BigEndian.PutUint64(b[len(b)-8:], xxhash.Sum64(b[:len(b)-8]))
			}
		}
		th := uint(p.FullHeight / p.D)
		for i := uint32(0); i < p.D; i++ {
			s := th * uint(i+1)
			tree(SubTreeAddress{Layer: i, Tree: r.base >> s})
			if (r.base+uint64(m-1))>>s != r.base>>s {
				tree(SubTreeAddress{Layer: i, Tree: (r.base + uint64(m-1)) >> s})
			}
		}
		failing = -1
	} else {
		sk, _, err := c.DeriveInto(vhNewCtr(st), vhPattern(n), vhPattern(n + 1)[1:], vhPattern(n + 2)[2:])
		vnd.Assert(err == nil, "the key is derived")
		vnd.Assert(sk.Close() == nil, "the key is closed")
		r.base = uint64(vnd.Param("idx", 0))
		st.seqNo = r.base
		r.ctr = vhNewCtr(st)
	}
	sk, _, _, err := LoadPrivateKeyFrom(r.ctr)
	vnd.Assert(err == nil, "the key is loaded")
	if vnd.Param("warm", 1) == 1 && failing >= 0 {
		// have the subtrees generated
		sk.SignFrom(&vhReader{fail: 0})
		st.seqNo = r.base
		r.ctr = vhNewCtr(st)
		sk, _, _, err = LoadPrivateKeyFrom(r.ctr)
		vnd.Assert(err == nil, "the key is loaded")
	}
	r.sk = sk
	r.failing = failing
	r.ctr.onDrop = r.dropped
	r.check()
	vnd.SetMerge(false)
	for {
		var todo []int
		for i, g := range r.sigs {
			if !g.over {
				todo = append(todo, i)
			}
		}
		more := len(r.sigs) < m
		if !more && len(todo) == 0 {
			break
		}
		k := len(todo)
		if more {
			k++
		}
		x := 0
		if k > 1 {
			x = vnd.Choose("what", k)
		}
		if x == len(todo) {
			r.start()
		} else {
			r.finish(todo[x])
		}
		if r.open() == 0 {
			r.idle()
		}
	}
	vnd.Assert(sk.Close() == nil, "the key is closed")
	vnd.Reach("done")
}
