package xmssmt

import "github.com/bwesterb/go-xmssmt/internal/vnd"

// What a container keeps on stable storage.
type vhStore struct {
	init     bool
	params   Params
	sk       []byte
	seqNo    uint64
	borrowed uint64
	trees    map[SubTreeAddress][]byte
	noCache  bool // the cache is lost
}

type vhCrash struct{}

// A private key container in memory which behaves as the interface documents
// and fails or crashes where told to.
type vhCtr struct {
	st     *vhStore
	open   bool
	noInit bool // cache not initialized
	calls  int
	failAt [2]int // the call that fails (-1: none)
	effect bool   // whether a failing call takes effect
	crash  int    // the call before which the process dies (-1: never)
	dead   bool
	failed bool // a failure was delivered
	subs   int  // number of GetSubTree calls
	drops  []SubTreeAddress
	onGet  func(a SubTreeAddress)
	onDrop func(a SubTreeAddress)
	fails  func(op string) bool
	order  int // order of ListSubTrees
}

func vhNewCtr(st *vhStore) *vhCtr {
	if st.trees == nil {
		st.trees = map[SubTreeAddress][]byte{}
	}
	return &vhCtr{st: st, open: true, noInit: st.noCache, failAt: [2]int{-1, -1}, crash: -1}
}

// enter counts a call; fail tells that it has to fail, do that it takes
// effect.
func (c *vhCtr) enter(op string) (fail, do bool) {
	if c.dead {
		return true, false
	}
	if c.calls == c.crash {
		c.dead = true
		panic(vhCrash{})
	}
	n := c.calls
	c.calls++
	if n == c.failAt[0] || n == c.failAt[1] || (c.fails != nil && c.fails(op)) {
		c.failed = true
		return true, c.effect
	}
	return false, true
}

var vhErrInjected = errorf("injected failure")

func (c *vhCtr) ResetCache() Error {
	fail, do := c.enter("ResetCache")
	if do {
		c.st.trees = map[SubTreeAddress][]byte{}
		c.st.noCache = false
		c.noInit = false
	}
	if fail {
		return vhErrInjected
	}
	return nil
}

func (c *vhCtr) GetSubTree(a SubTreeAddress) ([]byte, bool, Error) {
	fail, do := c.enter("GetSubTree")
	var buf []byte
	exists := false
	if do {
		buf, exists = c.st.trees[a]
		if !exists {
			buf = make([]byte, c.st.params.CachedSubTreeSize())
			c.st.trees[a] = buf
		}
		if c.onGet != nil {
			c.onGet(a)
		}
	}
	if fail {
		return nil, false, vhErrInjected
	}
	c.subs++
	return buf, exists, nil
}

func (c *vhCtr) HasSubTree(a SubTreeAddress) bool {
	_, ok := c.st.trees[a]
	return ok
}

func (c *vhCtr) DropSubTree(a SubTreeAddress) Error {
	fail, do := c.enter("DropSubTree")
	if do {
		if c.onDrop != nil {
			c.onDrop(a)
		}
		c.drops = append(c.drops, a)
		delete(c.st.trees, a)
	}
	if fail {
		return vhErrInjected
	}
	return nil
}

func (c *vhCtr) ListSubTrees() ([]SubTreeAddress, Error) {
	fail, _ := c.enter("ListSubTrees")
	if fail {
		return nil, vhErrInjected
	}
	var r []SubTreeAddress
	for a := range c.st.trees {
		r = append(r, a)
	}
	return r, nil
}

func (c *vhCtr) Reset(sk []byte, p Params) Error {
	fail, do := c.enter("Reset")
	if do {
		*c.st = vhStore{init: true, params: p, sk: append([]byte(nil), sk...), trees: map[SubTreeAddress][]byte{}}
		c.noInit = false
	}
	if fail {
		return vhErrInjected
	}
	return nil
}

func (c *vhCtr) BorrowSeqNos(n uint32) (SignatureSeqNo, Error) {
	fail, do := c.enter("BorrowSeqNos")
	old := c.st.seqNo
	if do {
		c.st.seqNo += uint64(n)
		c.st.borrowed += uint64(n)
	}
	if fail {
		return 0, vhErrInjected
	}
	return SignatureSeqNo(old), nil
}

func (c *vhCtr) SetSeqNo(s SignatureSeqNo) Error {
	fail, do := c.enter("SetSeqNo")
	if do {
		c.st.seqNo = uint64(s)
		c.st.borrowed = 0
	}
	if fail {
		return vhErrInjected
	}
	return nil
}

func (c *vhCtr) GetSeqNo() (SignatureSeqNo, uint32, Error) {
	fail, _ := c.enter("GetSeqNo")
	if fail {
		return 0, 0, vhErrInjected
	}
	l := c.st.borrowed
	return SignatureSeqNo(c.st.seqNo), uint32(vnd.Ite64(l > 0xffffffff, 0xffffffff, l)), nil
}

func (c *vhCtr) GetPrivateKey() ([]byte, Error) {
	fail, _ := c.enter("GetPrivateKey")
	if fail {
		return nil, vhErrInjected
	}
	return c.st.sk, nil
}

func (c *vhCtr) Initialized() *Params {
	if !c.st.init || !c.open {
		return nil
	}
	p := c.st.params
	return &p
}

func (c *vhCtr) CacheInitialized() bool { return !c.noInit }

func (c *vhCtr) Close() Error {
	fail, do := c.enter("Close")
	if do {
		c.open = false
	}
	if fail {
		return vhErrInjected
	}
	return nil
}
