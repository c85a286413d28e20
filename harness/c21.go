package xmssmt

import (
	"errors"

	"github.com/bwesterb/go-xmssmt/internal/vnd"
	"github.com/bwesterb/go-xmssmt/internal/vstubs/vlockfile"
	"github.com/bwesterb/go-xmssmt/internal/vstubs/vos"
)

const vhLock = vhPath + ".lock"

// vhStored puts a key on the disk.
func vhStored(p Params) vhKeyState {
	c, err := OpenFSPrivateKeyContainer(vhPath)
	vnd.Assert(err == nil, "an empty container is opened")
	sk := vnd.Bytes("sk", int(3*p.N))
	vnd.Assert(c.Reset(append([]byte(nil), sk...), p) == nil, "a key is stored")
	s, b := vnd.U64("seqNo"), vnd.U32("lent")
	vnd.Assert(c.SetSeqNo(SignatureSeqNo(s)) == nil, "a sequence number is stored")
	_, err = c.BorrowSeqNos(b)
	vnd.Assert(err == nil, "sequence numbers are borrowed")
	if vnd.Param("tree", 1) == 1 {
		_, _, err = c.GetSubTree(SubTreeAddress{0, 1})
		vnd.Assert(err == nil, "a subtree is cached")
	}
	vnd.Assert(c.Close() == nil, "the container is closed")
	return vhKeyState{false, p, sk, s + uint64(b), uint64(b)}
}

type vhLockFail struct {
	faults int
	hit    bool
	busy   bool
	lock   bool // only the lock fails
	stuck  bool // releasing the lock failed
}

func (f *vhLockFail) lockOp(op, path string) error {
	if f.faults == 0 || !vnd.Bool("lockFails") {
		return nil
	}
	f.faults--
	f.hit = true
	f.stuck = f.stuck || op == "unlock"
	switch vnd.Choose("how", 3) {
	case 0:
		f.busy = op == "trylock"
		return vlockfile.ErrBusy
	case 1:
		return vlockfile.ErrInvalidPid
	}
	return errors.New("input/output error")
}

func (f *vhLockFail) fsOp(op, path string) int {
	if f.faults == 0 || f.lock || !vnd.Bool("fail") {
		return 0
	}
	f.faults--
	f.hit = true
	return 1
}

func (f *vhLockFail) arm() {
	vlockfile.Fault = f.lockOp
	vos.Fault = f.fsOp
}

func (f *vhLockFail) disarm() {
	vlockfile.Fault = nil
	vos.Fault = nil
}

// vhClosed checks that a closed container does nothing.
func vhClosed(c PrivateKeyContainer) {
	before := vhDisk()
	vnd.Assert(c.Initialized() == nil, "a closed container is not initialized")
	vnd.Assert(!c.CacheInitialized(), "a closed container has no cache")
	_, err := c.GetPrivateKey()
	vnd.Assert(err != nil, "a closed container does not give the private key")
	_, _, err = c.GetSeqNo()
	vnd.Assert(err != nil, "a closed container does not give the sequence number")
	_, err = c.BorrowSeqNos(vnd.U32("amount"))
	vnd.Assert(err != nil, "a closed container lends no sequence numbers")
	vnd.Assert(c.SetSeqNo(SignatureSeqNo(vnd.U64("no"))) != nil, "a closed container records no sequence number")
	vnd.Assert(c.Reset(make([]byte, 48), vhParams2(0)) != nil, "a closed container stores no key")
	vnd.Assert(c.ResetCache() != nil, "a closed container makes no cache")
	_, _, err = c.GetSubTree(SubTreeAddress{0, 1})
	vnd.Assert(err != nil, "a closed container gives no subtree")
	_, err = c.ListSubTrees()
	vnd.Assert(err != nil, "a closed container lists no subtrees")
	vnd.Assert(!c.HasSubTree(SubTreeAddress{0, 1}), "a closed container has no subtrees")
	c.DropSubTree(SubTreeAddress{0, 1})
	vnd.Assert(vnd.Same(vhDisk(), before), "a closed container changes nothing")
}

func vhDisk() (d []byte) {
	for _, s := range []string{"", ".tmp", ".cache"} {
		if ino := vos.Lookup(vhPath + s); ino != nil {
			d = append(d, 1)
			d = append(d, ino.Data...)
		} else {
			d = append(d, 0)
		}
	}
	return
}

// Opening and closing a container.
func VH_C21_open() {
	vnd.SetMerge(false)
	vhFSInit()
	var want vhKeyState
	want.none = true
	if vnd.Param("key", 1) == 1 {
		want = vhStored(vhParams2(vnd.Param("ps", 0)))
	}
	other := vnd.Bool("other")
	vlockfile.SetOther(vhLock, other)
	f := &vhLockFail{faults: vnd.Param("faults", 1)}
	locks, unlocks := vlockfile.Locks, vlockfile.Unlocks
	f.arm()
	c, err := OpenFSPrivateKeyContainer(vhPath)
	f.disarm()
	if err != nil {
		vnd.Assert(c == nil, "no container with an error")
		vnd.Assert(f.hit || other, "opening fails only if the lock or the filesystem does")
		if f.stuck {
			return
		}
		vnd.Assert(!vlockfile.Held(vhLock), "the lock is not kept if opening fails")
		if f.busy || other && !f.hit {
			vnd.Assert(err.Locked(), "the error tells that the key is locked")
			vnd.Reach("locked")
		}
		vnd.Assert(vlockfile.Locks-locks == vlockfile.Unlocks-unlocks, "the lock is released as often as it was acquired")
		vlockfile.SetOther(vhLock, false)
		c, err = OpenFSPrivateKeyContainer(vhPath)
		vnd.Assert(err == nil, "the key can be opened once the failure is gone")
		vnd.Reach("refused")
	} else {
		vnd.Assert(c != nil, "a container without an error")
		vnd.Assert(!other, "a key locked by another process is not opened")
	}
	vnd.Assert(vlockfile.Held(vhLock), "an open container holds the lock")
	vnd.Assert(vhRead(c).same(want), "what was stored is read")
	if f.faults == 0 {
		f.faults = vnd.Param("faults2", 1)
	}
	f.hit, f.busy = false, false
	unlocks = vlockfile.Unlocks
	f.arm()
	err = c.Close()
	f.disarm()
	if !f.hit {
		vnd.Assert(err == nil, "the container is closed")
	}
	if err == nil {
		vnd.Assert(!vlockfile.Held(vhLock), "closing releases the lock")
		vnd.Assert(vlockfile.Unlocks == unlocks+1, "closing releases the lock once")
		vnd.Reach("closed")
	}
	vhClosed(c)
	if !vlockfile.Held(vhLock) {
		// closing again does not take the lock from a later owner
		d, err := OpenFSPrivateKeyContainer(vhPath)
		vnd.Assert(err == nil, "the key can be opened again")
		c.Close()
		vnd.Assert(vlockfile.Held(vhLock), "closing a container twice does not release the lock of another one")
		vnd.Assert(vhRead(d).same(want), "what was stored is read")
	}
}

func vhOn(g func(c PrivateKeyContainer) Error) {
	c, err := OpenFSPrivateKeyContainer(vhPath)
	vnd.Assert(err == nil, "the container is opened")
	vnd.Assert(g(c) == nil, "the container is changed")
	vnd.Assert(c.Close() == nil, "the container is closed")
}

// Failing to derive or load a key releases the lock.
func VH_C21_load() {
	vnd.SetMerge(false)
	vhFSInit()
	vos.MaxMem = 1 << 17
	p := vhP()
	n := int(p.N)
	c := vhCtx2(p)
	seed, skSeed, skPrf := vhPattern(n + 2)[2:], vhPattern(n), vhPattern(n + 1)[1:]
	f := &vhLockFail{faults: 1}
	if vnd.Param("derive", 0) == 1 {
		if vnd.Bool("short") {
			skPrf = skPrf[1:]
			f.hit = true
			f.faults = 0
		}
		f.arm()
		sk, pk, err := c.Derive(vhPath, seed, skSeed, skPrf)
		f.disarm()
		if err != nil {
			vnd.Assert(sk == nil && pk == nil, "no key with an error")
			vnd.Assert(f.hit, "deriving fails only if something failed")
			vnd.Assert(!vlockfile.Held(vhLock), "the lock is not kept if deriving fails")
			vnd.Reach("failed")
			return
		}
		vnd.Assert(vlockfile.Held(vhLock), "a key holds the lock")
		vnd.Assert(sk.Close() == nil, "the key is closed")
		vnd.Assert(!vlockfile.Held(vhLock), "closing the key releases the lock")
		return
	}
	sk, _, err := c.Derive(vhPath, seed, skSeed, skPrf)
	vnd.Assert(err == nil, "the key is derived")
	vnd.Assert(sk.Close() == nil, "the key is closed")
	switch vnd.Choose("damage", 4) {
	case 1:
		vos.Forget(vhPath + ".cache")
	case 2: // layers that do not fit
		q := p
		q.FullHeight, q.D = 3, 2
		vhOn(func(c PrivateKeyContainer) Error { return c.Reset(make([]byte, 3*n), q) })
		f.hit = true
	case 3: // too large a number
		vhOn(func(c PrivateKeyContainer) Error { return c.SetSeqNo(1 << 40) })
		f.hit = true
	}
	if f.hit {
		f.faults = 0
	}
	f.arm()
	sk, pk, _, err := LoadPrivateKey(vhPath)
	f.disarm()
	if err != nil {
		vnd.Assert(sk == nil && pk == nil, "no key with an error")
		vnd.Assert(f.hit, "loading fails only if something failed")
		vnd.Assert(!vlockfile.Held(vhLock), "the lock is not kept if loading fails")
		vnd.Reach("failed")
		return
	}
	vnd.Assert(vlockfile.Held(vhLock), "a key holds the lock")
	vnd.Assert(sk.Close() == nil, "the key is closed")
	vnd.Assert(!vlockfile.Held(vhLock), "closing the key releases the lock")
	vnd.Reach("loaded")
}
