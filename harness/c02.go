package xmssmt

import (
	"github.com/bwesterb/go-xmssmt/internal/vnd"
	"github.com/bwesterb/go-xmssmt/internal/vstubs/vlockfile"
	"github.com/bwesterb/go-xmssmt/internal/vstubs/vmmap"
	"github.com/bwesterb/go-xmssmt/internal/vstubs/vos"
)

const vhPath = "/v/key"

func vhFSInit() {
	vos.Init()
	vmmap.Init()
	vlockfile.Init()
}

// What a key file stores.
type vhKeyState struct {
	none     bool
	p        Params
	sk       []byte
	seqNo    uint64
	borrowed uint64
}

type vhFS struct {
	faults int
	crash  bool
	hit    bool
	only   string // fail only operations on files with this ending
	c      *PrivateKeyContainer
	cur    vhKeyState
	alts   []vhKeyState // what else may be on the disk
}

func vhSuffix(s, t string) bool { return len(s) >= len(t) && s[len(s)-len(t):] == t }

func (f *vhFS) fault(op, path string) int {
	if f.crash && vnd.Bool("crash") {
		f.crash = false
		panic(vhCrash{})
	}
	if f.faults > 0 && vnd.Bool("fail") {
		f.faults--
		f.hit = true
		switch op {
		case "create", "write", "sync", "syncdir", "rename", "remove", "truncate", "link":
			if vnd.Bool("effect") {
				return 2
			}
		}
		return 1
	}
	return 0
}

// powerLoss is the state of the disk after a crash.
func (f *vhFS) powerLoss() {
	vos.Crash(func(n int) int { return vnd.Choose("kept", n+1) }, func(path string, ino *vos.Inode) []byte {
		if vhSuffix(path, ".cache") {
			// not what is examined here (see C19)
			if vnd.Choose("cache", 2) == 0 {
				return ino.Data
			}
			return ino.Dur
		}
		n := len(ino.Data)
		if len(ino.Dur) > n {
			n = len(ino.Dur)
		}
		ls := []int{n, n / 2, 0}
		return vnd.Bytes("torn", ls[vnd.Choose("tornLen", 3)])
	})
	vlockfile.Init()
	vmmap.Init()
}

// try runs g; reports whether the process died in it.
func (f *vhFS) try(g func()) (crashed bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(vhCrash); !ok {
				panic(r)
			}
			crashed = true
		}
	}()
	f.hit = false
	vos.Fault = f.fault
	g()
	vos.Fault = nil
	return
}

// read gives the state a container reports.
func vhRead(c PrivateKeyContainer) (s vhKeyState) {
	p := c.Initialized()
	if p == nil {
		s.none = true
		return
	}
	s.p = *p
	sk, err := c.GetPrivateKey()
	vnd.Assert(err == nil, "the private key can be read")
	s.sk = append([]byte(nil), sk...)
	no, lost, err := c.GetSeqNo()
	vnd.Assert(err == nil, "the sequence number can be read")
	s.seqNo, s.borrowed = uint64(no), uint64(lost)
	return
}

func (s vhKeyState) same(t vhKeyState) bool {
	if s.none || t.none {
		return s.none == t.none
	}
	if len(s.sk) != len(t.sk) {
		return false
	}
	return vnd.And(s.p.Func == t.p.Func, s.p.N == t.p.N, s.p.FullHeight == t.p.FullHeight, s.p.D == t.p.D,
		s.p.WotsW == t.p.WotsW, s.p.Prf == t.p.Prf, vnd.Same(s.sk, t.sk), s.seqNo == t.seqNo, s.borrowed == t.borrowed)
}

// do runs an operation that leads to the state next.
func (f *vhFS) do(op func() Error, next vhKeyState) (crashed bool) {
	var err error
	crashed = f.try(func() {
		if e := op(); e != nil {
			err = e
		}
	})
	if crashed {
		f.alts = append(f.alts, next)
		return true
	}
	if err != nil {
		vnd.Assert(f.hit, "updating the key file fails only if the filesystem does")
		now := vhRead(*f.c)
		f.alts = append(f.alts, f.cur, next)
		f.check(now)
		f.cur = now
		vnd.Reach("failed")
		return false
	}
	f.cur = next
	f.alts = nil
	vnd.Reach("updated")
	return false
}

func vhParams2(k int) Params {
	ps := []Params{{SHA2, 16, 2, 1, 4, RFC}, {SHAKE, 32, 4, 2, 16, NIST}, {SHAKE256, 24, 10, 5, 4, RFC}}
	return ps[k]
}

// The key file through updates that fail and crashes.
func VH_C02_crash() {
	vnd.SetMerge(false)
	vhFSInit()
	f := &vhFS{}
	f.cur.none = true
	c, err := OpenFSPrivateKeyContainer(vhPath)
	vnd.Assert(err == nil, "an empty container is opened")
	f.c = &c
	vnd.Assert(c.Initialized() == nil, "an empty container is not initialized")
	if vnd.Param("new", 0) == 0 {
		p := vhParams2(vnd.Param("ps", 0))
		sk := vnd.Bytes("sk", int(3*p.N))
		vnd.Assert(c.Reset(append([]byte(nil), sk...), p) == nil, "a key is stored")
		s := vnd.U64("seqNo")
		vnd.Assert(c.SetSeqNo(SignatureSeqNo(s)) == nil, "a sequence number is stored")
		b := vnd.U32("lent")
		old, err := c.BorrowSeqNos(b)
		vnd.Assert(err == nil, "sequence numbers are borrowed")
		vnd.Assert(uint64(old) == s, "the first borrowed sequence number")
		f.cur = vhKeyState{false, p, sk, s + uint64(b), uint64(b)}
	}
	f.crash = vnd.Param("crash", 1) == 1
	f.faults = vnd.Param("faults", 1)
	ops := vnd.Param("ops", 1)
	crashed := false
	for i := 0; i < ops && !crashed; i++ {
		op := vnd.Param("op", -1)
		if op < 0 || i > 0 {
			op = vnd.Choose("op", 4)
		}
		if f.cur.none {
			op = 2
		}
		next := f.cur
		switch op {
		case 0:
			next.seqNo = vnd.U64("newSeqNo")
			next.borrowed = 0
			crashed = f.do(func() Error { return c.SetSeqNo(SignatureSeqNo(next.seqNo)) }, next)
		case 1:
			a := vnd.U32("amount")
			next.seqNo += uint64(a)
			next.borrowed += uint64(a)
			next.borrowed = vnd.Ite64(next.borrowed > 0xffffffff, 0xffffffff, next.borrowed)
			old := f.cur.seqNo
			crashed = f.do(func() Error {
				no, err := c.BorrowSeqNos(a)
				if err == nil {
					vnd.Assert(uint64(no) == old, "the first borrowed sequence number")
				}
				return err
			}, next)
		case 2:
			next.none = false
			next.p = vhParams2(vnd.Param("ps2", 0))
			next.sk = vnd.Bytes("newSk", int(3*next.p.N))
			next.seqNo, next.borrowed = 0, 0
			crashed = f.do(func() Error { return c.Reset(append([]byte(nil), next.sk...), next.p) }, next)
		case 3:
			crashed = f.try(func() { c.Close() })
			if !crashed {
				if f.hit {
					vlockfile.Init()
				}
				c = f.reopen()
				if len(f.alts) == 0 {
					vnd.Assert(vhRead(c).same(f.cur), "a reported update is read back")
				}
				s := vhRead(c)
				f.check(s)
				// an update that failed might be seen now and be lost later
				f.alts = append(f.alts, f.cur)
				f.cur = s
			}
		}
		if !crashed && len(f.alts) == 0 {
			vnd.Assert(vhRead(c).same(f.cur), "the container reports what was stored")
		}
	}
	if crashed || vnd.Bool("powerLoss") {
		f.powerLoss()
		vnd.Reach("crashed")
	} else {
		vlockfile.Init()
	}
	c = f.reopen()
	f.check(vhRead(c))
	vnd.Reach("reopened")
}

func (f *vhFS) reopen() PrivateKeyContainer {
	c, err := OpenFSPrivateKeyContainer(vhPath)
	vnd.Assert(err == nil, "the key can be opened again")
	return c
}

func (f *vhFS) check(s vhKeyState) {
	ok := s.same(f.cur)
	for _, a := range f.alts {
		ok = vnd.Or(ok, s.same(a))
	}
	vnd.Assert(ok, "the key file holds the state before or after the update")
}
