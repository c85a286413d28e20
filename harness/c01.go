package xmssmt

import (
	"io"

	"github.com/bwesterb/go-xmssmt/internal/vnd"
	"github.com/bwesterb/go-xmssmt/internal/vstubs/vlockfile"
	"github.com/bwesterb/go-xmssmt/internal/vstubs/vmmap"
	"github.com/bwesterb/go-xmssmt/internal/vstubs/vos"
)

// The history of one key: what was stored, handed out and reported.
type vhHist struct {
	p      Params
	c      *Context
	max    uint64 // the first sequence number that does not fit
	st     *vhStore
	ctr    *vhCtr
	sk     *PrivateKey
	root   []byte
	faults int  // failures left
	faulty bool // a failure was delivered
	crash  bool // crashes may still happen
	symb   bool // an arbitrary amount was borrowed
	gone   bool // the stored number may be an arbitrary one
	fs     *PrivateKeyContainer // the container on the filesystem, when that is used
	dead   bool                 // the process died in an operation on the filesystem
	used   []uint64
	next   uint64 // one more than the largest number a Sign was started for
}

func vhNewHist(p Params) *vhHist {
	h := &vhHist{p: p, c: vhCtx2(p), st: &vhStore{}}
	h.max = p.MaxSignatureSeqNo()
	n := int(p.N)
	var ctr PrivateKeyContainer = vhNewCtr(h.st)
	if vnd.Param("files", 0) == 1 {
		vhFSInit()
		vos.MaxMem = 1 << 19
		c, err := OpenFSPrivateKeyContainer(vhPath)
		vnd.Assert(err == nil, "the container is opened")
		h.fs = &c
		ctr = c
	}
	sk, pk, err := h.c.DeriveInto(ctr, vhPattern(n), vhPattern(n + 1)[1:], vhPattern(n + 2)[2:])
	vnd.Assert(err == nil, "key is derived")
	h.root = append([]byte(nil), pk.root...)
	vnd.Assert(sk.Close() == nil, "key is closed")
	return h
}

// assert states c where property prop (or any) is checked.
func (h *vhHist) assert(prop int, c bool, label string) {
	if o := vnd.Param("prop", 0); o == 0 || o == prop {
		vnd.Assert(c, label)
	}
}

// look notes what the container on the filesystem stores.
func (h *vhHist) look() {
	if h.fs == nil {
		return
	}
	no, lost, err := (*h.fs).GetSeqNo()
	if err != nil {
		return // closed
	}
	h.st.seqNo, h.st.borrowed = uint64(no), uint64(lost)
}

// put stores a next sequence number and record of borrowing.
func (h *vhHist) put(no, lost uint64) {
	h.st.seqNo, h.st.borrowed = no, lost
	if h.fs == nil {
		return
	}
	vlockfile.Init()
	vmmap.Init()
	vos.Fault = nil
	c, err := OpenFSPrivateKeyContainer(vhPath)
	vnd.Assert(err == nil, "the container is opened")
	vnd.Assert(c.SetSeqNo(SignatureSeqNo(no-lost)) == nil, "a sequence number is stored")
	was, err := c.BorrowSeqNos(uint32(lost))
	vnd.Assert(err == nil, "sequence numbers are borrowed")
	h.assert(1, uint64(was) == no-lost, "the first borrowed sequence number")
	vnd.Assert(c.Close() == nil, "the container is closed")
	h.fs = &c
}

// fsFault decides what happens to an operation on the filesystem.
func (h *vhHist) fsFault(op, path string) int {
	if h.dead {
		return 1 // nothing happens after the process died
	}
	if op == "open" || op == "read" || op == "stat" || vhSuffix(path, ".cache") {
		return 0
	}
	all := vnd.Param("allops", 0) == 1
	moves := op == "rename" || op == "syncdir" || op == "remove"
	if h.crash && (all || moves) && vnd.Bool("crash") {
		h.dead = true
		return 1
	}
	if h.faults > 0 && (all || moves || op == "write") && vnd.Bool("fail") {
		h.faults--
		h.faulty = true
		h.ctr.failed = true
		if vnd.Bool("effect") {
			return 2
		}
		return 1
	}
	return 0
}

// open opens the key; reports whether it was refused.
func (h *vhHist) open() (lost uint32, refused bool) {
	h.ctr = vhNewCtr(h.st)
	var ctr PrivateKeyContainer = h.ctr
	if h.fs != nil {
		h.dead = false
		vos.Fault = nil
		vlockfile.Init()
		vmmap.Init()
		c, err := OpenFSPrivateKeyContainer(vhPath)
		vnd.Assert(err == nil, "the container is opened")
		h.fs = &c
		ctr = c
		h.look()
		defer func() { vos.Fault = h.fsFault }()
	}
	sk, pk, lost, err := LoadPrivateKeyFrom(ctr)
	if h.st.seqNo > h.max {
		h.assert(4, err != nil, "a stored sequence number beyond the end is refused")
		h.assert(4, sk == nil, "no key for a stored sequence number beyond the end")
		return 0, true
	}
	vnd.Assert(err == nil, "key is loaded")
	h.assert(3, uint64(sk.SeqNo()) == h.st.seqNo, "next sequence number is the stored one")
	vnd.Assert(vnd.Same(pk.root, h.root), "the same key is loaded")
	h.assert(3, sk.BorrowedSeqNos() == 0, "a loaded key has borrowed nothing")
	h.sk = sk
	h.ctr.fails = h.fault
	return lost, false
}

// fault decides what happens to a call to the container.
func (h *vhHist) fault(op string) bool {
	if op == "GetSubTree" || op == "DropSubTree" || op == "ListSubTrees" {
		return false
	}
	if h.crash && vnd.Bool("crash") {
		h.ctr.dead = true
		panic(vhCrash{})
	}
	if h.faults > 0 && vnd.Bool("fail") {
		h.faults--
		h.faulty = true
		h.ctr.effect = vnd.Bool("effect")
		return true
	}
	return false
}

// try runs f; reports whether the process died in it.
func (h *vhHist) try(f func()) (crashed bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(vhCrash); !ok {
				panic(r)
			}
			crashed = true
		}
	}()
	f()
	if h.dead {
		vos.Fault = nil
		if vnd.Param("power", 0) == 1 && vnd.Choose("power", 2) == 1 {
			// not just the process
			(&vhFS{}).powerLoss()
		}
		return true
	}
	h.look()
	return
}

func (h *vhHist) sign(msg io.Reader) bool {
	no := uint64(h.sk.SeqNo())
	stored := h.st.seqNo
	h.next = vnd.Ite64(no+1 > h.next, no+1, h.next)
	var sig *Signature
	var err error
	if h.try(func() {
		s, e := h.sk.SignFrom(msg)
		sig = s
		if e != nil {
			err = e
		}
	}) {
		return true
	}
	if no >= h.max {
		h.next = vnd.Ite64(h.next > h.max, h.max, h.next)
		h.assert(4, err != nil, "signing at the end of the key is refused")
		h.assert(4, sig == nil, "no signature at the end of the key")
		h.assert(4, h.st.seqNo == stored, "the stored state stays when signing is refused")
		h.assert(4, uint64(h.sk.SeqNo()) == no, "the sequence number stays when signing is refused")
		vnd.Reach("exhausted")
		return false
	}
	if sig == nil {
		h.assert(4, err != nil, "signing fails with an error")
		h.assert(4, h.ctr.failed, "signing fails only if something failed")
		return false
	}
	h.assert(4, err == nil, "no error with a signature")
	s := uint64(sig.SeqNo())
	h.assert(1, s == no, "the signature has the announced sequence number")
	h.assert(4, s < uint64(1)<<uint(h.p.FullHeight), "the sequence number fits the tree")
	for _, u := range h.used {
		h.assert(1, s != u, "a sequence number is never used twice")
	}
	h.assert(1, h.st.seqNo > s, "the container stores a larger sequence number than the one used")
	h.used = append(h.used, s)
	vnd.Reach("signed")
	return false
}

type vhEmpty struct{}

func (vhEmpty) Read(p []byte) (int, error) { return 0, io.EOF }

func (h *vhHist) amount(label string) uint32 {
	if m := vnd.Param("amounts", 0); m > 0 {
		return uint32(vnd.Choose(label, m))
	}
	h.symb = true
	return vnd.U32(label)
}

func (h *vhHist) borrow(ifBelow bool) bool {
	a := h.amount("amount")
	had := h.sk.BorrowedSeqNos()
	no := h.sk.SeqNo()
	thr := uint32(0)
	if ifBelow {
		thr = h.amount("threshold")
	}
	var err error
	f := h.ctr.failed
	h.ctr.failed = false
	if h.try(func() {
		var e Error
		if ifBelow {
			e = h.sk.BorrowExactlyIfBelow(a, thr)
		} else {
			e = h.sk.BorrowExactly(a)
		}
		if e != nil {
			err = e
		}
	}) {
		return true
	}
	if h.fs == nil || err != nil {
		h.assert(3, (err != nil) == h.ctr.failed, "borrowing fails exactly if the container does")
	}
	h.ctr.failed = h.ctr.failed || f
	h.assert(1, h.sk.SeqNo() == no, "borrowing leaves the next sequence number alone")
	if err != nil {
		return false
	}
	if ifBelow && had > thr {
		h.assert(3, h.sk.BorrowedSeqNos() == had, "nothing is borrowed when enough numbers are")
		return false
	}
	b := h.sk.BorrowedSeqNos()
	left := h.max - uint64(no)
	h.assert(3, vnd.Or(b == a, vnd.And(uint64(b) == left, uint64(a) > left)), "exactly the given number is borrowed, or what is left")
	if !h.faulty {
		h.assert(4, h.st.seqNo <= h.max, "nothing beyond the end of the key is borrowed")
		h.assert(1, h.st.seqNo == uint64(no)+uint64(b), "the borrowed numbers are recorded")
	}
	return false
}

// reopen opens the key after a crash (or a close that failed).
func (h *vhHist) reopen() (refused bool) {
	h.gone = h.symb
	lost, refused := h.open()
	if refused {
		h.assert(4, h.faulty, "the key stays usable")
		return true
	}
	for _, u := range h.used {
		h.assert(1, uint64(h.sk.SeqNo()) > u, "a reopened key continues after the numbers used")
	}
	// reserved but never used: from next to what is stored
	res := uint64(0)
	if uint64(h.sk.SeqNo()) > h.next {
		res = uint64(h.sk.SeqNo()) - h.next
	}
	h.assert(3, vnd.Or(uint64(lost) >= res, lost == 0xffffffff), "lost signatures are not under-reported")
	h.next = uint64(h.sk.SeqNo())
	vnd.Reach("reopened")
	return false
}

func (h *vhHist) close() (crashed bool) {
	no := h.sk.SeqNo()
	var err error
	f := h.ctr.failed
	h.ctr.failed = false
	if h.try(func() {
		if e := h.sk.Close(); e != nil {
			err = e
		}
	}) {
		return true
	}
	if h.fs == nil || err != nil {
		h.assert(3, (err != nil) == h.ctr.failed, "closing fails exactly if the container does")
	}
	h.ctr.failed = h.ctr.failed || f
	if err != nil {
		// the container on the filesystem might be closed
		return h.fs != nil && (*h.fs).Initialized() == nil
	}
	if h.fs == nil {
		h.assert(3, !h.ctr.open, "the container is closed")
	}
	lost, refused := h.open()
	h.assert(3, !refused, "a closed key is loaded again")
	h.assert(3, lost == 0, "nothing is lost after a proper close")
	h.assert(3, h.sk.SeqNo() == no, "the number after the last one used follows after a proper close")
	vnd.Reach("closed")
	return false
}

// Any history of the given number of operations, starting with any stored
// sequence number and any record of earlier borrowing.
func VH_C01_history() {
	p := vhP()
	vhSetup()
	h := vhNewHist(p)
	vnd.SetMerge(false)
	var no uint64
	if i := vnd.Param("idx", -1); i >= 0 {
		no = uint64(i)
	} else {
		no = vnd.U64("seqNo")
		if vnd.Param("beyond", 0) == 0 {
			vnd.Assume(no <= h.max)
		}
	}
	record := uint64(vnd.U32("record"))
	h.put(no, record)
	h.next = no
	lost, refused := h.open()
	h.assert(1, vnd.And(h.st.seqNo == no), "the stored sequence number is read back")
	h.assert(3, vnd.And(h.st.borrowed == record), "the record of borrowing is read back")
	if refused {
		vnd.Reach("refused")
		return
	}
	if vnd.Param("warm", 0) == 1 && no < h.max {
		// fill the cache
		h.sk.SignFrom(vhEmpty{})
		h.put(no, record)
		lost, _ = h.open()
	}
	h.assert(3, lost == uint32(vnd.Ite64(h.st.borrowed > 0xffffffff, 0xffffffff, h.st.borrowed)), "the record of lost signatures is reported")
	h.faults = vnd.Param("faults", 1)
	h.crash = vnd.Param("crash", 1) == 1
	// without signing for an arbitrary sequence number
	first := vnd.Param("first", 0)
	ops := vnd.Param("ops", 3)
	for i := ops; i > 0; i-- {
		var crashed bool
		op := first
		if o := vnd.Param([]string{"op0", "op1", "op2", "op3"}[ops-i], -1); o >= 0 {
			op = o
		} else {
			op += vnd.Choose("op", 5-first)
		}
		switch op {
		case 0:
			if h.gone {
				return // signing at an arbitrary number: see the runs with chosen amounts
			}
			crashed = h.sign(vhEmpty{})
		case 1:
			crashed = h.borrow(false)
		case 2:
			crashed = h.close()
		case 3:
			crashed = true
		case 4:
			crashed = h.borrow(true)
		}
		if crashed {
			h.crash = false
			if h.reopen() {
				return
			}
		}
	}
	// and the final state is sound as well
	h.ctr.fails = nil
	h.crash = false
	h.faults = 0
	h.reopen()
}
