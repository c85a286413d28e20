package xmssmt

import (
	"encoding/binary"

	"github.com/bwesterb/go-xmssmt/internal/vnd"
	"github.com/bwesterb/go-xmssmt/internal/vstubs/vlockfile"
	"github.com/bwesterb/go-xmssmt/internal/vstubs/vmmap"
	"github.com/bwesterb/go-xmssmt/internal/vstubs/vos"
	"github.com/cespare/xxhash"
)

// A container that tells when it hands out a subtree, and does nothing more
// once the process is dead.
type vhWatch struct {
	PrivateKeyContainer
	got  func(a SubTreeAddress, buf []byte, exists bool)
	dead bool
}

func (w *vhWatch) GetSubTree(a SubTreeAddress) ([]byte, bool, Error) {
	if w.dead {
		return nil, false, vhErrInjected
	}
	buf, exists, err := w.PrivateKeyContainer.GetSubTree(a)
	if err == nil && w.got != nil {
		w.got(a, buf, exists)
		if w.dead {
			return nil, false, vhErrInjected
		}
	}
	return buf, exists, err
}

func (w *vhWatch) DropSubTree(a SubTreeAddress) Error {
	if w.dead {
		return vhErrInjected
	}
	return w.PrivateKeyContainer.DropSubTree(a)
}

func (w *vhWatch) SetSeqNo(n SignatureSeqNo) Error {
	if w.dead {
		return vhErrInjected
	}
	return w.PrivateKeyContainer.SetSeqNo(n)
}

// A key in a file and the reference for it.
type vhKeyRef struct {
	p                   Params
	skSeed, skPrf, seed []byte
	root                []byte
	w                   *vhWatch
	sk                  *PrivateKey
	pk                  *PublicKey
	refs                map[uint64][]byte
	crashed             bool
}

func vhNewKeyRef(p Params) *vhKeyRef {
	n := int(p.N)
	k := &vhKeyRef{p: p, skSeed: vhPattern(n), skPrf: vhPattern(n + 1)[1:], seed: vhPattern(n + 2)[2:]}
	k.root = rfRoot(p, k.skSeed, k.seed)
	k.refs = map[uint64][]byte{}
	return k
}

var vhMsg = []byte{1, 2, 3}

func (k *vhKeyRef) ref(no uint64) []byte {
	if k.refs[no] == nil {
		k.refs[no] = append(vhHeader(k.p), rfSign(k.p, k.skSeed, k.skPrf, k.seed, k.root, no, vhMsg)...)
	}
	return k.refs[no]
}

// derive stores the key in a file.
func (k *vhKeyRef) derive() {
	c, err := OpenFSPrivateKeyContainer(vhPath)
	vnd.Assert(err == nil, "a container is opened")
	k.w = &vhWatch{PrivateKeyContainer: c}
	k.sk, k.pk, err = vhCtx2(k.p).DeriveInto(k.w, k.seed, k.skSeed, k.skPrf)
	vnd.Assert(err == nil, "a key is derived")
	vnd.Assert(vnd.Same(k.pk.root, k.root), "the derived key is the right one")
}

// load opens the key again.
func (k *vhKeyRef) load(no uint64) {
	c, err := OpenFSPrivateKeyContainer(vhPath)
	vnd.Assert(err == nil, "the key can be opened whatever happened to its cache")
	k.w = &vhWatch{PrivateKeyContainer: c}
	var lost uint32
	k.sk, k.pk, lost, err = LoadPrivateKeyFrom(k.w)
	vnd.Assert(err == nil, "the key can be loaded whatever happened to its cache")
	vnd.Assert(lost == 0, "no signatures are lost with the cache")
	vnd.Assert(uint64(k.sk.SeqNo()) == no, "the next sequence number is the stored one")
	vnd.Assert(vnd.Same(k.pk.root, k.root), "the public key is the same whatever happened to the cache")
}

func (k *vhKeyRef) close() {
	vnd.Assert(k.sk.Close() == nil, "the key is closed")
}

// sign makes the next signature and compares it.
func (k *vhKeyRef) sign() {
	no := uint64(k.sk.SeqNo())
	sig, err := k.sk.Sign(vhMsg)
	vnd.Assert(err == nil, "signing succeeds whatever happened to the cache")
	vnd.Assert(uint64(sig.SeqNo()) == no, "the announced sequence number is used")
	vnd.Assert(vnd.Same(vhSigBytes(sig), k.ref(no)), "the signature is the same whatever happened to the cache")
	vnd.Reach("signed")
}

// vhSlots finds the entries of the cache file.
func vhSlots(d []byte, p Params) (off []int) {
	if len(d) < 17 {
		return
	}
	size := (p.CachedSubTreeSize() + 13 + 4095) / 4096 * 4096
	for o := 4096; o+size <= len(d); o += size {
		off = append(off, o)
	}
	return
}

// vhDamage damages the cache file.
func vhDamage(p Params, kinds int) {
	cache := vhPath + ".cache"
	ino := vos.Lookup(cache)
	d := ino.Data
	switch kinds {
	case 0: // kept
	case 1: // lost
		vos.Forget(cache)
	case 2: // truncated
		ls := []int{0, 7, 8, 16, 17, 4095, 4096, 4097, 4100, 4096 + 13, len(d) - 4096, len(d) - 4095, len(d) - 1}
		n := ls[vnd.Choose("len", len(ls))]
		vnd.Assume(n <= len(d))
		ino.Data = d[:n:n]
	case 3: // an arbitrary header
		i := vnd.Choose("hdrByte", 8+1)
		if i == 8 {
			i = 12
		}
		d[i] = vnd.U8("hdr")
	case 4: // another number of entries
		v := []uint32{0, 1, uint32(len(vhSlots(d, p))) - 1, uint32(len(vhSlots(d, p))) + 1, 0x7fffffff, 0xffffffff}
		binary.BigEndian.PutUint32(d[8:], v[vnd.Choose("allocated", len(v))])
	case 5: // another alignment
		v := []uint32{0, 1, 12, 13, 16, 17, 512, 1000, 4095, 8192, 0x7fffffff, 0xffffffff}
		binary.BigEndian.PutUint32(d[13:], v[vnd.Choose("align", len(v))])
	case 6: // the original version
		if vnd.Bool("version1") {
			copy(d, []byte{0xe7, 0x79, 0x57, 0x60, 0x7e, 0xf7, 0x94, 0x46})
		}
		d[12] = 0
	case 7: // a damaged entry
		s := vhSlots(d, p)
		vnd.Assume(len(s) > 0)
		e := s[vnd.Choose("entry", len(s))] + 13
		body := d[e : e+p.CachedSubTreeSize()]
		n := len(body)
		at := []int{0, n / 4, n / 2, n - 24, n - 16, n - 8}
		copy(body[at[vnd.Choose("at", len(at))]:], vnd.Bytes("junk", 8))
		vnd.Assume(binary.BigEndian.Uint64(body[n-8:]) != xxhash.Sum64(body[:n-8]))
		vnd.Reach("damaged")
	case 8: // freed entries
		for _, o := range vhSlots(d, p) {
			if vnd.Bool("free") {
				d[o] = 0
			}
		}
	case 9: // every entry damaged
		for _, o := range vhSlots(d, p) {
			body := d[o+13 : o+13+p.CachedSubTreeSize()]
			n := len(body)
			copy(body[n-8:], vnd.Bytes("junk", 8))
			vnd.Assume(binary.BigEndian.Uint64(body[n-8:]) != xxhash.Sum64(body[:n-8]))
		}
	case 10: // the cache cannot be read
		vos.Fault = func(op, path string) int {
			if op == "open" && vhSuffix(path, ".cache") || op == "read" && vhSuffix(path, ".cache") {
				return 1
			}
			return 0
		}
	}
}

// Signing with a cache that was kept, lost or damaged.
func VH_C19_cache() {
	vnd.SetMerge(false)
	vhFSInit()
	vos.MaxMem = 1 << 17
	k := vhNewKeyRef(vhP())
	k.derive()
	no := uint64(vnd.Param("idx", 0))
	if no > 0 {
		k.close()
		c, err := OpenFSPrivateKeyContainer(vhPath)
		vnd.Assert(err == nil, "the key is opened")
		vnd.Assert(c.SetSeqNo(SignatureSeqNo(no)) == nil, "a sequence number is stored")
		vnd.Assert(c.Close() == nil, "the key is closed")
		k.load(no)
	}
	n := vnd.Param("signs", 1)
	for i := 0; i < n; i++ {
		k.sign()
		no++
	}
	k.close()
	for i := 0; i <= n; i++ {
		k.ref(no + uint64(i))
	}
	for i := 0; i < vnd.Param("rounds", 1); i++ {
		kind := vnd.Param("kind", -1)
		if kind < 0 {
			kind = vnd.Choose("kind", 11)
		}
		vhDamage(k.p, kind)
		k.load(no)
		vos.Fault = nil
		for i := 0; i < vnd.Param("after", 2); i++ {
			k.sign()
			no++
		}
		k.close()
		vnd.Reach("done")
	}
}

// A crash while a subtree is being generated.
func VH_C19_crash() {
	vnd.SetMerge(false)
	vhFSInit()
	vos.MaxMem = 1 << 17
	k := vhNewKeyRef(vhP())
	k.derive()
	no := uint64(vnd.Param("idx", 0))
	if no > 0 {
		k.close()
		c, err := OpenFSPrivateKeyContainer(vhPath)
		vnd.Assert(err == nil, "the key is opened")
		vnd.Assert(c.SetSeqNo(SignatureSeqNo(no)) == nil, "a sequence number is stored")
		vnd.Assert(c.Close() == nil, "the key is closed")
		k.load(no)
	}
	n := vnd.Param("signs", 1)
	for i := 0; i < n; i++ {
		k.sign()
		no++
	}
	for i := 0; i < 3; i++ {
		k.ref(no + uint64(i))
	}
	kill := false
	k.w.got = func(a SubTreeAddress, buf []byte, exists bool) {
		if !exists && vnd.Bool("crash") {
			// some of it was written
			q := vnd.Param("parts", 4)
			f := len(buf) * vnd.Choose("written", q) / q
			for i := 0; i < f; i++ {
				buf[i] = ^buf[i]
			}
			kill = vnd.Param("loss", 1) == 0 || vnd.Bool("kill")
			k.w.dead = true
		}
	}
	k.sk.Sign(vhMsg)
	crashed := k.w.dead
	no++
	if !crashed {
		k.close()
		vos.Fault = nil
	} else {
		vnd.Reach("crashed")
		vos.Crash(func(n int) int { return n }, func(path string, ino *vos.Inode) []byte {
			if kill || path != vhPath+".cache" {
				return ino.Data
			}
			// some of the blocks reached the disk
			d := append([]byte(nil), ino.Dur...)
			for len(d) < len(ino.Data) {
				d = append(d, 0)
			}
			b := vnd.Param("block", 4096)
			for o := 0; o < len(d); o += b {
				if o+b <= len(ino.Data) && !vhEqual(d[o:o+b], ino.Data[o:o+b]) && vnd.Bool("block") {
					copy(d[o:], ino.Data[o:o+b])
				}
			}
			return d
		})
		vlockfile.Init()
		vmmap.Init()
	}
	k.load(no)
	for i := 0; i < vnd.Param("after", 1); i++ {
		k.sign()
	}
	k.close()
}

func vhEqual(a, b []byte) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
