package xmssmt

import (
	"github.com/bwesterb/go-xmssmt/internal/vnd"
	"github.com/bwesterb/go-xmssmt/internal/vstubs/vlockfile"
	"github.com/bwesterb/go-xmssmt/internal/vstubs/vmmap"
	"github.com/bwesterb/go-xmssmt/internal/vstubs/vos"
)

// vhCacheHdr puts a cache header of an older version or other machine.
func vhCacheHdr(align int) {
	ino := vos.Lookup(vhPath + ".cache")
	if align < 0 {
		// version 0
		ino.Data = append([]byte{0xe7, 0x79, 0x57, 0x60, 0x7e, 0xf7, 0x94, 0x46, 0, 0, 0, 0, 0, 0, 0, 0, 0},
			make([]byte, 4096-17)...)
		return
	}
	ino.Data = append([]byte{0x5a, 0x11, 0xd7, 0xcf, 0x4a, 0x1f, 0x63, 0x14, 0, 0, 0, 0, 1,
		byte(align >> 24), byte(align >> 16), byte(align >> 8), byte(align)})
	if align == 0 {
		align = 4096
	}
	ino.Data = append(ino.Data, make([]byte, align-17)...)
}

type vhCache struct {
	c       PrivateKeyContainer
	size    int
	sta     []SubTreeAddress
	present []bool
	tag     []uint8
	live    [][]byte
}

// check compares the container with what is expected of it.
func (m *vhCache) check() {
	n := 0
	for i, sta := range m.sta {
		vnd.Assert(m.c.HasSubTree(sta) == m.present[i], "a subtree exists from when it is first gotten until it is dropped")
		if m.present[i] {
			n++
		}
		if m.live[i] != nil {
			vnd.Assert(vnd.Same(m.live[i], m.fill(m.tag[i])), "a buffer keeps its contents until it is dropped")
		}
	}
	l, err := m.c.ListSubTrees()
	vnd.Assert(err == nil, "the subtrees are listed")
	vnd.Assert(len(l) == n, "every subtree is listed once")
	for i, sta := range m.sta {
		has := false
		for _, x := range l {
			has = vnd.Or(has, vnd.And(x.Layer == sta.Layer, x.Tree == sta.Tree))
		}
		vnd.Assert(has == m.present[i], "exactly the subtrees that exist are listed")
	}
}

func (m *vhCache) fill(t uint8) []byte {
	b := make([]byte, m.size)
	for i := range b {
		b[i] = t
	}
	return b
}

func (m *vhCache) get(i int) {
	buf, exists, err := m.c.GetSubTree(m.sta[i])
	vnd.Assert(err == nil, "a subtree is given")
	vnd.Assert(exists == m.present[i], "it is told whether the subtree exists")
	vnd.Assert(len(buf) == m.size, "a buffer of the right size is given")
	if exists {
		vnd.Assert(vnd.Same(buf, m.fill(m.tag[i])), "a buffer keeps its contents until it is dropped")
	} else {
		m.tag[i] = vnd.U8("tag")
		copy(buf, m.fill(m.tag[i]))
	}
	m.present[i] = true
	m.live[i] = buf
}

func (m *vhCache) reopen() {
	vnd.Assert(m.c.Close() == nil, "the container is closed")
	vnd.Assert(vmmap.Mapped() == 0 && vos.OpenFiles() == 0, "the files are closed")
	vnd.Assert(!vlockfile.Held(vhPath+".lock"), "the lock is released")
	for i := range m.live {
		m.live[i] = nil
	}
	var err Error
	m.c, err = OpenFSPrivateKeyContainer(vhPath)
	vnd.Assert(err == nil, "the container is opened again")
	vnd.Assert(m.c.CacheInitialized(), "the cache is kept")
}

// A history of a cache.
func VH_C20_map() {
	vnd.SetMerge(false)
	vhFSInit()
	p := vhParams2(vnd.Param("ps", 0))
	c, err := OpenFSPrivateKeyContainer(vhPath)
	vnd.Assert(err == nil, "an empty container is opened")
	vnd.Assert(c.Reset(make([]byte, 3*p.N), p) == nil, "a key is stored")
	m := &vhCache{c: c, size: p.CachedSubTreeSize()}
	vos.PageSize = vnd.Param("page", 4096)
	if a := vnd.Param("hdr", 0); a != 0 {
		vnd.Assert(c.Close() == nil, "the container is closed")
		if a == 1 {
			a = 0
		}
		vhCacheHdr(a)
		m.c, err = OpenFSPrivateKeyContainer(vhPath)
		vnd.Assert(err == nil, "the container is opened again")
		vnd.Assert(m.c.CacheInitialized(), "an older cache is used")
	} else if vos.PageSize != 4096 {
		vnd.Assert(c.ResetCache() == nil, "the cache is reset")
	}
	k := vnd.Param("addrs", 3)
	for i := 0; i < k; i++ {
		a := SubTreeAddress{Layer: vnd.U32("layer"), Tree: vnd.U64("tree")}
		for _, b := range m.sta {
			vnd.Assume(vnd.Or(a.Layer != b.Layer, a.Tree != b.Tree))
		}
		m.sta = append(m.sta, a)
	}
	m.present = make([]bool, k)
	m.tag = make([]uint8, k)
	m.live = make([][]byte, k)
	used := 0
	for n := vnd.Param("ops", 4); n > 0; n-- {
		q := used + 1
		if q > k {
			q = k
		}
		op := vnd.Choose("op", 2*q+1)
		switch {
		case op == 2*q:
			m.reopen()
			vnd.Reach("reopened")
		case op < q:
			m.get(op)
			if op == used {
				used++
			}
			vnd.Reach("got")
		default:
			i := op - q
			vnd.Assert(m.c.DropSubTree(m.sta[i]) == nil, "a subtree is dropped")
			m.present[i] = false
			m.live[i] = nil
			vnd.Reach("dropped")
		}
		m.check()
	}
	m.reopen()
	m.check()
	for i := range m.sta {
		m.get(i)
	}
	m.check()
}
