// Package vmmap models mmap-go on the filesystem of package vos.
package vmmap

import (
	"errors"

	"github.com/bwesterb/go-xmssmt/internal/vstubs/vos"
)

const (
	RDONLY = 0
	RDWR   = 1 << iota
	COPY
	EXEC
)

const (
	ANON = 1 << iota
)

type MMap []byte

var maps []*vos.Mapping

// Init forgets all mappings.
func Init() { maps = nil }

// Mapped returns the number of mappings.
func Mapped() int { return len(maps) }

func Map(f *vos.File, prot, flags int) (MMap, error) {
	return MapRegion(f, -1, prot, flags, 0)
}

func MapRegion(f *vos.File, length int, prot, flags int, offset int64) (MMap, error) {
	if offset%int64(vos.Getpagesize()) != 0 {
		return nil, errors.New("offset parameter must be a multiple of the system's page size")
	}
	if flags&ANON != 0 || f == nil {
		return nil, errors.New("vmmap: anonymous memory is not modelled")
	}
	if length < 0 {
		fi, err := f.Stat()
		if err != nil {
			return nil, err
		}
		length = int(fi.Size())
	}
	if length == 0 {
		return nil, errors.New("invalid argument")
	}
	m, err := f.Map(int(offset), length)
	if err != nil {
		return nil, err
	}
	maps = append(maps, m)
	return MMap(m.Buf), nil
}

func (m MMap) Lock() error   { return nil }
func (m MMap) Unlock() error { return nil }

// Flush makes the mapped part of the file durable.
func (m MMap) Flush() error {
	if vos.Fault != nil {
		if k := vos.Fault("msync", ""); k != 0 {
			return vos.ErrInjected
		}
	}
	for _, x := range maps {
		if len(x.Buf) == len(m) && len(m) > 0 && &x.Buf[0] == &m[0] {
			x.Flush()
			return nil
		}
	}
	return errors.New("invalid argument")
}

// Fault is asked before a mapping is removed (see vos.Fault).
func (m *MMap) Unmap() error {
	if vos.Fault != nil {
		if k := vos.Fault("munmap", ""); k != 0 {
			return vos.ErrInjected
		}
	}
	for i, x := range maps {
		if len(x.Buf) == len(*m) && len(*m) > 0 && &x.Buf[0] == &(*m)[0] {
			x.Drop()
			var r []*vos.Mapping
			r = append(r, maps[:i]...)
			maps = append(r, maps[i+1:]...)
			*m = nil
			return nil
		}
	}
	return errors.New("invalid argument")
}
