// Package vhash models the hash functions as uninterpreted functions of
// their complete input.
package vhash

import (
	"hash"

	"github.com/bwesterb/go-xmssmt/internal/vnd"
	"golang.org/x/crypto/sha3"
)

type digest struct {
	name string
	size int
	blk  int
	data string
}

func (d *digest) Write(p []byte) (int, error) {
	d.data += string(p)
	return len(p), nil
}

func (d *digest) Sum(b []byte) []byte {
	return append(b, vnd.UF(d.name, d.data, d.size)...)
}

func (d *digest) Reset()         { d.data = "" }
func (d *digest) Size() int      { return d.size }
func (d *digest) BlockSize() int { return d.blk }

func New256() hash.Hash { return &digest{name: "sha256", size: 32, blk: 64} }
func New512() hash.Hash { return &digest{name: "sha512", size: 64, blk: 128} }

func Sum256(b []byte) (ret [32]byte) {
	copy(ret[:], vnd.UF("sha256", string(b), 32))
	return
}

func Sum512(b []byte) (ret [64]byte) {
	copy(ret[:], vnd.UF("sha512", string(b), 64))
	return
}

type shake struct {
	name    string
	rate    int
	data    string
	reading bool
	pos     int
	out     string
}

func (d *shake) Write(p []byte) (int, error) {
	if d.reading {
		panic("sha3: Write after Read")
	}
	d.data += string(p)
	return len(p), nil
}

func (d *shake) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	d.reading = true
	for len(d.out) < d.pos+len(p) {
		if vnd.Param("sponge", 0) == 0 {
			if len(d.out) > 0 {
				panic("vhash: output longer than modelled")
			}
			d.out = vnd.UF(d.name, d.data, 64)
		} else {
			d.out = d.out + d.sponge(len(d.out)/d.rate)
		}
	}
	copy(p, d.out[d.pos:d.pos+len(p)])
	d.pos += len(p)
	return len(p), nil
}

// sponge returns the n'th output block.
func (d *shake) sponge(n int) string {
	var st [200]byte
	i := 0
	for k := 0; k < len(d.data); k++ {
		st[i] ^= d.data[k]
		i++
		if i == d.rate {
			copy(st[:], vnd.UF("keccakf", string(st[:]), 200))
			i = 0
		}
	}
	st[i] ^= 0x1f
	st[d.rate-1] ^= 0x80
	copy(st[:], vnd.UF("keccakf", string(st[:]), 200))
	for k := 0; k < n; k++ {
		copy(st[:], vnd.UF("keccakf", string(st[:]), 200))
	}
	return string(st[:d.rate])
}

func (d *shake) Clone() sha3.ShakeHash {
	c := *d
	return &c
}

func (d *shake) Reset() {
	d.data = ""
	d.reading = false
	d.pos = 0
	d.out = ""
}

func NewShake128() sha3.ShakeHash { return &shake{name: "shake128", rate: 168} }
func NewShake256() sha3.ShakeHash { return &shake{name: "shake256", rate: 136} }

func ShakeSum128(out, data []byte) {
	h := &shake{name: "shake128", rate: 168}
	h.Write(data)
	h.Read(out)
}

func ShakeSum256(out, data []byte) {
	h := &shake{name: "shake256", rate: 136}
	h.Write(data)
	h.Read(out)
}

func XXSum64(b []byte) uint64 {
	s := vnd.UF("xxhash64", string(b), 8)
	var r uint64
	for i := 0; i < 8; i++ {
		r = r<<8 | uint64(s[i])
	}
	return r
}

func Never() { panic("unreachable") }
