package xmssmt

import (
	"math/bits"

	"github.com/bwesterb/go-xmssmt/internal/f1600x4"
	"github.com/bwesterb/go-xmssmt/internal/vnd"
)

// Keccak-f[1600], from FIPS 202; the encoding has it as an uninterpreted
// function, which the assembly is compared with round by round.
func vhKeccakF(a [25]uint64) (r [25]uint64) {
	if vnd.Symbolic() {
		in := make([]byte, 200)
		for i, x := range a {
			for k := uint(0); k < 8; k++ {
				in[8*i+int(k)] = byte(x >> (8 * k))
			}
		}
		out := vnd.UF("keccakf", string(in), 200)
		for i := range r {
			for k := uint(0); k < 8; k++ {
				r[i] |= uint64(out[8*i+int(k)]) << (8 * k)
			}
		}
		return
	}
	lfsr := byte(1)
	for round := 0; round < 24; round++ {
		var rc uint64
		for j := uint(0); j < 7; j++ {
			if lfsr&1 != 0 {
				rc |= 1 << (uint(1)<<j - 1)
			}
			hi := lfsr & 0x80
			lfsr <<= 1
			if hi != 0 {
				lfsr ^= 0x71
			}
		}
		var c [5]uint64
		for x := 0; x < 5; x++ {
			c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20]
		}
		for x := 0; x < 5; x++ {
			d := c[(x+4)%5] ^ bits.RotateLeft64(c[(x+1)%5], 1)
			for y := 0; y < 25; y += 5 {
				a[x+y] ^= d
			}
		}
		x, y := 1, 0
		cur := a[1]
		for t := 0; t < 24; t++ {
			x, y = y, (2*x+3*y)%5
			cur, a[x+5*y] = a[x+5*y], bits.RotateLeft64(cur, (t+1)*(t+2)/2%64)
		}
		for y := 0; y < 25; y += 5 {
			var t [5]uint64
			copy(t[:], a[y:y+5])
			for x := 0; x < 5; x++ {
				a[y+x] = t[x] ^ (^t[(x+1)%5] & t[(x+2)%5])
			}
		}
		a[0] ^= rc
	}
	return a
}

// Every alignment of the state, any contents, several permutations.
func VH_C18_permute() {
	if !f1600x4.Available {
		vnd.Reach("done")
		return
	}
	var arr [4]struct {
		pad uint64
		s   f1600x4.State
	}
	again := vnd.Param("again", 0)
	for i := range arr {
		s := &arr[i].s
		arr[i].pad = 0x0123456789abcdef
		a := s.Initialize()
		vnd.Assert(len(a) == 100, "buffer of 100 words")
		for k := 0; k <= again; k++ {
			var in, out [4][25]uint64
			for w := 0; w < 25; w++ {
				for j := 0; j < 4; j++ {
					if k == 0 {
						a[4*w+j] = vnd.U64("state")
					}
					in[j][w] = a[4*w+j]
				}
			}
			s.Permute()
			for j := 0; j < 4; j++ {
				out[j] = vhKeccakF(in[j])
			}
			ok := true
			for w := 0; w < 25; w++ {
				for j := 0; j < 4; j++ {
					ok = vnd.And(ok, a[4*w+j] == out[j][w])
				}
			}
			vnd.Assert(ok, "four permutations")
		}
		// the buffer stays where it is
		b := s.Initialize()
		vnd.Assert(&b[0] == &a[0], "same buffer")
		s.Zero()
		for w := range b {
			vnd.Assert(b[w] == 0, "zeroed")
		}
		vnd.Assert(arr[i].pad == 0x0123456789abcdef, "nothing else written")
	}
	vnd.Reach("done")
}
