package main

// Evaluation of terms in which the hash functions take their real values.

import (
	"crypto/sha256"
	"crypto/sha3"
	"crypto/sha512"
	"encoding/binary"
	"math/big"
	"math/bits"
	"math/rand"
	"time"
)

func realHash(name string, in []byte, n int) []byte {
	switch name {
	case "sha256":
		h := sha256.Sum256(in)
		return h[:]
	case "sha512":
		h := sha512.Sum512(in)
		return h[:]
	case "shake128":
		return sha3.SumSHAKE128(in, n)
	case "shake256":
		return sha3.SumSHAKE256(in, n)
	case "xxhash64":
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], xx64(in))
		return b[:]
	case "keccakf":
		var a [25]uint64
		for i := range a {
			a[i] = binary.LittleEndian.Uint64(in[8*i:])
		}
		keccakF(&a)
		out := make([]byte, 200)
		for i := range a {
			binary.LittleEndian.PutUint64(out[8*i:], a[i])
		}
		return out
	}
	// some fixed function
	return sha3.SumSHAKE256(append([]byte(name+"|"), in...), n)
}

const (
	xp1 uint64 = 11400714785074694791
	xp2 uint64 = 14029467366897019727
	xp3 uint64 = 1609587929392839161
	xp4 uint64 = 9650029242287828579
	xp5 uint64 = 2870177450012600261
)

func xx64(b []byte) uint64 {
	round := func(acc, in uint64) uint64 { return bits.RotateLeft64(acc+in*xp2, 31) * xp1 }
	n := len(b)
	var h uint64
	if n >= 32 {
		p1, p2 := xp1, xp2
		v := [4]uint64{p1 + p2, p2, 0, -p1}
		for len(b) >= 32 {
			for i := range v {
				v[i] = round(v[i], binary.LittleEndian.Uint64(b[8*i:]))
			}
			b = b[32:]
		}
		h = bits.RotateLeft64(v[0], 1) + bits.RotateLeft64(v[1], 7) + bits.RotateLeft64(v[2], 12) + bits.RotateLeft64(v[3], 18)
		for i := range v {
			h = (h^round(0, v[i]))*xp1 + xp4
		}
	} else {
		h = xp5
	}
	h += uint64(n)
	for ; len(b) >= 8; b = b[8:] {
		h = bits.RotateLeft64(h^round(0, binary.LittleEndian.Uint64(b)), 27)*xp1 + xp4
	}
	if len(b) >= 4 {
		h = bits.RotateLeft64(h^uint64(binary.LittleEndian.Uint32(b))*xp1, 23)*xp2 + xp3
		b = b[4:]
	}
	for _, x := range b {
		h = bits.RotateLeft64(h^uint64(x)*xp5, 11) * xp1
	}
	h = (h ^ h>>33) * xp2
	h = (h ^ h>>29) * xp3
	return h ^ h>>32
}

func keccakRC() (rc [24]uint64) {
	lfsr := byte(1)
	for r := range rc {
		for j := 0; j < 7; j++ {
			if lfsr&1 != 0 {
				rc[r] |= 1 << (1<<uint(j) - 1)
			}
			hi := lfsr & 0x80
			lfsr <<= 1
			if hi != 0 {
				lfsr ^= 0x71
			}
		}
	}
	return
}

func keccakF(a *[25]uint64) {
	for _, rc := range keccakRC() {
		var c [5]uint64
		for x := 0; x < 5; x++ {
			c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20]
		}
		for x := 0; x < 5; x++ {
			d := c[(x+4)%5] ^ bits.RotateLeft64(c[(x+1)%5], 1)
			for y := 0; y < 25; y += 5 {
				a[x+y] ^= d
			}
		}
		x, y := 1, 0
		cur := a[1]
		for t := 0; t < 24; t++ {
			x, y = y, (2*x+3*y)%5
			cur, a[x+5*y] = a[x+5*y], bits.RotateLeft64(cur, (t+1)*(t+2)/2%64)
		}
		for y := 0; y < 25; y += 5 {
			var r [5]uint64
			copy(r[:], a[y:y+5])
			for x := 0; x < 5; x++ {
				a[y+x] = r[x] ^ (^r[(x+1)%5] & r[(x+2)%5])
			}
		}
		a[0] ^= rc
	}
}

type evaluator struct {
	c    *TermCtx
	m    map[string]uint64
	memo map[*Term]uint64
	wide map[*Term]*big.Int // nil: hash functions are not evaluated
	auto *rand.Rand         // values for variables missing in m
	stop time.Time
	n    int
}

func (e *evaluator) big(t *Term) (*big.Int, bool) {
	if t.W <= 64 && t.Op != OUF {
		v, ok := e.eval(t)
		return new(big.Int).SetUint64(v), ok
	}
	if v, ok := e.wide[t]; ok {
		return v, true
	}
	var r *big.Int
	switch t.Op {
	case OUF:
		in := make([]byte, 0, len(t.A))
		for _, a := range t.A {
			v, ok := e.eval(a)
			if !ok || a.W != 8 {
				return nil, false
			}
			in = append(in, byte(v))
		}
		r = new(big.Int).SetBytes(realHash(t.S, in, t.W/8))
	case OIte:
		cv, ok := e.eval(t.A[0])
		if !ok {
			return nil, false
		}
		r, ok = e.big(t.A[2-cv])
		if !ok {
			return nil, false
		}
	case OConcat:
		r = new(big.Int)
		for _, a := range t.A {
			v, ok := e.big(a)
			if !ok {
				return nil, false
			}
			r.Lsh(r, uint(a.W))
			r.Or(r, v)
		}
	case OExtract:
		v, ok := e.big(t.A[0])
		if !ok {
			return nil, false
		}
		r = new(big.Int).Rsh(v, uint(t.C))
		r.And(r, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(t.W)), big.NewInt(1)))
	case BXor, BOr, BAnd:
		for _, a := range t.A {
			v, ok := e.big(a)
			if !ok {
				return nil, false
			}
			switch {
			case r == nil:
				r = new(big.Int).Set(v)
			case t.Op == BXor:
				r.Xor(r, v)
			case t.Op == BOr:
				r.Or(r, v)
			default:
				r.And(r, v)
			}
		}
	default:
		return nil, false
	}
	e.wide[t] = r
	return r, true
}

// tryReal looks for a model in which the hash functions have their real
// values: the solver determines the variables in hash-free conjuncts, the
// others get random values.
func (s *Solver) tryReal(conj []*Term, timeout time.Duration, tries int) map[string]uint64 {
	var free, rest []*Term
	for _, t := range conj {
		uf := false
		for k := range s.supportOf(t) {
			if len(k) > 3 && k[:3] == "uf:" {
				uf = true
			}
		}
		if uf {
			rest = append(rest, t)
		} else {
			free = append(free, t)
		}
	}
	if len(rest) == 0 {
		return nil
	}
	base := map[string]uint64{}
	if len(free) > 0 {
		r, m := s.solve(free, timeout, true)
		if r != Sat || m == nil {
			return nil
		}
		base = m
	}
	fixed := map[string]bool{}
	for _, t := range collectVars(free) {
		fixed[t.S] = true
	}
	vars := collectVars(rest)
	rng := rand.New(rand.NewSource(1))
	stop := time.Now().Add(timeout)
	for k := 0; k < tries && time.Now().Before(stop); k++ {
		m := map[string]uint64{}
		for n, v := range base {
			m[n] = v
		}
		for _, v := range vars {
			if !fixed[v.S] {
				x := rng.Uint64()
				if v.W == 0 {
					x &= 1
				} else {
					x &= mask(v.W)
				}
				m[v.S] = x
			}
		}
		e := &evaluator{c: s.c, m: m, memo: map[*Term]uint64{}, wide: map[*Term]*big.Int{}, stop: stop}
		good := true
		for j := len(rest) - 1; j >= 0; j-- {
			v, ok := e.eval(rest[j])
			if !ok {
				return nil
			}
			if v != 1 {
				good = false
				break
			}
		}
		if good {
			s.Stats.RealModels++
			return m
		}
	}
	return nil
}
