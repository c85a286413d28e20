package xmssmt

import "github.com/bwesterb/go-xmssmt/internal/vnd"

type vhName struct {
	ok, mt    bool
	f         HashFunc
	h, d, n   uint64
	w         uint64
	prf       int // -1 when not written
	canonical bool
}

// A decimal number at s[i:]; a sign (minus only before zero) and leading zeros
// do not change which number is written.
func vhNumber(s string, i int) (v uint64, j int, ok, plain bool) {
	plain = true
	neg := false
	if i < len(s) && (s[i] == '+' || s[i] == '-') {
		neg = s[i] == '-'
		i++
		plain = false
	}
	j = i
	for j < len(s) && vnd.And(s[j] >= '0', s[j] <= '9') {
		if v > 1<<50 {
			return 0, j, false, false
		}
		v = v*10 + uint64(s[j]-'0')
		j++
	}
	if j == i || (neg && v != 0) {
		return 0, j, false, false
	}
	if j-i > 1 && s[i] == '0' {
		plain = false
	}
	return v, j, true, plain
}

func vhHas(s string, i int, lit string) bool {
	if len(s)-i < len(lit) {
		return false
	}
	return vnd.SameStr(s[i:i+len(lit)], lit)
}

// The grammar of the names, written down independently:
//
//	XMSS-<hash>_<h>_<bits>[_w<w>][_NIST|_RFC]
//	XMSSMT-<hash>_<h>/<d>_<bits>[_w<w>][_NIST|_RFC]
func vhParseName(s string) (r vhName) {
	i := 0
	r.canonical = true
	switch {
	case vhHas(s, 0, "XMSS-"):
		i = 5
	case vhHas(s, 0, "XMSSMT-"):
		i, r.mt = 7, true
	default:
		return
	}
	switch {
	case vhHas(s, i, "SHA2_"):
		i, r.f = i+5, SHA2
	case vhHas(s, i, "SHAKE_"):
		i, r.f = i+6, SHAKE
	case vhHas(s, i, "SHAKE256_"):
		i, r.f = i+9, SHAKE256
	default:
		return
	}
	var ok, plain bool
	r.h, i, ok, plain = vhNumber(s, i)
	if !ok {
		return
	}
	r.canonical = r.canonical && plain
	r.d = 1
	if r.mt {
		if i >= len(s) || s[i] != '/' {
			return
		}
		r.d, i, ok, plain = vhNumber(s, i+1)
		if !ok {
			return
		}
		r.canonical = r.canonical && plain
	}
	if i >= len(s) || s[i] != '_' {
		return
	}
	r.n, i, ok, plain = vhNumber(s, i+1)
	if !ok {
		return
	}
	r.canonical = r.canonical && plain
	r.prf = -1
	seenW := false
	r.w = 16
	for i < len(s) {
		if s[i] != '_' {
			return
		}
		i++
		switch {
		case vhHas(s, i, "NIST"):
			if r.prf != -1 {
				return
			}
			r.prf = int(NIST)
			i += 4
		case vhHas(s, i, "RFC"):
			if r.prf != -1 {
				return
			}
			r.prf = int(RFC)
			i += 3
		case vhHas(s, i, "w"):
			if seenW {
				return
			}
			if r.prf != -1 {
				r.canonical = false
			}
			seenW = true
			r.w, i, ok, plain = vhNumber(s, i+1)
			if !ok {
				return
			}
			r.canonical = r.canonical && plain
		default:
			return
		}
	}
	if r.prf == -1 {
		r.prf = int(RFC)
		if r.n == 192 {
			r.prf = int(NIST)
		}
	}
	r.ok = true
	return
}

func vhCheckName(s string) {
	p, err := ParamsFromName2(s)
	r := vhParseName(s)
	if err != nil {
		vnd.Assert(p == nil, "no parameters with an error")
		vnd.Reach("refused")
		if r.ok && r.canonical {
			vnd.Assert(!vnd.And(r.h <= 63, r.d <= 63, vnd.Or(r.n == 128, r.n == 192, r.n == 256, r.n == 512),
				vnd.Or(r.w == 4, r.w == 16, r.w == 256)), "names of supported parameters are accepted")
		}
		return
	}
	vnd.Reach("accepted")
	vnd.Assert(r.ok, "only well-formed names are accepted")
	vnd.Assert(p.Func == r.f, "hash function is the one written")
	vnd.Assert(uint64(p.FullHeight) == r.h, "height is the one written")
	vnd.Assert(uint64(p.D) == r.d, "number of layers is the one written")
	vnd.Assert(8*uint64(p.N) == r.n, "output size is the one written")
	vnd.Assert(uint64(p.WotsW) == r.w, "Winternitz parameter is the one written")
	vnd.Assert(int(p.Prf) == r.prf, "PRF construction is the one written")
	c, err := NewContextFromName2(s)
	if err == nil {
		vnd.Assert(c.Params() == *p, "the context has the parameters of the name")
		if r.canonical {
			vnd.Reach("usable")
		}
	}
}

// Arbitrary text after a fixed beginning.
func VH_C12_tail() {
	pre := []string{"XMSS-SHA2_", "XMSSMT-SHAKE_", "XMSS-SHAKE256_10_", "XMSSMT-SHA2_20/", "XMSSMT-SHAKE256_20/2_",
		"XMSS-SHA2_10_256", "XMSSMT-SHA2_20/2_192", "XMSS-SHAKE_10_128_w", "XMSSMT-SHAKE_20/4_256_", "XMSS-SHA2_10_256_RFC", "XMSS-SHA2_10_256_w4_"}
	k := vnd.Param("pre", -1)
	if k < 0 {
		k = vnd.Choose("prefix", len(pre))
	}
	n := vnd.Choose("len", vnd.Param("max", 6)+1)
	vhCheckName(pre[k] + string(vnd.Bytes("tail", n)))
}

// Arbitrary text before a fixed end.
func VH_C12_head() {
	post := []string{"", "-SHA2_10_256", "2_10_256", "_20/2_256", "_10_256"}
	k := vnd.Choose("post", len(post))
	n := vnd.Choose("len", vnd.Param("max", 9)+1)
	vhCheckName(string(vnd.Bytes("head", n)) + post[k])
}

func vhDigits(label string, max int) string {
	pre := ""
	if vnd.Bool("long") {
		// around 2^32
		pre, max = "42949", 7
	}
	n := vnd.Choose(label+"len", max+1)
	b := vnd.Bytes(label, n)
	for i := range b {
		vnd.Assume(vnd.And(b[i] >= '0', b[i] <= '9'))
	}
	return pre + string(b)
}

// Arbitrary digits in every number.
func VH_C12_digits() {
	m := vnd.Param("max", 5)
	f := []string{"SHA2", "SHAKE", "SHAKE256"}[vnd.Choose("f", 3)]
	opt := []string{"", "_NIST", "_RFC"}[vnd.Choose("opt", 3)]
	switch vnd.Param("what", 0) {
	case 0:
		vhCheckName("XMSS-" + f + "_" + vhDigits("h", m) + "_256" + opt)
	case 1:
		vhCheckName("XMSSMT-" + f + "_" + vhDigits("h", m) + "/4_512" + opt)
	case 2:
		vhCheckName("XMSSMT-" + f + "_40/" + vhDigits("d", m) + "_128" + opt)
	case 3:
		vhCheckName("XMSSMT-" + f + "_40/8_" + vhDigits("n", m) + opt)
	case 4:
		vhCheckName("XMSSMT-" + f + "_40/8_192_w" + vhDigits("w", m) + opt)
	}
}

// The printed name of usable parameters is parsed back to them.
func VH_C12_roundtrip() {
	vnd.SetFmt(1)
	p := vhAnyParams()
	p.FullHeight = uint32(vnd.Choose("h", vnd.Param("hmax", 64)))
	p.D = uint32(vnd.Choose("d", vnd.Param("hmax", 64)))
	c, err := NewContext(p)
	if err != nil {
		return
	}
	s := c.Params().String()
	q, err := ParamsFromName2(s)
	vnd.Assert(err == nil, "the printed name is accepted")
	vnd.Assert(*q == p, "the printed name denotes the parameters")
	r := vhParseName(s)
	vnd.Assert(r.ok, "the printed name is well-formed")
	vnd.Assert(vnd.And(r.canonical, r.f == p.Func, r.h == uint64(p.FullHeight), r.d == uint64(p.D), r.n == 8*uint64(p.N), r.w == uint64(p.WotsW), r.prf == int(p.Prf)),
		"the printed name states the parameters")
	vnd.Assert(r.mt == (p.D > 1), "the printed name states the family")
	vnd.Reach("named")
}
