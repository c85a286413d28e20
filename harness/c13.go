package xmssmt

import "github.com/bwesterb/go-xmssmt/internal/vnd"

// The instances assigned by RFC 8391 and NIST SP 800-208, written down from
// the standards.
type vhInst struct {
	mt   bool
	oid  uint32
	name string
	p    Params
	rfc  bool
}

func vhDec(x uint32) string {
	if x < 10 {
		return string([]byte{byte('0' + x)})
	}
	return vhDec(x/10) + string([]byte{byte('0' + x%10)})
}

func vhInstances() []vhInst {
	var ret []vhInst
	hd := [][2]uint32{{20, 2}, {20, 4}, {40, 2}, {40, 4}, {40, 8}, {60, 3}, {60, 6}, {60, 12}}
	type fam struct {
		f    HashFunc
		n    uint32
		prf  PrfConstruction
		hash string
		rfc  bool
	}
	fams := []fam{
		{SHA2, 32, RFC, "SHA2", true}, {SHA2, 64, RFC, "SHA2", true},
		{SHAKE, 32, RFC, "SHAKE", true}, {SHAKE, 64, RFC, "SHAKE", true},
		{SHA2, 24, NIST, "SHA2", false}, {SHAKE256, 32, RFC, "SHAKE256", false},
		{SHAKE256, 24, NIST, "SHAKE256", false},
	}
	oid := uint32(1)
	for _, f := range fams {
		for _, x := range hd {
			ret = append(ret, vhInst{true, oid, "XMSSMT-" + f.hash + "_" + vhDec(x[0]) + "/" + vhDec(x[1]) + "_" + vhDec(8*f.n),
				Params{f.f, f.n, x[0], x[1], 16, f.prf}, f.rfc})
			oid++
		}
	}
	oid = 1
	for _, f := range fams {
		for _, h := range []uint32{10, 16, 20} {
			ret = append(ret, vhInst{false, oid, "XMSS-" + f.hash + "_" + vhDec(h) + "_" + vhDec(8*f.n),
				Params{f.f, f.n, h, 1, 16, f.prf}, f.rfc})
			oid++
		}
	}
	return ret
}

func vhCheckInst(c *Context, e vhInst) {
	vnd.Assert(c.Params() == e.p, "parameters are the assigned ones")
	vnd.Assert(c.MT() == e.mt, "family")
	vnd.Assert(c.Oid() == e.oid, "Oid()")
	vnd.Assert(c.Name() == e.name, "Name()")
	vnd.Assert(c.FromRFC() == e.rfc, "FromRFC()")
	vnd.Assert(c.FromNIST() == !e.rfc, "FromNIST()")
}

// Every 32-bit OID of both families.
func VH_C13_oid() {
	mt := vnd.Bool("mt")
	oid := vnd.U32("oid")
	c := NewContextFromOid(mt, oid)
	for _, e := range vhInstances() {
		if vnd.And(e.mt == mt, e.oid == oid) {
			vnd.Assert(c != nil, "assigned OID is known")
			vhCheckInst(c, e)
			vnd.Reach("assigned")
			return
		}
	}
	vnd.Assert(c == nil, "unassigned OID is unknown")
	vnd.Reach("unassigned")
}

// Arbitrary parameters: the registered name and OID if and only if they belong
// to an assigned instance.
func VH_C13_params() {
	p := vhAnyParams()
	c, err := NewContext(p)
	if err != nil {
		return
	}
	vnd.Assert(c.MT() == (p.D > 1), "MT()")
	q := p
	order := vnd.Choose("order", 4)
	rfc, nist := false, false
	name, oid := "", uint32(0)
	// the queries give the same answers in every order
	switch order {
	case 0:
		rfc, nist, name, oid = c.FromRFC(), c.FromNIST(), c.Name(), c.Oid()
	case 1:
		nist, rfc, oid, name = c.FromNIST(), c.FromRFC(), c.Oid(), c.Name()
	case 2:
		name, oid, nist, rfc = c.Name(), c.Oid(), c.FromNIST(), c.FromRFC()
	case 3:
		oid, rfc, nist, name = c.Oid(), c.FromRFC(), c.FromNIST(), c.Name()
	}
	name2, oid2 := q.LookupNameAndOid()
	for _, e := range vhInstances() {
		if e.p == p {
			vnd.Assert(oid == e.oid, "Oid() of parameters")
			vnd.Assert(name == e.name, "Name() of parameters")
			vnd.Assert(rfc == e.rfc, "FromRFC() of parameters")
			vnd.Assert(nist == !e.rfc, "FromNIST() of parameters")
			vnd.Assert(name2 == e.name, "LookupNameAndOid name")
			vnd.Assert(oid2 == e.oid, "LookupNameAndOid oid")
			vnd.Reach("registered")
			return
		}
	}
	vnd.Assert(name == "", "no name for unregistered parameters")
	vnd.Assert(oid == 0, "no OID for unregistered parameters")
	vnd.Assert(!rfc, "unregistered parameters are not from the RFC")
	vnd.Assert(!nist, "unregistered parameters are not from NIST")
	vnd.Assert(name2 == "", "LookupNameAndOid name")
	vnd.Assert(oid2 == 0, "LookupNameAndOid oid")
	vnd.Reach("unregistered")
}

// Arbitrary strings: known exactly if they are an assigned name.
func VH_C13_name() {
	n := vnd.Choose("len", 30)
	s := string(vnd.Bytes("name", n))
	c := NewContextFromName(s)
	p := ParamsFromName(s)
	for _, e := range vhInstances() {
		if vnd.SameStr(e.name, s) {
			vnd.Assert(c != nil, "assigned name is known")
			vhCheckInst(c, e)
			vnd.Assert(p != nil, "assigned name is known to ParamsFromName")
			vnd.Assert(*p == e.p, "ParamsFromName")
			c2, err := NewContextFromName2(s)
			vnd.Assert(err == nil, "NewContextFromName2 knows the assigned names")
			vhCheckInst(c2, e)
			p2, err := ParamsFromName2(s)
			vnd.Assert(err == nil, "ParamsFromName2 knows the assigned names")
			vnd.Assert(*p2 == e.p, "ParamsFromName2")
			vnd.Reach("known")
			return
		}
	}
	vnd.Assert(c == nil, "other names are unknown")
	vnd.Assert(p == nil, "other names have no parameters")
	vnd.Reach("unknown")
}

// The list of names is the list of assigned names.
func VH_C13_list() {
	l := ListNames()
	in := vhInstances()
	vnd.Assert(len(l) == len(in), "number of listed names")
	k := vnd.Choose("k", len(in))
	found := 0
	for _, s := range l {
		if s == in[k].name {
			found++
		}
	}
	vnd.Assert(found == 1, "every assigned name is listed once")
}
