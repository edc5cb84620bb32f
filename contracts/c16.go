package xmssmt

import (
	"strconv"
)

// C16: names and OIDs.

type specEntry struct {
	name string
	mt   bool
	oid  uint32
	p    Params
	nist bool
}

// The instances of RFC 8391, sections 5.3 and 5.4 and appendices B and C, and
// of SP 800-208, section 5, in the order of their OIDs.
func specRegistry() []specEntry {
	type family struct {
		f    HashFunc
		n    uint32
		nist bool
		prf  PrfConstruction
	}
	// SP 800-208 pads with n bytes for n=32, as RFC 8391 does, and with four
	// for n=24.
	families := []family{{SHA2, 32, false, RFC}, {SHA2, 64, false, RFC}, {SHAKE, 32, false, RFC}, {SHAKE, 64, false, RFC},
		{SHA2, 24, true, NIST}, {SHAKE256, 32, true, RFC}, {SHAKE256, 24, true, NIST}}
	var ret []specEntry
	oid := uint32(0)
	for _, f := range families {
		for _, hd := range [][2]uint32{{20, 2}, {20, 4}, {40, 2}, {40, 4}, {40, 8}, {60, 3}, {60, 6}, {60, 12}} {
			oid++
			ret = append(ret, specEntry{"XMSSMT-" + specFuncName(f.f) + "_" + specDec(hd[0]) + "/" + specDec(hd[1]) + "_" + specDec(8*f.n),
				true, oid, Params{f.f, f.n, hd[0], hd[1], 16, f.prf}, f.nist})
		}
	}
	oid = 0
	for _, f := range families {
		for _, h := range []uint32{10, 16, 20} {
			oid++
			ret = append(ret, specEntry{"XMSS-" + specFuncName(f.f) + "_" + specDec(h) + "_" + specDec(8*f.n),
				false, oid, Params{f.f, f.n, h, 1, 16, f.prf}, f.nist})
		}
	}
	return ret
}

func specDec(x uint32) string { return strconv.Itoa(int(x)) }

func specFuncName(f HashFunc) string { return [3]string{"SHA2", "SHAKE", "SHAKE256"}[f] }

// The name of a parameter set: that of the registries, extended with the
// Winternitz parameter and the PRF construction where they are not the usual.
func specName(p *Params) string {
	s := "XMSSMT-" + specFuncName(p.Func) + "_" + specDec(p.FullHeight) + "/" + specDec(p.D)
	if p.D == 1 {
		s = "XMSS-" + specFuncName(p.Func) + "_" + specDec(p.FullHeight)
	}
	s += "_" + specDec(8*p.N)
	if p.WotsW != 16 {
		s += "_w" + specDec(uint32(p.WotsW))
	}
	if p.N == 24 && p.Prf == RFC {
		s += "_RFC"
	}
	if p.N != 24 && p.Prf == NIST {
		s += "_NIST"
	}
	return s
}

// Every registered name and OID.
//
//gvc:harness C16
func hC16Registry() {
	reg := specRegistry()
	e := reg[gvcChoose("entry", 77)]
	p := e.p
	q := ParamsFromName(e.name)
	gvcAssert(q != nil && *q == p, "a registered name maps to its parameters")
	q, err := ParamsFromName2(e.name)
	gvcAssert(err == nil && *q == p, "a registered name maps to its parameters")
	name, oid := p.LookupNameAndOid()
	gvcAssert(name == e.name && oid == e.oid, "registered parameters have the registered name and OID")
	gvcAssert(p.String() == e.name, "registered parameters are printed as the registered name")
	var ctx *Context
	switch gvcFork("how", 4) {
	case 0:
		ctx = NewContextFromName(e.name)
	case 1:
		ctx, err = NewContextFromName2(e.name)
	case 2:
		ctx = NewContextFromOid(e.mt, e.oid)
	case 3:
		ctx, err = NewContext(p)
	}
	gvcAssert(err == nil && ctx != nil && ctx.Params() == p, "a context for a registered name or OID has its parameters")
	gvcAssert(ctx.MT() == e.mt, "a context for a registered name or OID is XMSSMT exactly if the instance is")
	switch gvcFork("first", 4) {
	case 0:
		gvcAssert(ctx.Name() == e.name, "a context for a registered name or OID has that name")
	case 1:
		gvcAssert(ctx.Oid() == e.oid, "a context for a registered name or OID has that OID")
	case 2:
		gvcAssert(ctx.FromRFC() == !e.nist, "exactly the instances of RFC 8391 are said to be from the RFC")
	case 3:
		gvcAssert(ctx.FromNIST() == e.nist, "exactly the instances of SP 800-208 are said to be from NIST")
	}
	gvcAssert(ctx.Name() == e.name && ctx.Oid() == e.oid && ctx.FromRFC() == !e.nist && ctx.FromNIST() == e.nist,
		"name, OID and membership do not depend on the order in which they are asked for")
}

// Names and OIDs are listed once each, and no others are registered.
//
//gvc:harness C16
func hC16Unique() {
	reg := specRegistry()
	names := ListNames()
	gvcAssert(len(names) == len(reg), "exactly the registered names are listed")
	seen := map[string]bool{}
	for _, e := range reg {
		seen[e.name] = true
	}
	for _, n := range names {
		gvcAssert(seen[n], "every listed name is registered, and listed once")
		seen[n] = false
	}
	mt := gvcFork("mt", 2) == 1
	max := uint32(21)
	if mt {
		max = 56
	}
	oid := gvcU32("oid")
	gvcAssume(oid == 0 || oid > max)
	gvcAssert(NewContextFromOid(mt, oid) == nil, "there are no contexts for other OIDs")
}

// Every supported parameter set.
//
//gvc:harness C16
func hC16RoundTrip() {
	n, w := gvcNW()
	f := HashFunc(gvcChoose("func", 3))
	d := uint32(1 + gvcChoose("d", 63))
	prf := PrfConstruction(gvcFork("prf", 2))
	reg := specRegistry()
	for h := uint32(0); h <= 63/d; h++ {
		p := Params{f, n, h * d, d, w, prf}
		if !specSupported(&p) {
			continue
		}
		name := p.String()
		gvcAssert(name == specName(&p), "parameters are printed in the documented form")
		q, err := ParamsFromName2(name)
		gvcAssert(err == nil && *q == p, "parsing a printed parameter set returns it")
		q, err = parseParamsFromName(name)
		gvcAssert(err == nil && *q == p, "parsing a printed parameter set returns it")
		var e specEntry
		for i := range reg {
			if reg[i].p == p {
				e = reg[i]
			}
		}
		n2, oid := p.LookupNameAndOid()
		gvcAssert(n2 == e.name && oid == e.oid, "parameters have the registered name and OID, if any")
		ctx, err := NewContextFromName2(name)
		gvcAssert(err == nil && ctx.Params() == p, "a context for a printed parameter set has these parameters")
		gvcAssert(ctx.MT() == (d > 1), "a context is an XMSSMT one if it has several layers")
		gvcAssert(ctx.Name() == e.name && ctx.Oid() == e.oid, "a context has the registered name and OID of its parameters, if any")
		gvcAssert(ctx.FromNIST() == (e.name != "" && e.nist), "exactly the instances of SP 800-208 are said to be from NIST")
		gvcAssert(ctx.FromRFC() == (e.name != "" && !e.nist), "exactly the instances of RFC 8391 are said to be from the RFC")
		gvcAssert((NewContextFromName(name) != nil) == (e.name != ""), "exactly the registered names are registered")
	}
}

// The names of hash functions, for every value of the type.
//
//gvc:harness C16
func hC16HashFunc() {
	names := [3]string{"SHA2", "SHAKE", "SHAKE256"}
	vs := HashFuncValues()
	gvcAssert(len(vs) == 3, "there are three hash functions")
	for i, v := range vs {
		gvcAssert(v == HashFunc(i), "the hash functions are listed in order")
	}
	f := HashFunc(gvcChoose("func", 256))
	gvcAssert(f.IsAHashFunc() == (f <= SHAKE256), "exactly SHA2, SHAKE and SHAKE256 are hash functions")
	if f <= SHAKE256 {
		gvcAssert(f.String() == names[f], "a hash function has its name")
		g, err := HashFuncString(names[f])
		gvcAssert(err == nil && g == f, "a hash function is found under its name")
	} else {
		f.String()
	}
	for _, other := range []string{"", "SHA", "SHA3", "SHAKE128", "sha2", "SHAKE2566"} {
		_, err := HashFuncString(other)
		gvcAssert(err != nil, "there is no other name of a hash function")
	}
}

// The names that are suggested denote supported parameter sets, the ones they
// are printed for.
//
//gvc:harness C16
func hC16Suggested() {
	names := ListNames2()
	seen := map[string]bool{}
	for _, name := range names {
		gvcAssert(!seen[name], "a name is suggested once")
		seen[name] = true
	}
	for i := gvcChoose("part", 16); i < len(names); i += 16 {
		p, err := ParamsFromName2(names[i])
		gvcAssert(err == nil && p.String() == names[i], "parsing a suggested name and printing it again returns it")
		gvcAssert(specSupported(p), "suggested names denote supported parameter sets")
		ctx, err := NewContextFromName2(names[i])
		gvcAssert(err == nil && ctx.Params() == *p, "a context for a suggested name has its parameters")
	}
}

// Names that denote nothing.
//
//gvc:harness C16 bounded="a list of malformed names and all single-character changes of four names"
func hC16Reject() {
	name := ""
	base := ""
	switch gvcChoose("kind", 5) {
	case 0:
		bad := []string{"", "-", "XMSS", "XMSSMT", "XMSS-", "XMSSMT-", "XMSS-SHA2", "XMSS-SHA2_", "XMSS-SHA2_10", "XMSS-SHA2_10_",
			"XMSS-SHA2__256", "XMSS-_10_256", "-SHA2_10_256", "XMSSMT-SHA2_20_256", "XMSS-SHA2_20/2_256", "XMSSMT-SHA2_20/_256", "XMSSMT-SHA2_/2_256",
			"XMSSMT-SHA2_20/2/2_256", "XMSS-SHA3_10_256", "XMSS-sha2_10_256", "xmss-SHA2_10_256", "XMSS_SHA2_10_256", "XMSS-SHA2-10-256",
			"XMSS-SHA2_10_256_", "XMSS-SHA2_10_256_w", "XMSS-SHA2_10_256_x16", "XMSS-SHA2_10_256_16", "XMSS-SHA2_10_256_w16_NIST_RFC",
			"XMSS-SHA2_10_256_w16_w4_RFC", "XMSS-SHA2_10_256_NISTX", "XMSS-SHA2_10_256_w16x", "XMSS-SHA2_10_256_w-4", "XMSS-SHA2_10_256_w65552",
			"XMSS-SHA2_10_256_w4294967312", "XMSS-SHA2_10_257", "XMSS-SHA2_10_255", "XMSS-SHA2_10_-256", "XMSS-SHA2_-10_256", "XMSSMT-SHA2_20/-2_256",
			"XMSS-SHA2_4294967306_256", "XMSS-SHA2_10_4294967552", "XMSSMT-SHA2_20/4294967298_256", "XMSS-SHA2_18446744073709551626_256",
			"XMSS-SHA2_10_256_w65536", "XMSS-SHA2_4294967296_256", "XMSS-SHA2_10_4294967296", "XMSSMT-SHA2_20/4294967296_256",
			"XMSS-SHA2_10 _256", " XMSS-SHA2_10_256", "XMSS-SHA2_0x10_256", "XMSS-SHA2_1e1_256", "XMSS-SHA2_10_256\n", "XMSS-SHAKE128_10_256"}
		for _, name := range bad {
			p, err := ParamsFromName2(name)
			gvcAssert(p == nil && err != nil, "a malformed name is rejected")
			ctx, err := NewContextFromName2(name)
			gvcAssert(ctx == nil && err != nil, "there is no context for a malformed name")
			gvcAssert(ParamsFromName(name) == nil && NewContextFromName(name) == nil, "a malformed name is not registered")
		}
		return
	case 1:
		base = "XMSS-SHA2_10_256"
	case 2:
		base = "XMSSMT-SHAKE_20/2_512_w4"
	case 3:
		base = "XMSS-SHAKE256_16_192_RFC"
	case 4:
		base = "XMSSMT-SHA2_60/12_256_w256_NIST"
	}
	for i := range base {
		for _, c := range " _-/wxX0S" {
			if rune(base[i]) == c {
				continue
			}
			name = base[:i] + string(c) + base[i+1:]
			p, err := ParamsFromName2(name)
			if err != nil {
				gvcAssert(p == nil, "a malformed name has no parameters")
				continue
			}
			gvcAssert(specDenotes(name, p), "a name is only accepted for what it denotes")
		}
	}
}

// Names with any numbers: none is taken for another one.
//
//gvc:harness C16
func hC16Numbers() {
	h, d, n, w := int64(gvcU64("h")), int64(gvcU64("d")), int64(gvcU64("n")), int64(gvcU64("w"))
	name := "XMSS-SHAKE_" + gvcNumber(h)
	if gvcChoose("layers", 2) == 1 {
		name = "XMSSMT-SHAKE_" + gvcNumber(h) + "/" + gvcNumber(d)
	} else {
		d = 1
	}
	name += "_" + gvcNumber(n)
	prf := RFC
	if n == 192 {
		prf = NIST
	}
	switch gvcChoose("rest", 6) {
	case 0:
		w = 16
	case 1:
		name += "_w" + gvcNumber(w)
	case 2:
		name += "_NIST"
		w, prf = 16, NIST
	case 3:
		name += "_w" + gvcNumber(w) + "_NIST"
		prf = NIST
	case 4:
		name += "_RFC_w" + gvcNumber(w)
		prf = RFC
	case 5:
		name += "_RFC"
		w, prf = 16, RFC
	}
	p, err := parseParamsFromName(name)
	if err != nil {
		gvcAssert(p == nil, "a malformed name has no parameters")
		return
	}
	gvcAssert(p.Func == SHAKE && p.Prf == prf, "a name is only accepted for what it denotes")
	gvcAssert(int64(p.FullHeight) == h && int64(p.D) == d && int64(p.N)*8 == n && int64(p.WotsW) == w, "a name is only accepted for what it denotes")
}

// Whether the name, normalised, is a way to write p.
func specDenotes(name string, p *Params) bool {
	want := specName(p)
	norm := ""
	for i := 0; i < len(name); i++ {
		// leading zeros are harmless
		if name[i] == '0' && (i == 0 || !specDigitChar(name[i-1])) && i+1 < len(name) && specDigitChar(name[i+1]) {
			continue
		}
		if name[i] == '-' && i > 0 && name[i-1] == '_' && name[i+1:i+2] == "0" {
			continue // minus zero
		}
		norm += name[i : i+1]
	}
	return norm == want || norm == want+"_w16" || norm == want+"_RFC" || norm == want+"_NIST"
}

func specDigitChar(c byte) bool { return c >= '0' && c <= '9' }
