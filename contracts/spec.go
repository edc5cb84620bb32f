package xmssmt

// The specification: RFC 8391 and NIST SP 800-208, as functions from byte
// strings to byte strings.

func specPrefixLen(p *Params) int {
	if p.Prf == NIST {
		return 4
	}
	return int(p.N)
}

// The hash function of the parameter set, truncated to n bytes.
func specHash(p *Params, in string) string {
	n := int(p.N)
	switch p.Func {
	case SHA2:
		if n == 64 {
			return gvcApply("sha512", 64, in)
		}
		return gvcApply("sha256", 32, in)[:n]
	case SHAKE:
		if n == 64 {
			return gvcApply("shake256", 168, in)[:n]
		}
		return gvcApply("shake128", 168, in)[:n]
	case SHAKE256:
		return gvcApply("shake256", 168, in)[:n]
	}
	panic("specHash")
}

// RFC 8391, section 2.5: an address is 32 bytes, eight big-endian words.
func specAddr(a address) string {
	return gvcBE(uint64(a[0]), 4) + gvcBE(uint64(a[1]), 4) + gvcBE(uint64(a[2]), 4) + gvcBE(uint64(a[3]), 4) +
		gvcBE(uint64(a[4]), 4) + gvcBE(uint64(a[5]), 4) + gvcBE(uint64(a[6]), 4) + gvcBE(uint64(a[7]), 4)
}

func specAKM(a address, km uint32) string {
	a[7] = km
	return specAddr(a)
}

// PRF(KEY, M) = H(toByte(3, ..) || KEY || M)
func specPrf(p *Params, key, m string) string {
	return specHash(p, gvcBE(3, specPrefixLen(p))+key+m)
}

// SP 800-208, section 5.1: PRF_keygen(KEY, M)
func specPrfKeyGen(p *Params, skSeed, pubSeed string, a address) string {
	return specHash(p, gvcBE(4, specPrefixLen(p))+skSeed+pubSeed+specAddr(a))
}

// F within the chaining function, RFC 8391 section 3.1.2
func specF(p *Params, in, pubSeed string, a address) string {
	key := specPrf(p, pubSeed, specAKM(a, 0))
	bm := specPrf(p, pubSeed, specAKM(a, 1))
	return specHash(p, gvcBE(0, specPrefixLen(p))+key+gvcXor(in, bm))
}

// RAND_HASH, RFC 8391 section 4.1.4
func specH(p *Params, left, right, pubSeed string, a address) string {
	key := specPrf(p, pubSeed, specAKM(a, 0))
	bm0 := specPrf(p, pubSeed, specAKM(a, 1))
	bm1 := specPrf(p, pubSeed, specAKM(a, 2))
	return specHash(p, gvcBE(1, specPrefixLen(p))+key+gvcXor(left, bm0)+gvcXor(right, bm1))
}

// H_msg(r || root || toByte(idx, n), M)
func specHashMsg(p *Params, r, root string, idx uint64, msg string) string {
	return specHash(p, gvcBE(2, specPrefixLen(p))+r+root+gvcBE(idx, int(p.N))+msg)
}

// What code above the hash functions is verified against: for the verifier
// these are uninterpreted (the harnesses of C09 show what the code computes),
// executed they are the functions above.  ADRS is always used with
// keyAndMask overwritten.

func gvcF(p *Params, in, pubSeed string, a address) string {
	if gvcOpaque() {
		return gvcApply("F", int(p.N), in, pubSeed, specAKM(a, 0))
	}
	return specF(p, in, pubSeed, a)
}

func gvcH(p *Params, left, right, pubSeed string, a address) string {
	if gvcOpaque() {
		return gvcApply("H", int(p.N), left, right, pubSeed, specAKM(a, 0))
	}
	return specH(p, left, right, pubSeed, a)
}

func gvcPrf(p *Params, key, m string) string {
	if gvcOpaque() {
		return gvcApply("PRF", int(p.N), key, m)
	}
	return specPrf(p, key, m)
}

func gvcPrfKeyGen(p *Params, skSeed, pubSeed string, a address) string {
	if gvcOpaque() {
		return gvcApply("PRFkeygen", int(p.N), skSeed, pubSeed, specAddr(a))
	}
	return specPrfKeyGen(p, skSeed, pubSeed, a)
}

func gvcHashMsg(p *Params, r, root string, idx uint64, msg string) string {
	if gvcOpaque() {
		return gvcApply("Hmsg", int(p.N), r, root, gvcBE(idx, 8), msg)
	}
	return specHashMsg(p, r, root, idx, msg)
}

// RFC 8391, algorithm 2: chain(X, i, s, SEED, ADRS)
func specChain(p *Params, x string, i, s uint32, pubSeed string, a address) string {
	for k := uint32(0); k < s; k++ {
		a[6] = i + k
		x = gvcF(p, x, pubSeed, a)
	}
	return x
}

func gvcChain(p *Params, x string, i, s uint32, pubSeed string, a address) string {
	if gvcOpaque() {
		a[6], a[7] = 0, 0
		return gvcApply("chain", int(p.N), x, gvcBE(uint64(i), 4), gvcBE(uint64(s), 4), pubSeed, specAddr(a))
	}
	return specChain(p, x, i, s, pubSeed, a)
}

// SP 800-208, section 6.2 / RFC 8391, algorithm 3: the secret key of chain i
func specWotsSk(p *Params, skSeed, pubSeed string, a address, i uint32) string {
	a[5], a[6], a[7] = i, 0, 0
	return gvcPrfKeyGen(p, skSeed, pubSeed, a)
}

func specWotsLen(p *Params) uint32 {
	len1 := 8 * p.N / specLgW(p.WotsW)
	return len1 + specLen2(len1, uint32(p.WotsW))
}

// RFC 8391, algorithm 4
func specWotsPk(p *Params, skSeed, pubSeed string, a address) (pk string) {
	for i := uint32(0); i < specWotsLen(p); i++ {
		a[5] = i
		pk += gvcChain(p, specWotsSk(p, skSeed, pubSeed, a, i), 0, uint32(p.WotsW)-1, pubSeed, a)
	}
	return
}

func gvcWotsPk(p *Params, skSeed, pubSeed string, a address) string {
	if gvcOpaque() {
		a[5], a[6], a[7] = 0, 0, 0
		return gvcApply("wotsPk", int(specWotsLen(p)*p.N), skSeed, pubSeed, specAddr(a))
	}
	return specWotsPk(p, skSeed, pubSeed, a)
}

// RFC 8391, algorithm 5
func specWotsSign(p *Params, msg, skSeed, pubSeed string, a address) (sig string) {
	l := gvcChainLengths(p, msg)
	for i := range l {
		a[5] = uint32(i)
		sig += gvcChain(p, specWotsSk(p, skSeed, pubSeed, a, uint32(i)), 0, l[i], pubSeed, a)
	}
	return
}

func gvcWotsSign(p *Params, msg, skSeed, pubSeed string, a address) string {
	if gvcOpaque() {
		a[5], a[6], a[7] = 0, 0, 0
		return gvcApply("wotsSig", int(specWotsLen(p)*p.N), msg, skSeed, pubSeed, specAddr(a))
	}
	return specWotsSign(p, msg, skSeed, pubSeed, a)
}

// RFC 8391, algorithm 6
func specWotsPkFromSig(p *Params, sig, msg, pubSeed string, a address) (pk string) {
	l := gvcChainLengths(p, msg)
	n := int(p.N)
	for i := range l {
		a[5] = uint32(i)
		pk += gvcChain(p, sig[i*n:(i+1)*n], l[i], uint32(p.WotsW)-1-l[i], pubSeed, a)
	}
	return
}

func gvcWotsPkFromSig(p *Params, sig, msg, pubSeed string, a address) string {
	if gvcOpaque() {
		a[5], a[6], a[7] = 0, 0, 0
		return gvcApply("wotsPkFromSig", int(specWotsLen(p)*p.N), sig, msg, pubSeed, specAddr(a))
	}
	return specWotsPkFromSig(p, sig, msg, pubSeed, a)
}

// RFC 8391, algorithm 8
func specLTree(p *Params, pk, pubSeed string, a address) string {
	n := int(p.N)
	var nodes []string
	for i := 0; i < len(pk)/n; i++ {
		nodes = append(nodes, pk[i*n:(i+1)*n])
	}
	a[5] = 0
	for len(nodes) > 1 {
		var next []string
		for i := 0; i < len(nodes)/2; i++ {
			a[6] = uint32(i)
			next = append(next, gvcH(p, nodes[2*i], nodes[2*i+1], pubSeed, a))
		}
		if len(nodes)%2 == 1 {
			next = append(next, nodes[len(nodes)-1])
		}
		nodes = next
		a[5]++
	}
	return nodes[0]
}

func gvcLTree(p *Params, pk, pubSeed string, a address) string {
	if gvcOpaque() {
		a[5], a[6], a[7] = 0, 0, 0
		return gvcApply("ltree", int(p.N), pk, pubSeed, specAddr(a))
	}
	return specLTree(p, pk, pubSeed, a)
}

// The addresses of a subtree, RFC 8391 section 2.5.
func specSubTreeAddr(layer uint32, tree uint64, typ uint32) (a address) {
	a[0], a[1], a[2], a[3] = layer, uint32(tree>>32), uint32(tree), typ
	return
}

// Leaf i of a subtree: the L-tree of the public key of one-time key pair i.
func specLeaf(p *Params, skSeed, pubSeed string, layer uint32, tree uint64, i uint32) string {
	ots, lt := specSubTreeAddr(layer, tree, 0), specSubTreeAddr(layer, tree, 1)
	ots[4], lt[4] = i, i
	return gvcLTree(p, gvcWotsPk(p, skSeed, pubSeed, ots), pubSeed, lt)
}

// Chain lengths, behind the contract of wotsChainLengths.
func gvcChainLengths(p *Params, msg string) []uint32 {
	if !gvcOpaque() {
		return specChainLengths(p, msg)
	}
	l := gvcApply("lengths", int(specWotsLen(p)), msg)
	r := make([]uint32, specWotsLen(p))
	for i := range r {
		r[i] = uint32(l[i]) & uint32(p.WotsW-1)
	}
	return r
}
