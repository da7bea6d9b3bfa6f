package radix

// Compressed prefixes: bytes packed little-endian into words, preceded by a
// length word when the prefix has 255 bytes or more.

const maxKeyLen = 1 << 30

// slots taken by a prefix of n bytes
func sPrefixSlots(n int) int {
	return vIteInt(n == 0, 0, vIteInt(n >= 255, (n+15)>>3, (n+7)>>3))
}

func sHdr(n int) int { return vIteInt(n >= 255, 1, 0) }

// word w holds p[at:at+8] (as far as p reaches)
func sWordHolds(w uint64, p []byte, at int) bool {
	n := len(p)
	return vImplies(at < n, byte(w) == p[at]) &&
		vImplies(at+1 < n, byte(w>>8) == p[at+1]) &&
		vImplies(at+2 < n, byte(w>>16) == p[at+2]) &&
		vImplies(at+3 < n, byte(w>>24) == p[at+3]) &&
		vImplies(at+4 < n, byte(w>>32) == p[at+4]) &&
		vImplies(at+5 < n, byte(w>>40) == p[at+5]) &&
		vImplies(at+6 < n, byte(w>>48) == p[at+6]) &&
		vImplies(at+7 < n, byte(w>>56) == p[at+7])
}

// data starts with the stored form of prefix p
func sStores(data []uint64, p []byte) bool {
	n := len(p)
	return vImplies(n >= 255, data[0] == uint64(n)) &&
		vForallIn(data, func(j int) bool {
			return vImplies(j >= sHdr(n) && j < sPrefixSlots(n), sWordHolds(data[j], p, (j-sHdr(n))*8))
		})
}

// byte i of a prefix stored at data
func sPrefixByte(data []uint64, n, i int) byte {
	return byte(data[sHdr(n)+i>>3] >> (8 * uint64(i&7)))
}

//verif:contract storePrefix
//verif:props C02 C04
func contract_storePrefix(dst []uint64, prefix []byte) {
	vRequires(len(prefix) >= 1 && len(prefix) < maxKeyLen)
	vRequires(len(dst) >= sPrefixSlots(len(prefix)))
	vModifiesSlice(dst, 0, sPrefixSlots(len(prefix)))
	storePrefix(dst, prefix)
	vEnsures("the prefix is stored completely", sStores(dst, prefix))
}

//verif:contract appendPrefix
//verif:props C02 C04
func contract_appendPrefix(dst []byte, src []uint64, length int) {
	vRequires(length >= 0 && length <= 255)
	vRequires(len(dst) < 1<<38)
	n := length
	if length == 255 {
		vRequires(len(src) >= 1 && src[0] >= 255 && src[0] < maxKeyLen)
		n = int(src[0])
	}
	vRequires(len(src) >= sPrefixSlots(n))
	l := len(dst)
	vModifiesSlice(dst, l, cap(dst))
	vAllocates()
	out, slots := appendPrefix(dst, src, length)
	vEnsures("reported slots", slots == sPrefixSlots(n))
	vEnsures("length", len(out) == l+n)
	vEnsures("same buffer or a new one", vSameArray(out, dst) && vOff(out) == vOff(dst) || vFresh(out))
	vEnsures("earlier bytes kept", vForallIn(out, func(i int) bool {
		return vImplies(i >= 0 && i < l, out[i] == vOldByte(func() byte { return dst[i] }))
	}))
	vEnsures("stored bytes appended", vForallIn(out, func(i int) bool {
		return vImplies(i >= l && i < l+n, out[i] == sPrefixByte(src, n, i-l))
	}))
}

// What storePrefix stores, appendPrefix returns, for every prefix.
//verif:lemma
//verif:props C02
func lemma_prefixRoundTrip(data []uint64, p []byte, buf []byte) {
	n := len(p)
	vRequires(n >= 1 && n < maxKeyLen && len(data) >= sPrefixSlots(n) && len(buf) < 1<<30)
	vRequires(!vSameArray(p, buf))
	storePrefix(data, p)
	out, slots := appendPrefix(buf, data, vIteInt(n > 255, 255, n))
	vAssert("length comes back", len(out) == len(buf)+n)
	vAssert("slots come back", slots == sPrefixSlots(n))
	vAssert("every byte comes back", vForallIn(out, func(i int) bool {
		return vImplies(i >= len(buf) && i < len(buf)+n, out[i] == p[i-len(buf)])
	}))
}
