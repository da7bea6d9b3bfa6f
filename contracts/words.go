package radix

// Node and leaf word encoding.

//verif:contract buildLeaf verifyonly
//verif:props C01
func contract_buildLeaf(key byte, value uint64) {
	w := buildLeaf(key, value)
	vEnsures("leaf word carries the low 55 value bits", w>>9 == value&(1<<55-1))
	vEnsures("leaf word is marked as a leaf", w&256 != 0)
	vEnsures("leaf word carries its key byte", byte(w) == key)
}

//verif:contract getLeafValue verifyonly
//verif:props C01
func contract_getLeafValue(node uint64) {
	v := getLeafValue(node)
	vEnsures("value is the top 55 bits of the word", v == node>>9)
}

//verif:contract isLeaf verifyonly
//verif:props C01
func contract_isLeaf(node uint64) {
	r := isLeaf(node)
	vEnsures("leaf exactly when the leaf bit is set", r == (node&256 != 0))
}

//verif:contract updateLeafKey verifyonly
//verif:props C01
func contract_updateLeafKey(leaf uint64, key byte) {
	w := updateLeafKey(leaf, key)
	vEnsures("re-keying keeps value and kind", w>>8 == leaf>>8)
	vEnsures("re-keying stores the new key byte", byte(w) == key)
}

//verif:contract buildNode verifyonly
//verif:props C01
func contract_buildNode(key byte, value uint64, children, prefixLen int) {
	vRequires(value < 1<<39)
	vRequires(children >= 1 && children <= 256)
	vRequires(prefixLen >= 0)
	w := buildNode(key, value, children, prefixLen)
	vEnsures("node word is not a leaf", w&256 == 0)
	vEnsures("node word carries its key byte", byte(w) == key)
	vEnsures("node word carries its address", (w>>9)&(1<<39-1) == value)
	vEnsures("node word carries its child count", int(w>>56) == children-1)
	vEnsures("node word carries its prefix length, capped at 255", int(byte(w>>48)) == vIteInt(prefixLen > 255, 255, prefixLen))
}

//verif:contract explodeNode verifyonly
//verif:props C01
func contract_explodeNode(node uint64) {
	k, v, n, pl := explodeNode(node)
	vEnsures("key byte", k == byte(node))
	vEnsures("address", v == (node>>9)&(1<<39-1))
	vEnsures("child count", n == 1+int(node>>56))
	vEnsures("prefix length", pl == int(byte(node>>48)))
}

//verif:contract getNodeValue verifyonly
//verif:props C01
func contract_getNodeValue(node uint64) {
	v := getNodeValue(node)
	vEnsures("address", v == (node>>9)&(1<<39-1))
}

// Round trip over the real functions.
//verif:lemma
//verif:props C01
func lemma_leafRoundTrip(key byte, value uint64, key2 byte) {
	w := buildLeaf(key, value)
	vAssert("a stored value reads back as its low 55 bits", getLeafValue(w) == value&(1<<55-1))
	vAssert("a leaf is recognised", isLeaf(w))
	vAssert("a leaf word is never the empty word", w != 0)
	vAssert("re-keyed leaf keeps the value", getLeafValue(updateLeafKey(w, key2)) == value&(1<<55-1))
	vAssert("re-keyed leaf is a leaf", isLeaf(updateLeafKey(w, key2)))
}

//verif:lemma
//verif:props C01
func lemma_nodeRoundTrip(key byte, addr uint64, children, prefixLen int) {
	vRequires(addr < 1<<39 && children >= 1 && children <= 256 && prefixLen >= 0)
	w := buildNode(key, addr, children, prefixLen)
	k, v, n, pl := explodeNode(w)
	vAssert("node round trip", k == key && v == addr && n == children && pl == vIteInt(prefixLen > 255, 255, prefixLen))
	vAssert("a node is not a leaf", !isLeaf(w))
	vAssert("address getter agrees", getNodeValue(w) == addr)
}
