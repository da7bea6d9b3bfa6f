package radix

// Looking up a key.  Ghost state describes the way a key takes through a tree
// that is not being modified: at depth d the search is at the node with word
// "path"[d], "at"[d] is the position of the child with the key's next byte
// among the node's children (when there is one).  The outcome is what is found
// at the end of that way.

// length of the compressed prefix of the node, and the words it takes
func sPfxLen(idx *Tree, w uint64) int {
	n := w >> 9 & (1<<39 - 1)
	return vIteInt(w>>48&255 == 255, int(sWord(idx, n)), int(w>>48&255))
}

func sPfxSlots(w uint64, pl int) int {
	return vIteInt(w>>48&255 == 255, (pl+15)>>3, (pl+7)>>3)
}

// depth behind the node's prefix
func sBehind(idx *Tree, w uint64, d int) int {
	return vIteInt(int(w>>48&255) > 0, d+sPfxLen(idx, w), d)
}

// position of the first child in the node's block
func sFirst(idx *Tree, w uint64) int {
	n := w >> 9 & (1<<39 - 1)
	return vIteInt(int(w>>48&255) > 0, int(n&(sBlockSlots-1))+sPfxSlots(w, sPfxLen(idx, w)), int(n&(sBlockSlots-1)))
}

func sCount(w uint64) int { return int(w>>56) + 1 }

// a node whose words all lie inside one block
func sNodeAt(idx *Tree, w uint64) bool {
	n := w >> 9 & (1<<39 - 1)
	pl := sPfxLen(idx, w)
	return w&256 == 0 && sAddr(n) && pl >= 0 && pl < 1<<20 && (w>>48&255 != 255 || pl >= 255) && (sCount(w) == 256 || sCount(w) < fullAllocFrom) &&
		sFirst(idx, w)+sCount(w) <= sBlockSlots
}

// the i-th child word
func sChild(idx *Tree, w uint64, i int) uint64 {
	n := w >> 9 & (1<<39 - 1)
	return idx.blocks[n>>18].data[sFirst(idx, w)+i]
}

// one step of the search for key at depth d
func sStep(idx *Tree, key []byte, d int, found bool, v uint64) bool {
	w := vG("path", uint64(d))
	e := sBehind(idx, w, d)
	if !(d >= 0 && d < 1<<40 && sNodeAt(idx, w)) {
		return false
	}
	if e >= len(key) {
		return !found
	}
	k := key[e]
	full := sCount(w) == 256
	at := int(vG("at", uint64(d)))
	if !vMark(uint64(at)) {
		return false
	}
	if full {
		at = int(k)
	}
	if at < 0 || at >= sCount(w) {
		// no child with this byte
		return !found && vForall(func(i int) bool { vTrig(vMark(uint64(i))); return vImplies(vMark(uint64(i)) && i >= 0 && i < sCount(w), byte(sChild(idx, w, i)) != k) })
	}
	c := sChild(idx, w, at)
	if c == 0 && full {
		return !found
	}
	return c != 0 && byte(c) == k && (full || vForall(func(i int) bool { vTrig(vMark(uint64(i))); return vImplies(vMark(uint64(i)) && i >= 0 && i < at, byte(sChild(idx, w, i)) < k) })) &&
		vIteU64(c&256 != 0, vIteU64(found && v == c>>9, 1, 0), vIteU64(vG("path", uint64(e+1)) == c, 1, 0)) == 1
}

func sWay(idx *Tree, key []byte, found bool, v uint64) bool {
	return vForall(func(d int) bool {
		return vImplies(d >= 0 && vG("path", uint64(d)) != 0, sStep(idx, key, d, found, v))
	})
}

//verif:contract Tree.search
//verif:props C03
func contract_search(idx *Tree, key []byte, found bool, v uint64) {
	vRequires(sBlocks(idx) && len(key) < 1<<40)
	root := idx.root
	vRequires(root == 0 || len(key) == 0 || root&256 != 0 || vG("path", 0) == root && sWay(idx, key, found, v))
	vRequires(!(root == 0 || len(key) == 0) || !found)
	vRequires(!(root != 0 && len(key) != 0 && root&256 != 0) || found == (byte(root) == key[0]) && v == root>>9)
	r, ok := idx.search(key)
	vEnsures("finds what is at the end of the key's way", !found || ok)
	vEnsures("finds nothing else", found || !ok)
	vEnsures("the value stored there", !ok || r == v)
}

//verif:for Tree.search
func inv_searchWay(l_depth int, l_node uint64, l_count, l_prefixLen int) bool {
	w := vG("path", uint64(l_depth))
	return l_depth >= 0 && l_depth < 1<<40 && w != 0 && w&256 == 0 && w>>9&(1<<39-1) == l_node && sCount(w) == l_count && int(w>>48&255) == l_prefixLen
}

//verif:for Tree.search
func inv_searchScan(p_idx *Tree, p_key []byte, o_depth int, l_i int, l_b byte, l_a uint64) bool {
	w := vG("path", uint64(o_depth))
	k := p_key[sBehind(p_idx, w, o_depth)]
	return vMark(uint64(l_i+1)) && l_i >= -1 && l_i <= sCount(w) && sCount(w) < fullAllocFrom && (l_i == -1 && l_b == 0 || l_i >= 0 && l_b < k && l_b == byte(l_a)) &&
		vForall(func(j int) bool { vTrig(vMark(uint64(j))); return vImplies(vMark(uint64(j)) && j >= 0 && j <= l_i, byte(sChild(p_idx, w, j)) < k) })
}

//verif:for Tree.search
func dec_depth(p_key []byte, l_depth int) int { return len(p_key) - l_depth }

// byte i of the node's prefix
func sPfxByte(idx *Tree, w uint64, i int) byte {
	return sPrefixByte(sData(idx, w>>9&(1<<39-1)), sPfxLen(idx, w), i)
}

// the same, counting the prefix's words as appendPrefix does
func sChildP(idx *Tree, w uint64, i int) uint64 {
	n := w >> 9 & (1<<39 - 1)
	off := int(n & (sBlockSlots - 1))
	return idx.blocks[n>>18].data[vIteInt(int(w>>48&255) > 0, off+sPrefixSlots(sPfxLen(idx, w)), off)+i]
}

// one step of the search for a search prefix at depth d, which ends at r.
// "miss"[d] is a position where the node's prefix differs from the search prefix.
func sPartialStep(idx *Tree, key []byte, d int, r uint64) bool {
	w := vG("path", uint64(d))
	if !(d >= 0 && d < 1<<40 && sNodeAt(idx, w)) {
		return false
	}
	if d >= len(key) {
		return r == w
	}
	m, pl := int(vG("miss", uint64(d))), sPfxLen(idx, w)
	if !vMark(uint64(m)) {
		return false
	}
	if m >= 0 && m < pl && d+m < len(key) {
		return r == 0 && key[d+m] != sPfxByte(idx, w, m)
	}
	if !vForall(func(i int) bool {
		vTrig(vMark(uint64(i)))
		return vImplies(vMark(uint64(i)) && i >= 0 && i < pl && d+i < len(key), key[d+i] == sPfxByte(idx, w, i))
	}) {
		return false
	}
	e := sBehind(idx, w, d)
	if e >= len(key) {
		return r == w
	}
	return sPartialBelow(idx, key, d, r)
}

// the part of the step behind a matching prefix
func sPartialBelow(idx *Tree, key []byte, d int, r uint64) bool {
	w := vG("path", uint64(d))
	e := sBehind(idx, w, d)
	k := key[e]
	full := sCount(w) == 256
	at := int(vG("at", uint64(d)))
	if !vMark(uint64(at)) {
		return false
	}
	if full {
		at = int(k)
	}
	if at < 0 || at >= sCount(w) {
		// no child with this byte
		return r == 0 && vForall(func(i int) bool { vTrig(vMark(uint64(i))); return vImplies(vMark(uint64(i)) && i >= 0 && i < sCount(w), byte(sChildP(idx, w, i)) != k) })
	}
	c := sChildP(idx, w, at)
	if c == 0 && full {
		return r == 0
	}
	return c != 0 && byte(c) == k && (full || vForall(func(i int) bool { vTrig(vMark(uint64(i))); return vImplies(vMark(uint64(i)) && i >= 0 && i < at, byte(sChildP(idx, w, i)) < k) })) &&
		vIteU64(c&256 != 0, vIteU64(r == c, 1, 0), vIteU64(vG("path", uint64(e+1)) == c, 1, 0)) == 1
}

func sPartialWay(idx *Tree, key []byte, r uint64) bool {
	return vForall(func(d int) bool {
		return vImplies(d >= 0 && vG("path", uint64(d)) != 0, sPartialStep(idx, key, d, r))
	})
}

// what a partial search for the key ends at
func sEndsAt(idx *Tree, key []byte, r uint64) bool {
	root := idx.root
	if root == 0 || len(key) == 0 {
		return r == root
	}
	if root&256 != 0 {
		return r == vIteU64(byte(root) == key[0], root, 0)
	}
	return vG("path", 0) == root && sPartialWay(idx, key, r)
}

//verif:contract Tree.partialSearch
//verif:props C08 C09
func contract_partialSearch(idx *Tree, key []byte) {
	r := vG("ends", 0)
	vRequires(sBlocks(idx) && len(key) < 1<<40 && sEndsAt(idx, key, r))
	vAllocates()
	raw, _ := idx.partialSearch(key)
	vEnsures("nothing is found when nothing has the search prefix", r != 0 || raw == 0)
	vEnsures("something is found when something has it", r == 0 || raw != 0)
	vEnsures("ends where the search prefix leads", raw == 0 || raw == r)
}

//verif:for Tree.partialSearch
func inv_partialWay(l_depth int, l_raw uint64) bool {
	return l_depth >= 0 && l_depth < 1<<40 && l_raw != 0 && l_raw&256 == 0 && vG("path", uint64(l_depth)) == l_raw
}

//verif:for Tree.partialSearch
func inv_partialPrefix(p_idx *Tree, p_key []byte, o_depth int, o_raw uint64, l_i int) bool {
	m := int(vG("miss", uint64(o_depth)))
	in := m >= 0 && m < sPfxLen(p_idx, o_raw) && o_depth+m < len(p_key)
	return vMark(uint64(l_i+1)) && l_i >= -1 && vImplies(in, m > l_i && p_key[o_depth+m] != sPfxByte(p_idx, o_raw, m))
}

//verif:for Tree.partialSearch
func inv_partialBelow(p_idx *Tree, p_key []byte, o_depth int, l_i int, l_b byte) bool {
	return sPartialBelow(p_idx, p_key, o_depth, vG("ends", 0))
}

//verif:for Tree.partialSearch
func inv_partialScan(p_idx *Tree, p_key []byte, o_depth int, o_raw uint64, l_i int, l_b byte, l_a uint64) bool {
	k := p_key[sBehind(p_idx, o_raw, o_depth)]
	at := int(vG("at", uint64(o_depth)))
	return vMark(uint64(l_i+1)) && (at < 0 || at >= sCount(o_raw) || at > l_i) && l_i >= -1 && l_i <= sCount(o_raw) && sCount(o_raw) < fullAllocFrom && (l_i == -1 && l_b == 0 || l_i >= 0 && l_b < k && l_b == byte(l_a)) &&
		vForall(func(j int) bool { vTrig(vMark(uint64(j))); return vImplies(vMark(uint64(j)) && j >= 0 && j <= l_i, byte(sChildP(p_idx, o_raw, j)) < k) })
}

//verif:for Tree.partialSearch
func dec_partial(p_key []byte, l_depth int) int { return len(p_key) - l_depth }
