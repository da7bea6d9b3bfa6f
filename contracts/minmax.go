package radix

// Smallest and largest key below a node.  Ghost state over the node words of a
// tree that is not being modified: "node"[w] = 1 for every node of the tree,
// "some"[w] = 1 when there is a leaf below it, "first"[w] / "last"[w] the
// position of its first / last child with a leaf at or below it, "min"[w] /
// "max"[w] that leaf's value.

func sNodes(idx *Tree) bool {
	return vForall(func(w uint64) bool {
		return vImplies(vG("node", w) == 1, w != 0 && sNodeAt(idx, w) && vForall(func(i int) bool {
			vTrig(vMark(uint64(i)))
			return vImplies(vMark(uint64(i)) && i >= 0 && i < sCount(w), sChildOK(sChild(idx, w, i)))
		}))
	})
}

func sChildOK(c uint64) bool { return c == 0 || c&256 != 0 || vG("node", c) == 1 }

func sBarren(c uint64) bool { return c == 0 || c&256 == 0 && vG("some", c) != 1 }

func sMins(idx *Tree) bool {
	return vForall(func(w uint64) bool {
		f := int(vG("first", w))
		return vImplies(vG("node", w) == 1, vMark(uint64(f)) &&
			vIff(vG("some", w) == 1, f >= 0 && f < sCount(w)) &&
			vForall(func(i int) bool {
				vTrig(vMark(uint64(i)))
				return vImplies(vMark(uint64(i)) && i >= 0 && i < sCount(w) && (vG("some", w) != 1 || i < f), sBarren(sChild(idx, w, i)))
			}) &&
			vImplies(vG("some", w) == 1, sBest(sChild(idx, w, f), vG("min", w), "min")))
	})
}

func sMaxs(idx *Tree) bool {
	return vForall(func(w uint64) bool {
		f := int(vG("last", w))
		return vImplies(vG("node", w) == 1, vMark(uint64(f)) &&
			vIff(vG("some", w) == 1, f >= 0 && f < sCount(w)) &&
			vForall(func(i int) bool {
				vTrig(vMark(uint64(i)))
				return vImplies(vMark(uint64(i)) && i >= 0 && i < sCount(w) && (vG("some", w) != 1 || i > f), sBarren(sChild(idx, w, i)))
			}) &&
			vImplies(vG("some", w) == 1, sBest(sChild(idx, w, f), vG("max", w), "max")))
	})
}

// the child holds the leaf with this value, at or below it
func sBest(c, v uint64, which string) bool {
	return !sBarren(c) && (c&256 != 0 && c>>9 == v || c&256 == 0 && vG(which, c) == v)
}

//verif:contract Tree.minLeaf
//verif:props C09
func contract_minLeaf(idx *Tree, raw uint64) {
	vRequires(sBlocks(idx) && sNodes(idx) && sMins(idx) && vG("node", raw) == 1)
	v, ok := idx.minLeaf(raw)
	vEnsures("found exactly when there is a leaf", ok == (vG("some", raw) == 1))
	vEnsures("the first leaf", !ok || v == vG("min", raw))
}

//verif:for Tree.minLeaf
func inv_minScan(p_idx *Tree, p_raw uint64, l_k int) bool {
	f := int(vG("first", p_raw))
	return vMark(uint64(l_k)) && l_k >= 0 && l_k <= sCount(p_raw) && (vG("some", p_raw) != 1 || l_k <= f)
}

//verif:contract Tree.maxLeaf
//verif:props C09
func contract_maxLeaf(idx *Tree, raw uint64) {
	vRequires(sBlocks(idx) && sNodes(idx) && sMaxs(idx) && vG("node", raw) == 1)
	v, ok := idx.maxLeaf(raw)
	vEnsures("found exactly when there is a leaf", ok == (vG("some", raw) == 1))
	vEnsures("the last leaf", !ok || v == vG("max", raw))
}

//verif:for Tree.maxLeaf
func inv_maxScan(p_idx *Tree, p_raw uint64, l_k int) bool {
	f := int(vG("last", p_raw))
	return vMark(uint64(l_k)) && l_k >= -1 && l_k < sCount(p_raw) && (vG("some", p_raw) != 1 || l_k >= f)
}
