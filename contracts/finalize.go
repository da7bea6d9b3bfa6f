package radix

// Finishing an operation: exactly what each kind of operation changes.

// words taken by a prefix of n bytes, and its length word
func sRoom(n int) int {
	s := (n + 7) >> 3
	if n >= 255 {
		s++
	}
	return s
}

// the word at a slot address
func sWord(idx *Tree, at uint64) uint64 {
	return idx.blocks[at>>18].data[at&(sBlockSlots-1)]
}

func sArr(idx *Tree, n uint64) uint64 { return vArrID(idx.blocks[n>>18].data) }

// word off of array id belongs to the size words at n
func sInRegion(idx *Tree, id uint64, off int, n uint64, size int) bool {
	return id == sArr(idx, n) && off >= int(n&(sBlockSlots-1)) && off < int(n&(sBlockSlots-1))+size
}

// when the new node becomes visible, only it and the place it is put differ from before
func sPubOnly(idx *Tree, pa, n uint64, size int) bool {
	return vPubBool(func() bool {
		return vForall(func(id uint64, off int) bool {
			return vImplies(!sInRegion(idx, id, off, n, size) && !sInRegion(idx, id, off, pa, 1),
				vWordAt(id, off) == vOldU64(func() uint64 { return vWordAt(id, off) }))
		})
	})
}

// from then on nothing changes
func sPubFinal() bool {
	return vForall(func(id uint64, off int) bool {
		return vWordAt(id, off) == vPubU64(func() uint64 { return vWordAt(id, off) })
	})
}

// what finishing may touch besides words of nodes
func mFinish(op *UpdateOperation) {
	a := op.allocator
	vModifies(&a.nextFree)
	vModifies(&a.block)
	vModifies(&a.offset)
	vModifies(&a.empty)
	vModifies(&a.counter)
	vModifies(&a.itemCounter)
	vModifies(a.globalEpoch)
	vModifies(a.reserveSlot)
	vModifies(&op.idx.liveObjects)
	vModifiesSlice(a.recycler, 0, len(a.recycler))
	vModifiesElems(a.recycler[0])
	vModifiesElems(op.data)
	vModifiesGhost("pooled")
	vModifiesGhost("reg")
	vModifiesGhost("size")
	vModifiesGhost("pos")
	vModifiesGhost("owner")
	vModifiesGhost("epoch")
	vModifiesGhost("handed")
	vModifiesGhost("last")
	vModifiesGhost("prev")
	vAllocates()
	if op.releaseAlloc {
		vModifies(&op.idx.allocatorQueue.slots[a.id].v)
	}
}

func sItemsCounted(op *UpdateOperation) int64 { return op.idx.liveObjects + op.allocator.itemCounter }

// the new memory is apart from the old node and from the place it is put
func sApart(n uint64, size int, m uint64, sizem int) bool {
	return n>>18 != m>>18 || int(m&(sBlockSlots-1))+sizem <= int(n&(sBlockSlots-1)) || int(n&(sBlockSlots-1))+size <= int(m&(sBlockSlots-1))
}

//verif:contract UpdateOperation.Finalize verifyonly
//verif:props -
func contract_Finalize_insert_elem(op *UpdateOperation, value uint64, pa uint64) {
	vRequires(op != nil && sBlocks(op.idx) && sAlloc(op.allocator) && sMem() && op.allocator.idx == op.idx)
	vRequires(op.kind == nodeLeafInsert)
	idx, a, node, parent := op.idx, op.allocator, op.node, op.parent
	vRequires(sPool(idx, a, op.releaseAlloc) && a.reserveSlot != nil && vDetached(a.reserveSlot))
	vRequires(vG("reg", parent) == sUsed && parent != node && parent < pa && pa < parent+vG("size", parent))
	vRequires(sAddr(node) && sAddr(parent) && sAddr(pa))
	vRequires(sOdd(sLock(idx, node)) && (parent == 0 || sOdd(sLock(idx, parent))))
	vRequires(len(op.prefix) < 1<<20)
	vRequires(op.count >= 2 && op.count < fullAllocAfter && op.position >= 0 && op.position <= op.count)
	op.prefixSlots = sRoom(len(op.prefix))
	vRequires(vG("reg", node) == sUsed && vG("size", node) == uint64(op.count+op.prefixSlots))
	op.kind = nodeLeafInsert
	op.data = sData(idx, node)
	op.nodePtr = &idx.blocks[pa>>18].data[pa&(sBlockSlots-1)]
	ps, count, pos := op.prefixSlots, op.count, op.position
	mFinish(op)
	vModifies(&idx.blocks[node>>18].locks[node&(sLocks-1)])
	if parent != 0 {
		vModifies(&idx.blocks[parent>>18].locks[parent&(sLocks-1)])
	}
	vPublishes(op.nodePtr)
	items := sItemsCounted(op)
	done := op.Finalize(value)
	vEnsures("an insert always succeeds", done)
	vEnsures("the new node becomes visible", vPublished())
	n := vG("last", 0)
	size := count + 1 + ps
	vEnsures("new memory", n >= 1 && n>>18 < 65536 && int(n&(sBlockSlots-1))+size <= sBlockSlots && sHanded(n>>18))
	vEnsures("apart from the place", sApart(n, size, pa, 1))
	vEnsures("apart from the old node", sApart(n, size, node, count+ps))
	vEnsures("the old node is released afterwards", vPubU64(func() uint64 { return vG("reg", node) }) == sUsed && vPubU64(func() uint64 { return vG("last", 0) }) == n)
	w := vPubU64(func() uint64 { return sWord(idx, pa) })
	vEnsures("the address of the new node", w>>9&(1<<39-1) == n)
	vEnsures("word", w&256 == 0 && byte(w) == byte(op.raw) && int(w>>56) == count)
	vEnsures("items", op.idx.liveObjects+a.itemCounter == items+1)
	dst, src := sData(idx, n), sData(idx, node)
	vEnsures("prefix", vPubBool(func() bool {
		return vForallIn(dst, func(i int) bool { return vImplies(i < ps+pos, dst[i] == vOldU64(func() uint64 { return src[i] })) })
	}))
	vEnsures("new leaf", vPubU64(func() uint64 { return dst[ps+pos] }) == value<<9|256|uint64(op.k))
	vEnsures("rest", vPubBool(func() bool {
		return vForallIn(dst, func(i int) bool { return vImplies(i > ps+pos && i < size, dst[i] == vOldU64(func() uint64 { return src[i-1] })) })
	}))
	vEnsures("nothing else is different by then", sPubOnly(idx, pa, n, size))
	vEnsures("nothing is different afterwards", sPubFinal())
}
