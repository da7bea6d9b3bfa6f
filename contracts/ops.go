package radix

// Operations: what a prepared operation holds and what finishing it gives back.

func pool_updateOperationPool(p *UpdateOperation) {}
func pool_deleteOperationPool(p *DeleteOperation) {}

func sPool(idx *Tree, a *Allocator, release bool) bool {
	return !release || idx.allocatorQueue != nil && a.id >= 0 && a.id < len(idx.allocatorQueue.slots)
}

func sUpdateOp(op *UpdateOperation) bool {
	return op != nil && sBlocks(op.idx) && op.allocator != nil && op.allocator.idx == op.idx && op.allocator.reserveSlot != nil && vDetached(op.allocator.reserveSlot) &&
		sPool(op.idx, op.allocator, op.releaseAlloc)
}

func sDeleteOp(op *DeleteOperation) bool {
	return op != nil && sBlocks(op.idx) && op.allocator != nil && op.allocator.idx == op.idx && op.allocator.reserveSlot != nil && vDetached(op.allocator.reserveSlot) &&
		sPool(op.idx, op.allocator, op.releaseAlloc)
}

//verif:contract UpdateOperation.Abort verifyonly
//verif:props C18 C12 C13 C14 C10
func contract_UpdateOperation_Abort_root(op *UpdateOperation) {
	vRequires(sUpdateOp(op) && op.kind <= rootLeafUpdate && op.idx.rootLeafLock == 1)
	vModifies(&op.idx.rootLeafLock)
	vModifies(op.allocator.reserveSlot)
	vAllocates()
	vModifiesGhostAt("pooled", vPtrID(op))
	if op.releaseAlloc {
		vModifies(&op.idx.allocatorQueue.slots[op.allocator.id].v)
	}
	op.Abort()
	vEnsures("the root lock is free", op.idx.rootLeafLock == 0)
	vEnsures("the reservation is gone", *op.allocator.reserveSlot == maxUint64)
	vEnsures("the allocator is given back", !op.releaseAlloc || op.idx.allocatorQueue.slots[op.allocator.id].v == 0)
	vEnsures("the operation is given back once", vG("pooled", vPtrID(op)) == vOldU64(func() uint64 { return vG("pooled", vPtrID(op)) })+1)
}

//verif:contract UpdateOperation.Abort verifyonly
//verif:props C18 C12 C13 C14 C10
func contract_UpdateOperation_Abort_node(op *UpdateOperation) {
	vRequires(sUpdateOp(op) && op.kind > rootLeafUpdate && op.kind <= nodeLeafUpdate256)
	vRequires(sAddr(op.node) && sAddr(op.parent) && sOdd(sLock(op.idx, op.node)) && (op.parent == 0 || sOdd(sLock(op.idx, op.parent))))
	idx, node, parent := op.idx, op.node, op.parent
	vModifies(&idx.blocks[node>>18].locks[node&(sLocks-1)])
	if parent != 0 {
		vModifies(&idx.blocks[parent>>18].locks[parent&(sLocks-1)])
	}
	vModifies(op.allocator.reserveSlot)
	vAllocates()
	vModifiesGhostAt("pooled", vPtrID(op))
	if op.releaseAlloc {
		vModifies(&op.idx.allocatorQueue.slots[op.allocator.id].v)
	}
	on, opp := sLock(idx, node), sLock(idx, parent)
	op.Abort()
	vEnsures("the node's lock is released", sLock(idx, node) == on+1)
	vEnsures("the parent's lock is released", parent == 0 || sLock(idx, parent) == opp+1)
	vEnsures("the reservation is gone", *op.allocator.reserveSlot == maxUint64)
	vEnsures("the allocator is given back", !op.releaseAlloc || op.idx.allocatorQueue.slots[op.allocator.id].v == 0)
	vEnsures("the operation is given back once", vG("pooled", vPtrID(op)) == vOldU64(func() uint64 { return vG("pooled", vPtrID(op)) })+1)
}

//verif:contract DeleteOperation.Abort verifyonly
//verif:props C18 C12 C13 C14 C10
func contract_DeleteOperation_Abort_none(op *DeleteOperation) {
	vRequires(sDeleteOp(op) && (op.kind == notFound || op.kind == deleteLeaf256))
	vModifies(op.allocator.reserveSlot)
	vAllocates()
	vModifiesGhostAt("pooled", vPtrID(op))
	if op.releaseAlloc {
		vModifies(&op.idx.allocatorQueue.slots[op.allocator.id].v)
	}
	op.Abort()
	vEnsures("the reservation is gone", *op.allocator.reserveSlot == maxUint64)
	vEnsures("the allocator is given back", !op.releaseAlloc || op.idx.allocatorQueue.slots[op.allocator.id].v == 0)
	vEnsures("the operation is given back once", vG("pooled", vPtrID(op)) == vOldU64(func() uint64 { return vG("pooled", vPtrID(op)) })+1)
}

//verif:contract DeleteOperation.Abort verifyonly
//verif:props C18 C12 C13 C14 C10
func contract_DeleteOperation_Abort_root(op *DeleteOperation) {
	vRequires(sDeleteOp(op) && op.kind == deleteRoot && op.idx.rootLeafLock == 1)
	vModifies(&op.idx.rootLeafLock)
	vModifies(op.allocator.reserveSlot)
	vAllocates()
	vModifiesGhostAt("pooled", vPtrID(op))
	if op.releaseAlloc {
		vModifies(&op.idx.allocatorQueue.slots[op.allocator.id].v)
	}
	op.Abort()
	vEnsures("the root lock is free", op.idx.rootLeafLock == 0)
	vEnsures("the reservation is gone", *op.allocator.reserveSlot == maxUint64)
	vEnsures("the allocator is given back", !op.releaseAlloc || op.idx.allocatorQueue.slots[op.allocator.id].v == 0)
	vEnsures("the operation is given back once", vG("pooled", vPtrID(op)) == vOldU64(func() uint64 { return vG("pooled", vPtrID(op)) })+1)
}

//verif:contract DeleteOperation.Abort verifyonly
//verif:props C18 C12 C13 C14 C10
func contract_DeleteOperation_Abort_node(op *DeleteOperation) {
	vRequires(sDeleteOp(op) && (op.kind == deleteLeaf || op.kind == replaceNodeWithLeaf))
	vRequires(sAddr(op.node) && sAddr(op.parent) && sOdd(sLock(op.idx, op.node)) && (op.parent == 0 || sOdd(sLock(op.idx, op.parent))))
	idx, node, parent := op.idx, op.node, op.parent
	vModifies(&idx.blocks[node>>18].locks[node&(sLocks-1)])
	if parent != 0 {
		vModifies(&idx.blocks[parent>>18].locks[parent&(sLocks-1)])
	}
	vModifies(op.allocator.reserveSlot)
	vAllocates()
	vModifiesGhostAt("pooled", vPtrID(op))
	if op.releaseAlloc {
		vModifies(&op.idx.allocatorQueue.slots[op.allocator.id].v)
	}
	on, opp := sLock(idx, node), sLock(idx, parent)
	op.Abort()
	vEnsures("the node's lock is released", sLock(idx, node) == on+1)
	vEnsures("the parent's lock is released", parent == 0 || sLock(idx, parent) == opp+1)
	vEnsures("the reservation is gone", *op.allocator.reserveSlot == maxUint64)
	vEnsures("the allocator is given back", !op.releaseAlloc || op.idx.allocatorQueue.slots[op.allocator.id].v == 0)
	vEnsures("the operation is given back once", vG("pooled", vPtrID(op)) == vOldU64(func() uint64 { return vG("pooled", vPtrID(op)) })+1)
}

//verif:contract DeleteOperation.Abort verifyonly
//verif:props C18 C12 C13 C14 C10
func contract_DeleteOperation_Abort_three(op *DeleteOperation) {
	vRequires(sDeleteOp(op) && op.kind == replaceNodeWithNode)
	vRequires(sAddr(op.child) && sAddr(op.node) && op.node != 0 && sAddr(op.parent) && sOdd(sLock(op.idx, op.child)) && sOdd(sLock(op.idx, op.node)) && (op.parent == 0 || sOdd(sLock(op.idx, op.parent))))
	idx, node, parent, child := op.idx, op.node, op.parent, op.child
	vModifies(&idx.blocks[child>>18].locks[child&(sLocks-1)])
	vModifies(&idx.blocks[node>>18].locks[node&(sLocks-1)])
	if parent != 0 {
		vModifies(&idx.blocks[parent>>18].locks[parent&(sLocks-1)])
	}
	vModifies(op.allocator.reserveSlot)
	vAllocates()
	vModifiesGhostAt("pooled", vPtrID(op))
	if op.releaseAlloc {
		vModifies(&op.idx.allocatorQueue.slots[op.allocator.id].v)
	}
	oc, on, opp := sLock(idx, child), sLock(idx, node), sLock(idx, parent)
	op.Abort()
	vEnsures("the child's lock is released", sLock(idx, child) == oc+1)
	vEnsures("the node's lock is released", sLock(idx, node) == on+1)
	vEnsures("the parent's lock is released", parent == 0 || sLock(idx, parent) == opp+1)
	vEnsures("the reservation is gone", *op.allocator.reserveSlot == maxUint64)
	vEnsures("the allocator is given back", !op.releaseAlloc || op.idx.allocatorQueue.slots[op.allocator.id].v == 0)
	vEnsures("the operation is given back once", vG("pooled", vPtrID(op)) == vOldU64(func() uint64 { return vG("pooled", vPtrID(op)) })+1)
}

//verif:contract addSortedChildren
//verif:props C04 C05 C06 C07 C19
func contract_addSortedChildren(data []uint64, a, b uint64) {
	vRequires(len(data) >= 2)
	vModifiesSlice(data, 0, 2)
	addSortedChildren(data, a, b)
	vEnsures("both children in key order", vImplies(byte(a) < byte(b), data[0] == a && data[1] == b) && vImplies(byte(b) < byte(a), data[0] == b && data[1] == a))
}

//verif:contract Tree.ReleaseAllocator
//verif:props C14 C18
func contract_ReleaseAllocator(idx *Tree, a *Allocator) {
	vRequires(idx != nil && idx.allocatorQueue != nil && a != nil && a.id >= 0 && a.id < len(idx.allocatorQueue.slots))
	vModifies(&idx.allocatorQueue.slots[a.id].v)
	idx.ReleaseAllocator(a)
	vEnsures("available again", idx.allocatorQueue.slots[a.id].v == 0)
}

//verif:contract Tree.GetAllocator
//verif:props C14
func contract_GetAllocator(idx *Tree) {
	vRequires(sTreePool(idx))
	vModifiesSlice(idx.allocatorQueue.slots, 0, len(idx.allocatorQueue.slots))
	a := idx.GetAllocator()
	vEnsures("an allocator of the tree", a != nil && a.id >= 0 && a.id < len(idx.allocators) && a == idx.allocators[a.id])
	vEnsures("it was available and is reserved now", vOldU64(func() uint64 { return idx.allocatorQueue.slots[a.id].v }) == 0 && idx.allocatorQueue.slots[a.id].v == 1)
	vEnsures("no other allocator changes", vForallIn(idx.allocatorQueue.slots, func(j int) bool {
		return vImplies(j != a.id, idx.allocatorQueue.slots[j].v == vOldU64(func() uint64 { return idx.allocatorQueue.slots[j].v }))
	}))
}

// allocator i has id i and slot i
func sTreePool(idx *Tree) bool {
	return idx != nil && idx.allocatorQueue != nil && len(idx.allocators) == len(idx.allocatorQueue.slots) &&
		vForallIn(idx.allocators, func(i int) bool { return idx.allocators[i] != nil && idx.allocators[i].id == i })
}

//verif:contract Tree.Start
//verif:props C14 C10
func contract_Start(idx *Tree) {
	vRequires(sTreePool(idx))
	vModifies(&idx.stopped)
	vModifiesSlice(idx.allocatorQueue.slots, 0, len(idx.allocatorQueue.slots))
	was := idx.stopped
	idx.Start()
	vEnsures("not stopped afterwards", vImplies(was == 1, idx.stopped == 0) && vImplies(was != 1, idx.stopped == was))
	vEnsures("a stopped tree gets every allocator back", vImplies(was == 1, vForallIn(idx.allocatorQueue.slots, func(j int) bool { return idx.allocatorQueue.slots[j].v == 0 })))
	vEnsures("a running tree keeps its reservations", vImplies(was != 1, vForallIn(idx.allocatorQueue.slots, func(j int) bool {
		return idx.allocatorQueue.slots[j].v == vOldU64(func() uint64 { return idx.allocatorQueue.slots[j].v })
	})))
}

//verif:for Tree.Start
func inv_started(p_idx *Tree, l_i int) bool {
	return l_i <= len(p_idx.allocators) && vForallIn(p_idx.allocatorQueue.slots, func(j int) bool { return vImplies(j < l_i, p_idx.allocatorQueue.slots[j].v == 0) })
}
