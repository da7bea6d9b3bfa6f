package radix

// Finishing an operation that is decided by one compare-and-swap: it reports
// success exactly when the expected word was found, and then only that word
// changed; otherwise nothing did.

func sDone(op *UpdateOperation) bool {
	return *op.allocator.reserveSlot == maxUint64 && (!op.releaseAlloc || op.idx.allocatorQueue.slots[op.allocator.id].v == 0)
}

func mDone(op *UpdateOperation) {
	vModifies(op.allocator.reserveSlot)
	vModifies(&op.allocator.itemCounter)
	vModifiesGhostAt("pooled", vPtrID(op))
	vAllocates()
	if op.releaseAlloc {
		vModifies(&op.idx.allocatorQueue.slots[op.allocator.id].v)
	}
}

//verif:contract UpdateOperation.Finalize verifyonly
//verif:props C17 C04 C10 C18 C19 C12 C14
func contract_Finalize_empty_root(op *UpdateOperation, value uint64) {
	vRequires(sUpdateOp(op) && op.kind == replaceEmptyRootWithLeaf && op.idx.rootLeafLock == 1)
	op.kind = replaceEmptyRootWithLeaf
	vModifies(&op.idx.root)
	vModifies(&op.idx.rootLeafLock)
	mDone(op)
	was, items := op.idx.root, op.allocator.itemCounter
	done := op.Finalize(value)
	vEnsures("done exactly when the tree was empty", done == (was == 0))
	vEnsures("the root", op.idx.root == vIteU64(was == 0, value<<9|256|uint64(op.k), was))
	vEnsures("the count", op.allocator.itemCounter == items || done)
	vEnsures("the count grows", op.allocator.itemCounter == items+1 || !done)
	vEnsures("the root lock is free", op.idx.rootLeafLock == 0)
	vEnsures("reservation and allocator are given back", sDone(op))
}

//verif:contract UpdateOperation.Finalize verifyonly
//verif:props C17 C05 C10 C18 C19 C12 C14
func contract_Finalize_root_match(op *UpdateOperation, value uint64) {
	vRequires(sUpdateOp(op) && op.kind == rootLeafUpdate && op.Match && op.idx.rootLeafLock == 1)
	op.kind = rootLeafUpdate
	vModifies(&op.idx.root)
	vModifies(&op.idx.rootLeafLock)
	mDone(op)
	was, items := op.idx.root, op.allocator.itemCounter
	done := op.Finalize(value)
	vEnsures("done exactly when the leaf was still there", done == (was == op.currentLeaf))
	vEnsures("the root", op.idx.root == vIteU64(was == op.currentLeaf, value<<9|256|uint64(op.k), was))
	vEnsures("the count stays", op.allocator.itemCounter == items)
	vEnsures("the root lock is free", op.idx.rootLeafLock == 0)
	vEnsures("reservation and allocator are given back", sDone(op))
}

func sLeafMatch(op *UpdateOperation, value uint64, pa uint64, kind uint32) {
	vRequires(sUpdateOp(op) && op.kind == kind && op.Match)
	vRequires(sAddr(op.node) && sAddr(op.parent) && sAddr(pa) && sOdd(sLock(op.idx, op.node)) && (op.parent == 0 || sOdd(sLock(op.idx, op.parent))))
	idx, node, parent := op.idx, op.node, op.parent
	op.kind = kind
	op.leafPtr = &idx.blocks[pa>>18].data[pa&(sBlockSlots-1)]
	vModifies(&idx.blocks[node>>18].locks[node&(sLocks-1)])
	if parent != 0 {
		vModifies(&idx.blocks[parent>>18].locks[parent&(sLocks-1)])
	}
	vModifies(op.leafPtr)
	mDone(op)
	was, items := sWord(idx, pa), op.allocator.itemCounter
	on, opp := sLock(idx, node), sLock(idx, parent)
	done := op.Finalize(value)
	vEnsures("done exactly when the leaf was still there", done == (was == op.currentLeaf))
	vEnsures("the leaf", sWord(idx, pa) == vIteU64(was == op.currentLeaf, value<<9|256|uint64(op.k), was))
	vEnsures("the count stays", op.allocator.itemCounter == items)
	vEnsures("the node's lock is released", sLock(idx, node) == on+1)
	vEnsures("the parent's lock is released", parent == 0 || sLock(idx, parent) == opp+1)
	vEnsures("reservation and allocator are given back", sDone(op))
}

//verif:contract UpdateOperation.Finalize verifyonly
//verif:props C17 C05 C10 C18 C19 C13 C12 C14
func contract_Finalize_leaf_match(op *UpdateOperation, value uint64, pa uint64) {
	sLeafMatch(op, value, pa, nodeLeafUpdate)
}

//verif:contract UpdateOperation.Finalize verifyonly
//verif:props C17 C05 C10 C18 C19 C13 C12 C14
func contract_Finalize_leaf_match256(op *UpdateOperation, value uint64, pa uint64) {
	sLeafMatch(op, value, pa, nodeLeafUpdate256)
}

//verif:contract UpdateOperation.Finalize verifyonly
//verif:props C17 C04 C07 C10 C18 C19 C13 C12 C14
func contract_Finalize_insert256(op *UpdateOperation, value uint64, pa uint64) {
	vRequires(sUpdateOp(op) && op.kind == nodeLeafInsert256)
	vRequires(sAddr(op.node) && sAddr(op.parent) && sAddr(pa) && sOdd(sLock(op.idx, op.node)) && (op.parent == 0 || sOdd(sLock(op.idx, op.parent))))
	idx, node, parent := op.idx, op.node, op.parent
	op.kind = nodeLeafInsert256
	op.leafPtr = &idx.blocks[pa>>18].data[pa&(sBlockSlots-1)]
	vModifies(&idx.blocks[node>>18].locks[node&(sLocks-1)])
	if parent != 0 {
		vModifies(&idx.blocks[parent>>18].locks[parent&(sLocks-1)])
	}
	vModifies(op.leafPtr)
	mDone(op)
	was, items := sWord(idx, pa), op.allocator.itemCounter
	on, opp := sLock(idx, node), sLock(idx, parent)
	done := op.Finalize(value)
	vEnsures("done exactly when the slot was still empty", done == (was == 0))
	vEnsures("the slot", sWord(idx, pa) == vIteU64(was == 0, value<<9|256|uint64(op.k), was))
	vEnsures("the count", op.allocator.itemCounter == items || done)
	vEnsures("the count grows", op.allocator.itemCounter == items+1 || !done)
	vEnsures("the node's lock is released", sLock(idx, node) == on+1)
	vEnsures("the parent's lock is released", parent == 0 || sLock(idx, parent) == opp+1)
	vEnsures("reservation and allocator are given back", sDone(op))
}

func sDoneDel(op *DeleteOperation) bool {
	return *op.allocator.reserveSlot == maxUint64 && (!op.releaseAlloc || op.idx.allocatorQueue.slots[op.allocator.id].v == 0)
}

func mDoneDel(op *DeleteOperation) {
	vModifies(op.allocator.reserveSlot)
	vModifies(&op.allocator.itemCounter)
	vModifiesGhostAt("pooled", vPtrID(op))
	vAllocates()
	if op.releaseAlloc {
		vModifies(&op.idx.allocatorQueue.slots[op.allocator.id].v)
	}
}

//verif:contract DeleteOperation.Finalize verifyonly
//verif:props C17 C06 C10 C18 C19 C12 C14
func contract_Finalize_delete_root(op *DeleteOperation) {
	vRequires(sDeleteOp(op) && op.kind == deleteRoot && op.idx.rootLeafLock == 1)
	op.kind = deleteRoot
	vModifies(&op.idx.root)
	vModifies(&op.idx.rootLeafLock)
	mDoneDel(op)
	items := op.allocator.itemCounter
	done := op.Finalize()
	vEnsures("a locked root is always removed", done && op.idx.root == 0)
	vEnsures("the count", op.allocator.itemCounter == items-1)
	vEnsures("the root lock is free", op.idx.rootLeafLock == 0)
	vEnsures("reservation and allocator are given back", sDoneDel(op))
}

//verif:contract DeleteOperation.Finalize verifyonly
//verif:props C17 C06 C10 C18 C19 C13 C12 C14
func contract_Finalize_delete256(op *DeleteOperation, pa uint64) {
	vRequires(sDeleteOp(op) && op.kind == deleteLeaf256)
	vRequires(sAddr(op.node) && sAddr(pa) && !sOdd(op.nodeGen))
	idx, node := op.idx, op.node
	op.kind = deleteLeaf256
	op.leafPtr = &idx.blocks[pa>>18].data[pa&(sBlockSlots-1)]
	vModifies(&idx.blocks[node>>18].locks[node&(sLocks-1)])
	vModifies(op.leafPtr)
	mDoneDel(op)
	was, items, gen := sWord(idx, pa), op.allocator.itemCounter, sLock(idx, node)
	done := op.Finalize()
	vEnsures("done exactly when the node and its leaf were still there", done == (was == op.raw && gen == op.nodeGen))
	vEnsures("the slot", sWord(idx, pa) == vIteU64(done, 0, was))
	vEnsures("the count", op.allocator.itemCounter == items || done)
	vEnsures("the count shrinks", op.allocator.itemCounter == items-1 || !done)
	vEnsures("no lock is kept", gen != op.nodeGen || sLock(idx, node) == gen+2)
	vEnsures("no lock is touched in a changed node", gen == op.nodeGen || sLock(idx, node) == gen)
	vEnsures("reservation and allocator are given back", sDoneDel(op))
}
