package radix

// Generation locks: even = unlocked, odd = locked; a lock can be taken only at
// the generation the caller observed.

//verif:contract Tree.lockNode
//verif:props C13
func contract_lockNode(idx *Tree, node uint64, gen int32) {
	vRequires(sBlocks(idx) && sAddr(node))
	vModifies(&idx.blocks[node>>18].locks[node&(sLocks-1)])
	old := sLock(idx, node)
	ok := idx.lockNode(node, gen)
	vEnsures("taken exactly when unlocked and at the observed generation", ok == (!sOdd(gen) && old == gen))
	vEnsures("a taken lock is odd", vImplies(ok, sLock(idx, node) == gen+1))
	vEnsures("a refused lock is untouched", vImplies(!ok, sLock(idx, node) == old))
}

//verif:contract Tree.unlockNode
//verif:props C13
func contract_unlockNode(idx *Tree, node uint64) {
	vRequires(sBlocks(idx) && sAddr(node) && sOdd(sLock(idx, node)))
	vModifies(&idx.blocks[node>>18].locks[node&(sLocks-1)])
	old := sLock(idx, node)
	idx.unlockNode(node)
	vEnsures("unlocking moves to the next generation", sLock(idx, node) == old+1)
}

//verif:contract Tree.lockNodes2
//verif:props C13
func contract_lockNodes2(idx *Tree, node uint64, nodeGen int32, parent uint64, parentGen int32) {
	vRequires(sBlocks(idx) && sAddr(node) && sAddr(parent))
	vModifies(&idx.blocks[node>>18].locks[node&(sLocks-1)])
	if parent != 0 {
		vModifies(&idx.blocks[parent>>18].locks[parent&(sLocks-1)])
	}
	on, op := sLock(idx, node), sLock(idx, parent)
	ok := idx.lockNodes2(node, nodeGen, parent, parentGen)
	vEnsures("taken exactly when both are unlocked and at the observed generations",
		ok == (!sOdd(nodeGen) && on == nodeGen && (parent == 0 || !sOdd(parentGen) && op == parentGen)))
	vEnsures("node is locked", vImplies(ok, sLock(idx, node) == nodeGen+1))
	vEnsures("parent is locked", vImplies(ok && parent != 0, sLock(idx, parent) == parentGen+1))
	vEnsures("nothing stays locked on refusal", vImplies(!ok, sLock(idx, node) == on && (parent == 0 || sLock(idx, parent) == op)))
}

//verif:contract Tree.unlockNodes2
//verif:props C13
func contract_unlockNodes2(idx *Tree, node uint64, parent uint64) {
	vRequires(sBlocks(idx) && sAddr(node) && sAddr(parent))
	vRequires(sOdd(sLock(idx, node)) && (parent == 0 || sOdd(sLock(idx, parent))))
	vModifies(&idx.blocks[node>>18].locks[node&(sLocks-1)])
	if parent != 0 {
		vModifies(&idx.blocks[parent>>18].locks[parent&(sLocks-1)])
	}
	on, op := sLock(idx, node), sLock(idx, parent)
	idx.unlockNodes2(node, parent)
	vEnsures("node moves to its next generation", sLock(idx, node) == on+1)
	vEnsures("parent moves to its next generation", vImplies(parent != 0, sLock(idx, parent) == op+1))
}

//verif:contract Tree.lockNodes3
//verif:props C13
func contract_lockNodes3(idx *Tree, child uint64, childGen int32, node uint64, nodeGen int32, parent uint64, parentGen int32) {
	vRequires(sBlocks(idx) && sAddr(child) && sAddr(node) && sAddr(parent) && node != 0)
	vModifies(&idx.blocks[child>>18].locks[child&(sLocks-1)])
	vModifies(&idx.blocks[node>>18].locks[node&(sLocks-1)])
	if parent != 0 {
		vModifies(&idx.blocks[parent>>18].locks[parent&(sLocks-1)])
	}
	oc, on, op := sLock(idx, child), sLock(idx, node), sLock(idx, parent)
	ok := idx.lockNodes3(child, childGen, node, nodeGen, parent, parentGen)
	vEnsures("taken exactly when all are unlocked and at the observed generations",
		ok == (!sOdd(childGen) && oc == childGen && !sOdd(nodeGen) && on == nodeGen && (parent == 0 || !sOdd(parentGen) && op == parentGen)))
	vEnsures("child is locked", vImplies(ok, sLock(idx, child) == childGen+1))
	vEnsures("node is locked", vImplies(ok, sLock(idx, node) == nodeGen+1))
	vEnsures("parent is locked", vImplies(ok && parent != 0, sLock(idx, parent) == parentGen+1))
	vEnsures("nothing stays locked on refusal", vImplies(!ok, sLock(idx, child) == oc && sLock(idx, node) == on && (parent == 0 || sLock(idx, parent) == op)))
}

//verif:contract Tree.unlockNodes3
//verif:props C13
func contract_unlockNodes3(idx *Tree, child, node, parent uint64) {
	vRequires(sBlocks(idx) && sAddr(child) && sAddr(node) && sAddr(parent) && node != 0)
	vRequires(sOdd(sLock(idx, child)) && sOdd(sLock(idx, node)) && (parent == 0 || sOdd(sLock(idx, parent))))
	vModifies(&idx.blocks[child>>18].locks[child&(sLocks-1)])
	vModifies(&idx.blocks[node>>18].locks[node&(sLocks-1)])
	if parent != 0 {
		vModifies(&idx.blocks[parent>>18].locks[parent&(sLocks-1)])
	}
	oc, on, op := sLock(idx, child), sLock(idx, node), sLock(idx, parent)
	idx.unlockNodes3(child, node, parent)
	vEnsures("child moves to its next generation", sLock(idx, child) == oc+1)
	vEnsures("node moves to its next generation", sLock(idx, node) == on+1)
	vEnsures("parent moves to its next generation", vImplies(parent != 0, sLock(idx, parent) == op+1))
}

//verif:contract Tree.lockLeafRoot
//verif:props C13
func contract_lockLeafRoot(idx *Tree, expectedValue uint64) {
	vRequires(idx != nil)
	vModifies(&idx.rootLeafLock)
	old, root := idx.rootLeafLock, idx.root
	ok := idx.lockLeafRoot(expectedValue)
	vEnsures("taken exactly when free and the root is the expected one", ok == (old == 0 && root == expectedValue))
	vEnsures("a taken root lock is held", vImplies(ok, idx.rootLeafLock == 1))
	vEnsures("a refused root lock is untouched", vImplies(!ok, idx.rootLeafLock == old))
}

//verif:contract Tree.unlockRoot
//verif:props C13
func contract_unlockRoot(idx *Tree) {
	vRequires(idx != nil && idx.rootLeafLock == 1)
	vModifies(&idx.rootLeafLock)
	idx.unlockRoot()
	vEnsures("the root lock is free", idx.rootLeafLock == 0)
}

//verif:contract Tree.generation
//verif:props C13
func contract_generation(idx *Tree, node uint64) {
	vRequires(sBlocks(idx) && sAddr(node))
	g := idx.generation(node)
	vEnsures("the node's current generation", g == sLock(idx, node))
}

//verif:contract Tree.isLocked
//verif:props C13
func contract_isLocked(idx *Tree, node uint64) {
	vRequires(sBlocks(idx) && sAddr(node))
	r := idx.isLocked(node)
	vEnsures("locked exactly when odd", r == sOdd(sLock(idx, node)))
}
