package radix

// Well-formedness of the block table.  A block is handed out (ghost state
// "handed") to one allocator, after that nodes may live in it; every block has
// its own data array of 1<<18 words.

const (
	sBlockSlots = 1 << 18
	sLocks      = 4096
)

// every block's data is a whole array of this size, from its creation on
//verif:fixed nodeBlock.data 262144
func sFixed() {}

func sHanded(b uint64) bool { return vG("handed", b) == 1 }

func sBlocks(idx *Tree) bool {
	return idx != nil && vForall(func(b uint64) bool {
		return vImplies(sHanded(b), b < 65536 && sBlockOK(idx, b))
	})
}

func sBlockOK(idx *Tree, b uint64) bool {
	nb := idx.blocks[b]
	return nb != nil && vArrID(nb.data) != 0 && len(nb.data) == sBlockSlots && cap(nb.data) == sBlockSlots && vOff(nb.data) == 0 &&
		vG("blockOf", vPtrID(nb)) == b && vG("dataOf", vArrID(nb.data)) == b
}

// a node address inside a block in use
func sAddr(node uint64) bool { return sHanded(node >> 18) }

// the generation counter of a node
func sLock(idx *Tree, node uint64) int32 {
	return idx.blocks[node>>18].locks[node&(sLocks-1)]
}

func sSameLock(a, b uint64) bool { return a>>18 == b>>18 && a&(sLocks-1) == b&(sLocks-1) }

func sOdd(g int32) bool { return g&1 == 1 }

// the words of a node, from its first slot to the end of its block
func sData(idx *Tree, node uint64) []uint64 {
	return idx.blocks[node>>18].data[node&(sBlockSlots-1):]
}
