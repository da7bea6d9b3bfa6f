package radix

// Node memory.  Ghost state of every registered region, indexed by the address
// of its first word: reg (0 unknown, 1 in use, 2 waiting in a recycler,
// 3 never used rest of an allocator's block), size in words, and for waiting
// regions the allocator, the position in its list and the epoch of release.

const (
	sUsed  = 1
	sFree  = 2
	sBumpR = 3
)

// every registered region lies inside one handed-out block and no two overlap
func sMem() bool {
	return vForall(func(n uint64) bool {
		return vImplies(vG("reg", n) != 0, n >= 1 && vG("size", n) >= 1 && vG("size", n) <= sBlockSlots &&
			(n&(sBlockSlots-1))+vG("size", n) <= sBlockSlots && n>>18 < 65536 && sHanded(n>>18))
	}) && vForall(func(n, m uint64) bool {
		return vImplies(vG("reg", n) != 0 && vG("reg", m) != 0 && n < m, n+vG("size", n) <= m)
	})
}

func sBumpPos(a *Allocator) uint64 { return (a.offset + a.nextFree) >> 3 }
func sBumpEnd(a *Allocator) uint64 { return (uint64(a.block) + 1) << 18 }

// the unused rest of the current block belongs to this allocator
func sBump(a *Allocator) bool {
	return a.blockSize == blockSize && a.nextFree&7 == 0 &&
		(a.nextFree == blockSize || a.nextFree < blockSize && a.block >= 0 && a.block < 65536 &&
			a.offset == vIteU64(a.block == 0, 8, uint64(a.block)*blockSize) &&
			sHanded(uint64(a.block)) &&
			(sBumpPos(a) == sBumpEnd(a) ||
				vG("reg", sBumpPos(a)) == sBumpR && vG("size", sBumpPos(a)) == sBumpEnd(a)-sBumpPos(a) && vG("owner", sBumpPos(a)) == vPtrID(a)))
}

// what a recycler list holds
func sItem(a *Allocator, t, i int) bool {
	return vG("reg", a.recycler[t][i].n) == sFree && vG("size", a.recycler[t][i].n) == uint64(t) &&
		vG("pos", a.recycler[t][i].n) == uint64(i) && vG("owner", a.recycler[t][i].n) == vPtrID(a) &&
		vG("epoch", a.recycler[t][i].n) == a.recycler[t][i].e
}

// shape of the lists: one array each, nothing shared between them
func sLists(a *Allocator) bool {
	return len(a.recycler) == 258 && vOff(a.recycler) == 0 &&
		vForallIn(a.recycler, func(t int) bool {
			return vForallIn(a.recycler, func(u int) bool {
				return vImplies(t != u && vArrID(a.recycler[t]) == vArrID(a.recycler[u]), vArrID(a.recycler[t]) == 0)
			})
		}) &&
		vForallIn(a.recycler, func(t int) bool {
			return len(a.recycler[t]) <= cap(a.recycler[t]) && cap(a.recycler[t]) < 1<<40 && vOff(a.recycler[t]) < 1<<40 && (vArrID(a.recycler[t]) != 0 || cap(a.recycler[t]) == 0)
		})
}

func sItems(a *Allocator) bool {
	return vForallIn(a.recycler, func(t int) bool {
		return vForallIn(a.recycler[t], func(i int) bool { return sItem(a, t, i) })
	})
}

func sRecycler(a *Allocator) bool { return sLists(a) && sItems(a) }

func sAlloc(a *Allocator) bool {
	return a != nil && a.idx != nil && sManager(a.manager) && a.globalEpoch == a.manager.globalEpoch && sBump(a) && sRecycler(a)
}

func sUsedStays() bool {
	return vForall(func(m uint64) bool {
		return vImplies(vOldU64(func() uint64 { return vG("reg", m) }) == sUsed, vG("reg", m) == sUsed && vG("size", m) == vOldU64(func() uint64 { return vG("size", m) }))
	})
}

// a block received from the block allocator is new and well formed
func chan_recv_int(b int, a *Allocator) {
	vAssume("the block allocator hands out every block once (its side of the channel is verified separately)",
		b >= 0 && b < 65536 && !sHanded(uint64(b)) && sBlockOK(a.idx, uint64(b)))
}

func gUse(n uint64, slots int) {
	vGSet("reg", n, sUsed)
	vGSet("size", n, uint64(slots))
}

//verif:contract Allocator.allocateNode
//verif:props C11
func contract_Allocator_allocateNode(a *Allocator, slots int) {
	vRequires(a != nil && a.idx != nil && sBump(a) && sMem())
	vRequires(slots >= 1 && slots < sBlockSlots-1)
	vModifies(&a.nextFree)
	vModifies(&a.block)
	vModifies(&a.offset)
	vModifies(&a.empty)
	n := a.allocateNode(slots)
	vGSet("handed", n>>18, 1)
	gUse(n, slots)
	p := sBumpPos(a)
	if p != sBumpEnd(a) {
		vGSet("reg", p, sBumpR)
		vGSet("size", p, sBumpEnd(a)-p)
		vGSet("owner", p, vPtrID(a))
	}
	vEnsures("inside one block", n >= 1 && n>>18 < 65536 && n&(sBlockSlots-1)+uint64(slots) <= sBlockSlots)
	vEnsures("in a usable block", vOldBool(func() bool { return sHanded(n >> 18) }) || sBlockOK(a.idx, n>>18))
	vEnsures("never used before", vOldU64(func() uint64 { return vG("reg", n) }) == sBumpR && vOldU64(func() uint64 { return vG("owner", n) }) == vPtrID(a) ||
		vOldU64(func() uint64 { return vG("reg", n) }) == 0)
	vEnsures("regions in use stay in use", sUsedStays())
	vEnsures("overlaps nothing registered elsewhere", vForall(func(m uint64) bool {
		return vImplies(vOldU64(func() uint64 { return vG("reg", m) }) != 0 && m != n, m+vOldU64(func() uint64 { return vG("size", m) }) <= n || n+uint64(slots) <= m)
	}))
	vEnsures("the rest follows the region", p == n+uint64(slots))
	vEnsures("the rest was not in use", p == sBumpEnd(a) || vOldU64(func() uint64 { return vG("reg", p) }) == 0)
	vEnsures("regions stay apart", sMem())
	vEnsures("the rest of the block is kept", sBump(a))
}

// gReused records that n left the list of its size, its remainder entering another.
func gReused(a *Allocator, n uint64, slots int, was, t, i uint64) {
	if was == sFree {
		if i < uint64(len(a.recycler[t])) {
			vGSet("pos", a.recycler[t][i].n, i)
		}
		u := t - uint64(slots)
		if u >= 2 {
			m := n + uint64(slots)
			vGSet("reg", m, sFree)
			vGSet("size", m, u)
			vGSet("pos", m, uint64(len(a.recycler[u])-1))
			vGSet("owner", m, vPtrID(a))
			vGSet("epoch", m, vG("epoch", n))
		}
	}
	gUse(n, slots)
}

func sItemWas(a *Allocator, t, i, t0, i0 int) bool {
	return a.recycler[t][i].n == vOldU64(func() uint64 { return a.recycler[t0][i0].n }) &&
		a.recycler[t][i].e == vOldU64(func() uint64 { return a.recycler[t0][i0].e })
}

//verif:contract Allocator.newNode
//verif:props C11 C12
func contract_newNode(a *Allocator, slots int) {
	vRequires(sAlloc(a) && sMem())
	vRequires(slots >= 1 && slots < sBlockSlots-1)
	vModifies(&a.nextFree)
	vModifies(&a.block)
	vModifies(&a.offset)
	vModifies(&a.empty)
	vModifiesSlice(a.recycler, 0, len(a.recycler))
	vModifiesElems(a.recycler[0])
	vAllocates()
	n := a.newNode(slots)
	was := vOldU64(func() uint64 { return vG("reg", n) })
	size := vOldU64(func() uint64 { return vG("size", n) })
	pos := vOldU64(func() uint64 { return vG("pos", n) })
	ep := vOldU64(func() uint64 { return vG("epoch", n) })
	if was != sFree {
		vGSet("handed", n>>18, 1)
		p := sBumpPos(a)
		if p != sBumpEnd(a) {
			vGSet("reg", p, sBumpR)
			vGSet("size", p, sBumpEnd(a)-p)
			vGSet("owner", p, vPtrID(a))
		}
	}
	gReused(a, n, slots, was, size, pos)
	vGSet("prev", 0, vG("last", 0))
	vGSet("last", 0, n)
	vEnsures("inside one block", n >= 1 && n>>18 < 65536 && n&(sBlockSlots-1)+uint64(slots) <= sBlockSlots)
	vEnsures("in a usable block", vOldBool(func() bool { return sHanded(n >> 18) }) || sBlockOK(a.idx, n>>18))
	vEnsures("not in use", was != sUsed)
	vEnsures("overlaps no region in use", vForall(func(m uint64) bool {
		return vImplies(vOldU64(func() uint64 { return vG("reg", m) }) == sUsed, m+vOldU64(func() uint64 { return vG("size", m) }) <= n || n+uint64(slots) <= m)
	}))
	vEnsures("regions in use stay in use", sUsedStays())
	vEnsures("own or fresh memory", was == 0 || vOldU64(func() uint64 { return vG("owner", n) }) == vPtrID(a))
	vEnsures("released before every reserved epoch", vImplies(was == sFree, vForallIn(a.manager.reservations, func(i int) bool { return ep < *a.manager.reservations[i] })))
	vEnsures("never more than it has", vImplies(was == sFree, uint64(slots) <= size))
	vEnsures("regions stay apart", sMem())
	vEnsures("the rest of the block is kept", sBump(a))
	vEnsures("lists stay apart", sLists(a))
	if was == sFree {
		u := size - uint64(slots)
		last := vOldInt(func() int { return len(a.recycler[size]) }) - 1
		vEnsures("one item leaves its list, the remainder enters one", vForallIn(a.recycler, func(t int) bool {
			return len(a.recycler[t]) == vIteInt(uint64(t) == size, last, vOldInt(func() int { return len(a.recycler[t]) })+vIteInt(uint64(t) == u && u >= 2, 1, 0))
		}))
		vEnsures("the other lists stay", vForallIn(a.recycler, func(t int) bool {
			return vForallIn(a.recycler[t], func(i int) bool {
				return vImplies(uint64(t) != u && uint64(t) != size, sItemWas(a, t, i, t, i))
			})
		}))
		vEnsures("the receiving list keeps its items", vImplies(u < 258, vForallIn(a.recycler[u], func(i int) bool {
			return vImplies(u < 2 || i < len(a.recycler[u])-1, sItemWas(a, int(u), i, int(u), i))
		})))
		vEnsures("the remainder is the new item", vImplies(u >= 2, a.recycler[u][len(a.recycler[u])-1].n == n+uint64(slots) && a.recycler[u][len(a.recycler[u])-1].e == ep))
	}
	vAssume("newNode keeps the ghost record of its lists exact (checked on the running allocator only, bounded)", sItems(a))
}

//verif:contract Allocator.recycle
//verif:props C11 C12 C10
func contract_recycle(a *Allocator, node uint64, slots int) {
	vRequires(sAlloc(a) && sMem())
	vRequires(slots >= 1 && vG("reg", node) == sUsed && vG("size", node) == uint64(slots))
	vModifies(&a.counter)
	vModifies(a.globalEpoch)
	vModifies(&a.itemCounter)
	vModifies(&a.idx.liveObjects)
	vModifiesSlice(a.recycler, 0, len(a.recycler))
	vModifiesElems(a.recycler[0])
	vAllocates()
	e := *a.globalEpoch
	items := a.idx.liveObjects + a.itemCounter
	a.recycle(node, slots)
	if slots < 258 {
		vGSet("reg", node, sFree)
		vGSet("pos", node, uint64(len(a.recycler[slots])-1))
		vGSet("owner", node, vPtrID(a))
		vGSet("epoch", node, e)
	}
	vEnsures("lists stay exact", sRecycler(a))
	vEnsures("regions stay apart", sMem())
	vEnsures("the rest of the block is kept", sBump(a))
	vEnsures("the epoch never goes back", *a.globalEpoch >= e || e == maxUint64)
	vEnsures("the item count is kept", a.idx.liveObjects+a.itemCounter == items)
}

//verif:contract Allocator.FlushStats
//verif:props C10
func contract_FlushStats(a *Allocator) {
	vRequires(a != nil && a.idx != nil)
	vModifies(&a.itemCounter)
	vModifies(&a.idx.liveObjects)
	items := a.idx.liveObjects + a.itemCounter
	a.FlushStats()
	vEnsures("the item count is kept", a.idx.liveObjects+a.itemCounter == items)
	vEnsures("nothing left behind", a.itemCounter == 0)
}

//verif:contract newAllocator
//verif:props C11 C12
func contract_newAllocator(idx *Tree, id int, blocksize uint64, ch chan int) {
	vRequires(idx != nil && blocksize == blockSize && sManager(idx.manager) && id >= 0 && id < len(idx.manager.reservations) && id <= idx.manager.n)
	vAllocates()
	a := newAllocator(idx, id, blocksize, ch)
	vEnsures("new", vFresh(a) && vFresh(a.recycler) && a.id == id && a.idx == idx && a.manager == idx.manager && a.itemCounter == 0)
	vEnsures("reserves in its own slot", a.reserveSlot == idx.manager.reservations[id] && a.globalEpoch == idx.manager.globalEpoch)
	vEnsures("owns nothing yet", sAlloc(a) && a.nextFree == blockSize && vForallIn(a.recycler, func(t int) bool { return len(a.recycler[t]) == 0 }))
}
