package radix

// Epochs: a reader reserves the global epoch while it works; memory recycled
// at that epoch or later must not be reused until the reservation is gone.

func sManager(m *epochManager) bool {
	return m != nil && m.globalEpoch != nil && vDetached(m.globalEpoch) && vForallIn(m.reservations, func(i int) bool {
		return m.reservations[i] != nil && vDetached(m.reservations[i]) && vPtrID(m.reservations[i]) != vPtrID(m.globalEpoch)
	})
}

//verif:contract newEpochManager
//verif:props C12
func contract_newEpochManager(n int) {
	vRequires(n >= 0 && n <= 1<<20)
	vAllocates()
	m := newEpochManager(n)
	vEnsures("usable", sManager(m) && m.n == n && len(m.reservations) == n && vFresh(m) && vFresh(m.reservations) && vFresh(m.globalEpoch))
	vEnsures("nothing reserved", vForallIn(m.reservations, func(i int) bool { return *m.reservations[i] == maxUint64 }))
	vEnsures("one reservation per allocator", vForallIn(m.reservations, func(i int) bool {
		return vForallIn(m.reservations, func(j int) bool {
			return vImplies(i != j, vPtrID(m.reservations[i]) != vPtrID(m.reservations[j]))
		})
	}))
}

//verif:for newEpochManager
func inv_reservations(m *epochManager, l_i int) bool {
	return vForallIn(m.reservations, func(i int) bool {
		return vImplies(i <= l_i, m.reservations[i] != nil && vDetached(m.reservations[i]) && vAllocated(m.reservations[i]) && *m.reservations[i] == maxUint64 && vPtrID(m.reservations[i]) != vPtrID(m.globalEpoch))
	}) && vForallIn(m.reservations, func(i int) bool {
		return vForallIn(m.reservations, func(j int) bool {
			return vImplies(i <= l_i && j <= l_i && i != j, vPtrID(m.reservations[i]) != vPtrID(m.reservations[j]))
		})
	})
}

//verif:contract epochManager.minReservation
//verif:props C12
func contract_minReservation(m *epochManager) {
	vRequires(sManager(m))
	r := m.minReservation()
	vEnsures("not above any reservation", vForallIn(m.reservations, func(i int) bool { return r <= *m.reservations[i] }))
}

//verif:for epochManager.minReservation
func inv_minSoFar(p_m *epochManager, l_r uint64, l_i int) bool {
	return vForallIn(p_m.reservations, func(i int) bool { return vImplies(i <= l_i, l_r <= *p_m.reservations[i]) })
}

//verif:contract Allocator.startOp
//verif:props C12
func contract_startOp(a *Allocator) {
	vRequires(a != nil && a.reserveSlot != nil && a.globalEpoch != nil)
	vModifies(a.reserveSlot)
	e := *a.globalEpoch
	a.startOp()
	vEnsures("the current epoch is reserved", *a.reserveSlot == e)
}

//verif:contract Allocator.endOp
//verif:props C12
func contract_endOp(a *Allocator) {
	vRequires(a != nil && a.reserveSlot != nil)
	vModifies(a.reserveSlot)
	a.endOp()
	vEnsures("the reservation is gone", *a.reserveSlot == maxUint64)
}
