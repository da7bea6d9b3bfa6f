package radix

// The allocator pool: slot i is 1 while allocator i is reserved.

func sSlots(s *slots) bool { return s != nil }

//verif:contract newSlots verifyonly
//verif:props C14
func contract_newSlots(n int) {
	vRequires(n >= 0 && n <= 1<<20)
	vAllocates()
	s := newSlots(n)
	vEnsures("pool of n", s != nil && len(s.slots) == n)
	vEnsures("all available", vForallIn(s.slots, func(i int) bool { return s.slots[i].v == 0 }))
}

//verif:contract slots.get
//verif:props C14
func contract_slots_get(s *slots) {
	vRequires(s != nil)
	vModifiesSlice(s.slots, 0, len(s.slots))
	i := s.get()
	vEnsures("an item of the pool", i >= 0 && i < len(s.slots))
	vEnsures("it was available", vOldU64(func() uint64 { return s.slots[i].v }) == 0)
	vEnsures("it is reserved now", s.slots[i].v == 1)
	vEnsures("no other item changes", vForallIn(s.slots, func(j int) bool {
		return vImplies(j != i, s.slots[j].v == vOldU64(func() uint64 { return s.slots[j].v }))
	}))
}

//verif:contract slots.put
//verif:props C14
func contract_slots_put(s *slots, i int) {
	vRequires(s != nil && i >= 0 && i < len(s.slots))
	vModifies(&s.slots[i].v)
	s.put(i)
	vEnsures("available again", s.slots[i].v == 0)
}

// nothing taken so far in this sweep
//verif:for slots.get
func inv_slotsSame(p_s *slots) bool {
	return vForallIn(p_s.slots, func(j int) bool {
		return p_s.slots[j].v == vOldU64(func() uint64 { return p_s.slots[j].v })
	})
}
