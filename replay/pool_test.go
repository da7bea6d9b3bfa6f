package radix

import (
	"fmt"
	"math/rand"
	"time"
)

func init() {
	vScenarios = append(vScenarios, func(r *rand.Rand, prop string) error {
		for _, n := range []int{1, 2, 3, 7, 16} {
			s := newSlots(n)
			held := map[int]bool{}
			for i := 0; i < 500; i++ {
				if s.available() != n-len(held) {
					return fmt.Errorf("pool of %d with %d reserved reports %d available", n, len(held), s.available())
				}
				if len(held) < n && r.Intn(2) == 0 {
					k := s.get()
					if k < 0 || k >= n || held[k] {
						return fmt.Errorf("pool of %d hands out %d twice or out of range", n, k)
					}
					held[k] = true
				} else {
					for k := range held {
						s.put(k)
						delete(held, k)
						break
					}
				}
			}
		}
		// a reservation waits until something is available
		s := newSlots(2)
		s.get()
		s.get()
		got := make(chan int, 1)
		go func() { got <- s.get() }()
		select {
		case k := <-got:
			return fmt.Errorf("an empty pool hands out %d", k)
		case <-time.After(20 * time.Millisecond):
		}
		s.put(1)
		if k := <-got; k != 1 {
			return fmt.Errorf("the pool hands out %d, 1 was available", k)
		}
		// epochs
		for i := 0; i < 2000; i++ {
			n := 1 + r.Intn(5)
			m := newEpochManager(n)
			min := uint64(maxUint64)
			for j := 0; j < n; j++ {
				if *m.reservations[j] != maxUint64 {
					return fmt.Errorf("a new epoch manager reserves %d", *m.reservations[j])
				}
				if r.Intn(2) == 0 {
					*m.reservations[j] = uint64(r.Intn(6))
					if *m.reservations[j] < min {
						min = *m.reservations[j]
					}
				}
			}
			if g := m.minReservation(); g != min {
				return fmt.Errorf("oldest reservation %d, want %d", g, min)
			}
		}
		t := &Tree{manager: newEpochManager(2)}
		a := newAllocator(t, 1, blockSize, nil)
		*t.manager.globalEpoch = 42
		a.startOp()
		if *t.manager.reservations[1] != 42 || *t.manager.reservations[0] != maxUint64 {
			return fmt.Errorf("startOp reserves %d in its slot, %d in another", *t.manager.reservations[1], *t.manager.reservations[0])
		}
		a.endOp()
		if *t.manager.reservations[1] != maxUint64 {
			return fmt.Errorf("endOp keeps %d reserved", *t.manager.reservations[1])
		}
		return nil
	})
}
