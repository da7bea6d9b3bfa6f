package radix

import (
	"fmt"
	"math/rand"
)

// every combination of shared and different locks, right and wrong generations
func init() {
	vScenarios = append(vScenarios, func(r *rand.Rand, prop string) error {
		t := &Tree{}
		for b := 0; b < 2; b++ {
			t.blocks[b] = &nodeBlock{data: make([]uint64, 8)}
		}
		addrs := []uint64{1, 2, 4096 + 1, 4096 + 2, 1 << blockSlotsShift, 1<<blockSlotsShift + 1, 1<<blockSlotsShift + 4096 + 1, 1<<blockSlotsShift + 4097 + 4096}
		lk := func(n uint64) *int32 { return &t.blocks[n>>blockSlotsShift].locks[n&lockOffsetMask] }
		snapshot := func() (s [2][locksPerBlock]int32) {
			s[0], s[1] = t.blocks[0].locks, t.blocks[1].locks
			return
		}
		for i := 0; i < 60000; i++ {
			k := 1 + r.Intn(3)
			var n [3]uint64
			var g [3]int32
			for j := 0; j < k; j++ {
				n[j] = addrs[r.Intn(len(addrs))]
			}
			noParent := r.Intn(6) == 0
			for _, a := range addrs {
				*lk(a) = int32(r.Intn(3)) * 2
				if r.Intn(8) == 0 {
					*lk(a)++
				}
				if r.Intn(20) == 0 {
					*lk(a) = -2 - int32(r.Intn(3))
				}
			}
			want := true
			for j := 0; j < k; j++ {
				g[j] = *lk(n[j])
				if r.Intn(5) == 0 {
					g[j] = int32(r.Intn(5))
				}
				if j == k-1 && noParent && k > 1 {
					n[j] = 0
					continue
				}
				if g[j]&1 != 0 || g[j] != *lk(n[j]) {
					want = false
				}
			}
			before := snapshot()
			var ok bool
			switch k {
			case 1:
				ok = t.lockNode(n[0], g[0])
			case 2:
				ok = t.lockNodes2(n[0], g[0], n[1], g[1])
			case 3:
				ok = t.lockNodes3(n[0], g[0], n[1], g[1], n[2], g[2])
			}
			after := snapshot()
			expect := before
			if want {
				for j := 0; j < k; j++ {
					if n[j] != 0 {
						expect[n[j]>>blockSlotsShift][n[j]&lockOffsetMask] = before[n[j]>>blockSlotsShift][n[j]&lockOffsetMask] + 1
					}
				}
			}
			if ok != want || after != expect {
				return fmt.Errorf("locking nodes %v at generations %v: %v, want %v; lock words as expected: %v", n[:k], g[:k], ok, want, after == expect)
			}
			if !ok {
				continue
			}
			for j := 0; j < k; j++ {
				if n[j] != 0 && (!t.isLocked(n[j]) || t.generation(n[j]) != g[j]+1) {
					return fmt.Errorf("locked node %d: isLocked %v generation %d", n[j], t.isLocked(n[j]), t.generation(n[j]))
				}
			}
			switch k {
			case 1:
				t.unlockNode(n[0])
			case 2:
				t.unlockNodes2(n[0], n[1])
			case 3:
				t.unlockNodes3(n[0], n[1], n[2])
			}
			for j := 0; j < k; j++ {
				if n[j] != 0 {
					expect[n[j]>>blockSlotsShift][n[j]&lockOffsetMask] = g[j] + 2
				}
			}
			if snapshot() != expect {
				return fmt.Errorf("unlocking nodes %v taken at generations %v leaves other lock words", n[:k], g[:k])
			}
		}
		t.root = 77
		for _, c := range []struct {
			lock int32
			exp  uint64
		}{{0, 77}, {0, 76}, {1, 77}, {1, 76}, {0, 0}} {
			t.rootLeafLock = c.lock
			ok := t.lockLeafRoot(c.exp)
			want := c.lock == 0 && c.exp == 77
			if ok != want || (t.rootLeafLock != c.lock) != want {
				return fmt.Errorf("root lock %d, expecting root %d: %v, lock is now %d", c.lock, c.exp, ok, t.rootLeafLock)
			}
			if ok {
				t.unlockRoot()
				if t.rootLeafLock != 0 {
					return fmt.Errorf("the root lock is %d after release", t.rootLeafLock)
				}
			}
		}
		return nil
	})
}
