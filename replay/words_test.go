package radix

import (
	"fmt"
	"math/rand"
)

func vrand55(r *rand.Rand) uint64 {
	v := r.Uint64() >> 9
	if r.Intn(3) == 0 {
		v &= 1<<uint(r.Intn(56)) - 1
	}
	if r.Intn(4) == 0 {
		v = 1 << uint(r.Intn(55))
	}
	return v
}

func init() {
	vScenarios = append(vScenarios, func(r *rand.Rand, prop string) error {
		for i := 0; i < 300000; i++ {
			k, k2, v := byte(r.Intn(256)), byte(r.Intn(256)), vrand55(r)
			l := buildLeaf(k, v)
			if !isLeaf(l) || byte(l) != k || getLeafValue(l) != v {
				return fmt.Errorf("leaf %d,%d reads back %d,%d leaf=%v", k, v, byte(l), getLeafValue(l), isLeaf(l))
			}
			l2 := updateLeafKey(l, k2)
			if !isLeaf(l2) || byte(l2) != k2 || getLeafValue(l2) != v {
				return fmt.Errorf("updateLeafKey(leaf %d,%d to %d) gives %d,%d", k, v, k2, byte(l2), getLeafValue(l2))
			}
			a := v & valueMask2
			c := 1 + r.Intn(256)
			p := r.Intn(400)
			if r.Intn(4) == 0 {
				p = 250 + r.Intn(10)
			}
			if r.Intn(50) == 0 {
				p = r.Intn(1 << 20)
			}
			n := buildNode(k, a, c, p)
			wp := p
			if wp > 255 {
				wp = 255
			}
			gk, ga, gc, gp := explodeNode(n)
			if isLeaf(n) || gk != k || ga != a || gc != c || gp != wp || getNodeValue(n) != a {
				return fmt.Errorf("node key=%d addr=%d count=%d prefix=%d reads back %d,%d(%d),%d,%d leaf=%v", k, a, c, p, gk, ga, getNodeValue(n), gc, gp, isLeaf(n))
			}
		}
		return nil
	})
}
