package radix

import (
	"bytes"
	"fmt"
	"math/rand"
)

func init() {
	vScenarios = append(vScenarios, func(r *rand.Rand, prop string) error {
		lens := append([]int(nil), vlens[1:]...)
		for i := 1; i < 600; i++ {
			lens = append(lens, i)
		}
		lens = append(lens, 65535, 65536, 70000, 1<<20)
		for _, n := range lens {
			for variant := 0; variant < 6; variant++ {
				if n > 2000 && variant > 1 {
					break
				}
				p := make([]byte, n)
				r.Read(p)
				if variant == 0 {
					for i := range p {
						p[i] = 0xff
					}
				}
				slots := (n + 7) / 8
				if n >= 255 {
					slots++
				}
				const guard = 0x1122334455667788
				data := make([]uint64, slots+2)
				for i := range data {
					data[i] = guard
				}
				if variant == 1 {
					storePrefix(data[1:1+slots], p)
				} else {
					storePrefix(data[1:], p)
				}
				if data[0] != guard || data[slots+1] != guard {
					return fmt.Errorf("storing a prefix of %d bytes writes outside of its %d words", n, slots)
				}
				pl := n
				if pl > 255 {
					pl = 255
				}
				had := r.Intn(5)
				dst := make([]byte, had, had+[]int{0, 1, n / 2, n, n + 3, 2*n + 9}[r.Intn(6)])
				r.Read(dst)
				keep := append([]byte(nil), dst...)
				for i := 0; i < 4; i++ {
					out, s := appendPrefix(dst, data[1:], pl)
					if s != slots || len(out) != had+n || !bytes.Equal(out[:had], keep) || !bytes.Equal(out[had:], p) {
						return fmt.Errorf("a prefix of %d bytes appended to %d bytes (capacity %d) reads back %d words (want %d), %d bytes, same=%v", n, had, cap(dst), s, slots, len(out)-had, len(out) == had+n && bytes.Equal(out[had:], p))
					}
				}
			}
		}
		if out, s := appendPrefix([]byte{1, 2}, make([]uint64, 2), 0); s != 0 || len(out) != 2 {
			return fmt.Errorf("the empty prefix reads back %d words, %d bytes", s, len(out)-2)
		}
		return nil
	})
}
