package radix

import (
	"fmt"
	"sort"
	"sync/atomic"
	"unsafe"
)

// Checks of the internal state: structure, memory regions, locks, reservations.

type vregion struct {
	lo, n uint64
	what  string
}

func init() {
	vInternal = vcheckInternal
	vHotRecycle = func(t *Tree) {
		for _, a := range t.allocators {
			a.counter = 1 << 20
		}
	}
	vTreeMemory = func(t *Tree, p unsafe.Pointer) bool {
		if p == unsafe.Pointer(&t.root) {
			return true
		}
		for i := range t.blocks {
			b := t.blocks[i]
			if b == nil {
				return false
			}
			lo := uintptr(unsafe.Pointer(&b.data[0]))
			if uintptr(p) >= lo && uintptr(p) < lo+uintptr(len(b.data))*8 {
				return true
			}
		}
		return false
	}
	vReserved = func(a *Allocator) uint64 { return atomic.LoadUint64(a.reserveSlot) }
	vEpoch = func(t *Tree) uint64 { return atomic.LoadUint64(t.manager.globalEpoch) }
	vPoison = func(t *Tree) {
		min := uint64(maxUint64)
		for _, r := range t.manager.reservations {
			if *r < min {
				min = *r
			}
		}
		for _, a := range t.allocators {
			for sz, l := range a.recycler {
				for _, it := range l {
					if it.e < min {
						data := t.blocks[it.n>>blockSlotsShift].data[it.n&blockSlotsOffsetMask:][:sz]
						for i := range data {
							data[i] = 0xdead<<40 | leafBit | uint64(byte(data[i]))
						}
					}
				}
			}
		}
	}
}

func vcheckInternal(w *vworld, idle bool) error {
	var regs []vregion
	leaves := 0
	t := w.t
	var walk func(raw uint64, path []byte, top bool) error
	walk = func(raw uint64, path []byte, top bool) error {
		if isLeaf(raw) {
			leaves++
			v := getLeafValue(raw)
			k, ok := w.kk(v)
			if !ok || (!w.anyHeld() && w.m[k] != v) {
				return fmt.Errorf("leaf value %d at path %q is not stored", v, path)
			}
			full := append(append([]byte(nil), path...), byte(raw))
			if len(k) < len(full) || k[:len(full)] != string(full) {
				return fmt.Errorf("leaf of key %q at path %q", k, full)
			}
			return nil
		}
		key, node, count, pl := explodeNode(raw)
		if !top {
			path = append(append([]byte(nil), path...), key)
		}
		b, off := node>>blockSlotsShift, node&blockSlotsOffsetMask
		if t.blocks[b] == nil || node == 0 {
			return fmt.Errorf("node %d at %q outside of the blocks", node, path)
		}
		data := t.blocks[b].data[off:]
		prefix, slots := appendPrefix(nil, data, pl)
		if pl == 255 && len(prefix) < 255 {
			return fmt.Errorf("node %d at %q has a bad long prefix (%d)", node, path, len(prefix))
		}
		path = append(append([]byte(nil), path...), prefix...)
		if count >= fullAllocFrom && count != 256 || count < 2 {
			return fmt.Errorf("node %d at %q has %d children", node, path, count)
		}
		if off+uint64(slots+count) > 1<<blockSlotsShift {
			return fmt.Errorf("node %d at %q leaves its block", node, path)
		}
		regs = append(regs, vregion{node, uint64(slots + count), fmt.Sprintf("node at %q", path)})
		data = data[slots : slots+count]
		last := -1
		for i := range data {
			a := data[i]
			if a == 0 && count == 256 {
				continue
			}
			if a == 0 {
				return fmt.Errorf("node %d at %q has an empty child", node, path)
			}
			if count == 256 && int(byte(a)) != i {
				return fmt.Errorf("node %d at %q: slot %d holds key byte %d", node, path, i, byte(a))
			}
			if int(byte(a)) <= last {
				return fmt.Errorf("node %d at %q: children out of order", node, path)
			}
			last = int(byte(a))
			if err := walk(a, path, false); err != nil {
				return err
			}
		}
		return nil
	}
	root := atomic.LoadUint64(&t.root)
	if root != 0 {
		if err := walk(root, nil, true); err != nil {
			return err
		}
	}
	if leaves != len(w.m) {
		return fmt.Errorf("%d leaves for %d keys", leaves, len(w.m))
	}
	for i, a := range t.allocators {
		for sz, l := range a.recycler {
			for _, it := range l {
				regs = append(regs, vregion{it.n, uint64(sz), fmt.Sprintf("free %d of allocator %d", sz, i)})
			}
		}
		if !a.empty && a.nextFree < a.blockSize {
			lo := (a.offset + a.nextFree) >> 3
			hi := uint64(a.block+1) << blockSlotsShift
			if lo < hi {
				regs = append(regs, vregion{lo, hi - lo, fmt.Sprintf("unused part of allocator %d", i)})
			}
		}
	}
	sort.Slice(regs, func(i, j int) bool { return regs[i].lo < regs[j].lo })
	for i := 1; i < len(regs); i++ {
		if p := regs[i-1]; p.lo+p.n > regs[i].lo {
			return fmt.Errorf("overlapping memory: %s [%d+%d] and %s [%d+%d]", p.what, p.lo, p.n, regs[i].what, regs[i].lo, regs[i].n)
		}
	}
	if idle {
		for b := range t.blocks {
			nb := t.blocks[b]
			if nb == nil {
				break
			}
			for l := range nb.locks {
				if nb.locks[l]&1 == 1 {
					return fmt.Errorf("lock %d of block %d stays locked", l, b)
				}
			}
		}
		if t.rootLeafLock != 0 {
			return fmt.Errorf("the root lock stays locked (%d)", t.rootLeafLock)
		}
		for i, r := range t.manager.reservations {
			if *r != maxUint64 {
				return fmt.Errorf("allocator %d still reserves epoch %d", i, *r)
			}
		}
		n := t.liveObjects
		for _, a := range t.allocators {
			n += a.itemCounter
		}
		if n != int64(len(w.m)) {
			return fmt.Errorf("the counters say %d items, %d are stored", n, len(w.m))
		}
	}
	return nil
}
