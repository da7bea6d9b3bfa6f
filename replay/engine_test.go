package radix

// Search for a concrete failing input, run only after the verifier has refused
// an obligation (or as a bounded stand-in where DESIGN.md says so).  Public API
// only; internal_test.go adds checks of the structure when it compiles.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
	"unsafe"
)

type vop struct {
	K   string // kind
	A   int    `json:",omitempty"` // allocator
	Key string `json:",omitempty"`
	V   uint64 `json:",omitempty"`
}

func (o vop) String() string { return fmt.Sprintf("%s a%d %q v%d", o.K, o.A, o.Key, o.V) }

type vworld struct {
	t      *Tree
	allocs int
	al     []*Allocator
	m      map[string]uint64 // oracle
	keyOf  map[uint64]string // value -> key (values are never reused)
	held   []*vheld
	steps  int
	deep   bool // check the structure after every step
	every  int
	mu     sync.Mutex
}

type vheld struct {
	del   *DeleteOperation
	upd   *UpdateOperation
	key   string
	v     uint64
	match bool
	old   uint64
}

func (w *vworld) kk(v uint64) (string, bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	k, ok := w.keyOf[v]
	return k, ok
}

func (w *vworld) k1(v uint64) string { k, _ := w.kk(v); return k }

func (w *vworld) setk(v uint64, k string) {
	w.mu.Lock()
	w.keyOf[v] = k
	w.mu.Unlock()
}

// set by internal_test.go
var vInternal func(w *vworld, idle bool) error
var vScenarios []func(r *rand.Rand, prop string) error
var vDeadline time.Time

// set by sched_test.go: explores schedules for some seconds
var vSched func(r *rand.Rand, secs int) (string, interface{}, error, int)

// set by internal_test.go: makes the next recycled region start a new epoch
var vHotRecycle func(t *Tree)

// set by internal_test.go: overwrites all memory that may be reused now
var vPoison func(t *Tree)

// set by internal_test.go
var vTreeMemory func(t *Tree, p unsafe.Pointer) bool
var vReserved func(a *Allocator) uint64
var vEpoch func(t *Tree) uint64

func vwriteCur(f string, v interface{}) {
	b, _ := json.Marshal(v)
	os.WriteFile(f, b, 0o644)
}

func vEnv(name, def string) string {
	if s := os.Getenv(name); s != "" {
		return s
	}
	return def
}

func (w *vworld) open(n int) {
	w.t = NewTree(&Options{NumAllocators: n})
	w.allocs = n
	w.reserve()
}

func (w *vworld) reserve() {
	w.al = make([]*Allocator, w.allocs)
	for i := range w.al {
		w.al[i] = w.t.GetAllocator()
	}
	w.held = make([]*vheld, w.allocs)
}

func (w *vworld) release() {
	for _, a := range w.al {
		w.t.ReleaseAllocator(a)
	}
	w.al = nil
}

func (w *vworld) close() {
	if w.al != nil {
		w.release()
	}
	w.t.Close()
}

func vcopy(s string) []byte { return append([]byte(nil), s...) }

// upsert runs the documented protocol until it is not refused any more.
func (w *vworld) upsert(a *Allocator, key string, v uint64) error {
	for try := 0; ; try++ {
		if try > 1000000 {
			return fmt.Errorf("upsert of %q is refused for ever", key)
		}
		found, op := a.PrepareUpdate(vcopy(key))
		if found {
			k, ok := w.kk(op.Value)
			if !ok {
				return fmt.Errorf("PrepareUpdate(%q) reports candidate value %d which was never stored", key, op.Value)
			}
			op.FetchedKey = append(op.FetchedKey[:0], k...)
			op.Match = k == key
		}
		if op.Finalize(v) {
			return nil
		}
	}
}

func (w *vworld) remove(a *Allocator, key string) (bool, error) {
	for try := 0; ; try++ {
		if try > 1000000 {
			return false, fmt.Errorf("delete of %q is refused for ever", key)
		}
		found, op := a.PrepareDelete(vcopy(key))
		if !found {
			if op != nil {
				return false, fmt.Errorf("PrepareDelete(%q): not found with an operation", key)
			}
			return false, nil
		}
		k, ok := w.kk(op.Value)
		if !ok {
			return false, fmt.Errorf("PrepareDelete(%q) reports candidate value %d which was never stored", key, op.Value)
		}
		if k != key {
			op.Abort()
			return false, nil
		}
		if op.Finalize() {
			return true, nil
		}
	}
}

func (w *vworld) lookup(a *Allocator, key string) error {
	v, ok := a.Lookup(vcopy(key))
	want, stored := w.m[key]
	if stored && (!ok || v != want) {
		return fmt.Errorf("Lookup(%q) = %d,%v want %d", key, v, ok, want)
	}
	if !stored && ok {
		k, known := w.kk(v)
		if !known || w.m[k] != v {
			return fmt.Errorf("Lookup(%q) = %d which is no stored value", key, v)
		}
		if len(key) == 0 || len(w.m) == 0 {
			return fmt.Errorf("Lookup(%q) finds something", key)
		}
	}
	return nil
}

func (w *vworld) sorted(prefix string) []string {
	var ks []string
	for k := range w.m {
		if strings.HasPrefix(k, prefix) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return ks
}

// withTree runs f while allocator slots are free, f uses the tree's own API
func (w *vworld) withTree(f func() error) error {
	w.release()
	err := vtimed(f)
	if err == nil {
		w.reserve()
	} else {
		w.al = nil
	}
	return err
}

func vtimed(f func() error) error {
	ch := make(chan error, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				ch <- fmt.Errorf("panic: %v", e)
			}
		}()
		ch <- f()
	}()
	select {
	case err := <-ch:
		return err
	case <-time.After(20 * time.Second):
		return fmt.Errorf("does not return")
	}
}

func (w *vworld) queries(prefix string) error {
	return w.withTree(func() error {
		ks := w.sorted(prefix)
		cand := func(v uint64) bool { // a single candidate leaf without the prefix
			k, ok := w.kk(v)
			return ok && w.m[k] == v && len(ks) == 0 && len(prefix) > 0 && k != "" && k[0] == prefix[0]
		}
		p := vcopy(prefix)
		v, ok := w.t.MinKey(p)
		if len(ks) > 0 && (!ok || v != w.m[ks[0]]) || len(ks) == 0 && ok && !cand(v) {
			return fmt.Errorf("MinKey(%q) = %d,%v (%d keys have the prefix)", prefix, v, ok, len(ks))
		}
		v, ok = w.t.MaxKey(p)
		if len(ks) > 0 && (!ok || v != w.m[ks[len(ks)-1]]) || len(ks) == 0 && ok && !cand(v) {
			return fmt.Errorf("MaxKey(%q) = %d,%v (%d keys have the prefix)", prefix, v, ok, len(ks))
		}
		it := w.t.NewIterator(p)
		n := 0
		for it.Next() {
			v := it.Value()
			if n >= len(ks) {
				if n == 0 && cand(v) {
					n++
					continue
				}
				return fmt.Errorf("Iterator(%q) yields %d (%q) after the last key", prefix, v, w.k1(v))
			}
			if w.m[ks[n]] != v {
				return fmt.Errorf("Iterator(%q) item %d is %d (%q), want %q", prefix, n, v, w.k1(v), ks[n])
			}
			n++
		}
		if n < len(ks) {
			return fmt.Errorf("Iterator(%q) ends after %d of %d keys", prefix, n, len(ks))
		}
		for i := 0; i < 3; i++ {
			if it.Next() {
				return fmt.Errorf("Iterator(%q) continues after its end", prefix)
			}
		}
		it.Close()
		_, leaves := w.t.Count(p)
		if leaves != len(ks) && !(len(ks) == 0 && leaves == 1) {
			return fmt.Errorf("Count(%q) = %d leaves, want %d", prefix, leaves, len(ks))
		}
		if n := w.t.Len(); n != len(w.m) {
			return fmt.Errorf("Len() = %d, want %d", n, len(w.m))
		}
		return nil
	})
}

func (w *vworld) roundTrip() error {
	return w.withTree(func() error {
		w.t.Stop()
		var buf bytes.Buffer
		n, err := w.t.WriteState(&buf)
		if err != nil || n != buf.Len() {
			return fmt.Errorf("WriteState = %d,%v (%d bytes written)", n, err, buf.Len())
		}
		state := buf.Bytes()
		t2, err := NewTreeFromState(bytes.NewReader(state))
		if err != nil {
			return fmt.Errorf("NewTreeFromState of a saved tree: %v", err)
		}
		w.t.Start()
		w.t.Close()
		w.t = t2
		if n := t2.Len(); n != len(w.m) {
			return fmt.Errorf("Len() = %d after loading, want %d", n, len(w.m))
		}
		return nil
	})
}

func (w *vworld) anyHeld() bool {
	for _, h := range w.held {
		if h != nil {
			return true
		}
	}
	return false
}

// finish ends a held operation
func (w *vworld) finish(i int, abort bool) error {
	h := w.held[i]
	if h == nil {
		return nil
	}
	w.held[i] = nil
	cur, stored := w.m[h.key]
	if h.del != nil {
		if abort {
			h.del.Abort()
			return nil
		}
		if h.del.Finalize() {
			if !stored || cur != h.old {
				return fmt.Errorf("a stale delete of %q (prepared when it had value %d, now %d) reports success", h.key, h.old, cur)
			}
			delete(w.m, h.key)
		}
		return nil
	}
	if abort {
		h.upd.Abort()
		return nil
	}
	w.setk(h.v, h.key)
	if h.upd.Finalize(h.v) {
		if h.match && (!stored || cur != h.old) || !h.match && stored {
			return fmt.Errorf("a stale update of %q reports success", h.key)
		}
		w.m[h.key] = h.v
	}
	return nil
}

// guarded runs f; when it blocks, held operations are finished first
func (w *vworld) guarded(f func() error) error {
	if !w.anyHeld() {
		return vtimed(f)
	}
	ch := make(chan error, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				ch <- fmt.Errorf("panic: %v", e)
			}
		}()
		ch <- f()
	}()
	select {
	case err := <-ch:
		return err
	case <-time.After(3 * time.Millisecond):
	}
	for i := range w.held {
		if err := w.finish(i, i&1 == 1); err != nil {
			return err
		}
	}
	select {
	case err := <-ch:
		return err
	case <-time.After(20 * time.Second):
		return fmt.Errorf("blocks for ever")
	}
}

func (w *vworld) step(o vop) (err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v", e)
		}
	}()
	i := o.A % w.allocs
	a := w.al[i]
	switch o.K {
	case "put":
		if err := w.finish(i, false); err != nil {
			return err
		}
		w.setk(o.V, o.Key)
		if err := w.guarded(func() error { return w.upsert(a, o.Key, o.V) }); err != nil {
			return err
		}
		w.m[o.Key] = o.V
	case "del":
		if err := w.finish(i, false); err != nil {
			return err
		}
		var ok bool
		if err := w.guarded(func() (err error) { ok, err = w.remove(a, o.Key); return }); err != nil {
			return err
		}
		if _, stored := w.m[o.Key]; stored != ok {
			return fmt.Errorf("delete of %q = %v", o.Key, ok)
		}
		delete(w.m, o.Key)
	case "get":
		if w.held[i] != nil {
			return nil
		}
		return w.lookup(a, o.Key)
	case "hold-put", "hold-del":
		if err := w.finish(i, false); err != nil {
			return err
		}
		h := &vheld{key: o.Key, v: o.V}
		old, stored := w.m[o.Key]
		h.old, h.match = old, stored
		got := false
		err := w.guarded(func() error {
			var found bool
			if o.K == "hold-put" {
				found, h.upd = a.PrepareUpdate(vcopy(o.Key))
				got = true
				if found {
					k, ok := w.kk(h.upd.Value)
					if !ok {
						return fmt.Errorf("PrepareUpdate(%q) reports value %d which was never stored", o.Key, h.upd.Value)
					}
					h.upd.FetchedKey = append(h.upd.FetchedKey[:0], k...)
					h.upd.Match = k == o.Key
					if h.match != h.upd.Match {
						return fmt.Errorf("PrepareUpdate(%q) finds %q", o.Key, k)
					}
				} else if h.match {
					return fmt.Errorf("PrepareUpdate(%q) does not find the stored key", o.Key)
				}
				return nil
			}
			found, h.del = a.PrepareDelete(vcopy(o.Key))
			got = found
			if !found && h.match {
				return fmt.Errorf("PrepareDelete(%q) does not find the stored key", o.Key)
			}
			if found {
				k := w.k1(h.del.Value)
				if (k == o.Key) != h.match {
					return fmt.Errorf("PrepareDelete(%q) finds %q", o.Key, k)
				}
				if k != o.Key {
					h.del.Abort()
					got = false
				}
			}
			return nil
		})
		if err != nil {
			// another held operation may have been finished while this one was waiting
			if now, st := w.m[o.Key]; st != stored || now != old {
				err = nil
			}
			if err != nil {
				return err
			}
		}
		if got {
			if now, st := w.m[o.Key]; st != stored || now != old {
				h.old, h.match = now, st
				if h.upd != nil {
					h.upd.Abort()
				} else {
					h.del.Abort()
				}
				return nil
			}
			w.held[i] = h
		}
	case "finish":
		return w.guardFinish(i, false)
	case "abort":
		return w.guardFinish(i, true)
	case "query":
		for j := range w.held {
			if err := w.finish(j, false); err != nil {
				return err
			}
		}
		return w.queries(o.Key)
	case "save":
		for j := range w.held {
			if err := w.finish(j, false); err != nil {
				return err
			}
		}
		return w.roundTrip()
	case "stop":
		for j := range w.held {
			if err := w.finish(j, false); err != nil {
				return err
			}
		}
		return w.withTree(func() error {
			w.t.Stop()
			w.t.Stop()
			if n := w.t.Len(); n != len(w.m) {
				return fmt.Errorf("Len() = %d on the stopped tree, want %d", n, len(w.m))
			}
			got := make(chan bool, 1)
			go func() { a := w.t.GetAllocator(); w.t.ReleaseAllocator(a); got <- true }()
			select {
			case <-got:
				return fmt.Errorf("an allocator of the stopped tree can be reserved")
			case <-time.After(2 * time.Millisecond):
			}
			w.t.Start()
			w.t.Start()
			<-got
			return nil
		})
	case "tput", "tdel", "tget":
		// through the tree's own pool
		for j := range w.held {
			if err := w.finish(j, false); err != nil {
				return err
			}
		}
		return w.withTree(func() error {
			switch o.K {
			case "tget":
				v, ok := w.t.Lookup(vcopy(o.Key))
				want, stored := w.m[o.Key]
				if stored && (!ok || v != want) {
					return fmt.Errorf("Tree.Lookup(%q) = %d,%v want %d", o.Key, v, ok, want)
				}
				if ok && !stored && w.m[w.k1(v)] != v {
					return fmt.Errorf("Tree.Lookup(%q) = %d", o.Key, v)
				}
			case "tput":
				found, op := w.t.PrepareUpdate(vcopy(o.Key))
				if found {
					k := w.k1(op.Value)
					op.FetchedKey = append(op.FetchedKey[:0], k...)
					op.Match = k == o.Key
				}
				if o.V&1 == 1 {
					op.Abort()
					return nil
				}
				w.setk(o.V, o.Key)
				if !op.Finalize(o.V) {
					return fmt.Errorf("uncontended Finalize of %q is refused", o.Key)
				}
				w.m[o.Key] = o.V
			case "tdel":
				_, stored := w.m[o.Key]
				found, op := w.t.PrepareDelete(vcopy(o.Key))
				if stored && !found {
					return fmt.Errorf("PrepareDelete(%q) does not find the stored key", o.Key)
				}
				if !found {
					return nil
				}
				if !stored || o.V&1 == 1 {
					op.Abort()
					return nil
				}
				if !op.Finalize() {
					return fmt.Errorf("uncontended delete of %q is refused", o.Key)
				}
				delete(w.m, o.Key)
			}
			return nil
		})
	}
	return nil
}

func (w *vworld) guardFinish(i int, abort bool) error {
	return vtimed(func() error { return w.finish(i, abort) })
}

func (w *vworld) verify(full bool) error {
	if vInternal != nil {
		if err := vInternal(w, !w.anyHeld()); err != nil {
			return err
		}
	}
	if full {
		var a *Allocator
		for i := range w.al {
			if w.held[i] == nil {
				a = w.al[i]
			}
		}
		if a == nil {
			return nil
		}
		for k := range w.m {
			if err := w.lookup(a, k); err != nil {
				return err
			}
		}
	}
	return nil
}

func vrun(n int, ops []vop, every int) (at int, err error) {
	if f := os.Getenv("VERIF_CUR"); f != "" {
		b, _ := json.Marshal(ops)
		os.WriteFile(f, b, 0o644)
	}
	w := &vworld{m: map[string]uint64{}, keyOf: map[uint64]string{}}
	w.open(n)
	for i, o := range ops {
		if err := w.step(o); err != nil {
			return i, fmt.Errorf("step %d (%v): %v", i, o, err)
		}
		if i%every == 0 {
			if err := vtimed(func() error { return w.verify(len(w.m) < 64 || i%(16*every) == 0) }); err != nil {
				return i, fmt.Errorf("after step %d (%v): %v", i, o, err)
			}
		}
	}
	for j := range w.held {
		if err := w.finish(j, j&1 == 0); err != nil {
			return len(ops), err
		}
	}
	if err := vtimed(func() error { return w.verify(true) }); err != nil {
		return len(ops), fmt.Errorf("at the end: %v", err)
	}
	if err := w.queries(""); err != nil {
		return len(ops), fmt.Errorf("at the end: %v", err)
	}
	if err := vtimed(func() error { return w.verify(true) }); err != nil {
		return len(ops), fmt.Errorf("after the final queries: %v", err)
	}
	w.close()
	return 0, nil
}

// ---- generation

type vprofile struct {
	name string
	key  func(r *rand.Rand) string
}

func vterm(b []byte) string { return string(b) + "\x00" }

func vrep(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(1 + i%7)
	}
	return b
}

var vlens = []int{0, 1, 2, 6, 7, 8, 9, 14, 15, 16, 17, 23, 24, 25, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 262, 263, 264, 265, 500, 511, 512, 513, 1000}

func vprofiles() []vprofile {
	return []vprofile{
		{"tiny", func(r *rand.Rand) string {
			b := make([]byte, r.Intn(4))
			for i := range b {
				b[i] = byte(1 + r.Intn(3))
			}
			return vterm(b)
		}},
		{"prefixes", func(r *rand.Rand) string {
			// long shared prefixes which diverge at interesting places
			n := vlens[r.Intn(len(vlens))]
			b := vrep(r, n)
			b = append(b, byte(1+r.Intn(3)))
			if r.Intn(2) == 0 {
				m := vlens[r.Intn(len(vlens))]
				b = append(b, vrep(r, m)...)
				b = append(b, byte(1+r.Intn(3)))
			}
			return vterm(b)
		}},
		{"wide", func(r *rand.Rand) string {
			// fan-out around the switch to full-width nodes
			b := []byte{byte(r.Intn(140))}
			if r.Intn(4) == 0 {
				b[0] = 7
			}
			b = append(b, byte(r.Intn(256)), byte(r.Intn(2)))
			return string(b)
		}},
		{"wideprefix", func(r *rand.Rand) string {
			b := vrep(r, []int{0, 1, 7, 8, 254, 255, 256}[r.Intn(2)])
			b = append(b, byte(100+r.Intn(2)))
			b = append(b, byte(r.Intn(256)))
			b = append(b, vrep(r, []int{0, 8, 255, 300}[r.Intn(4)])...)
			b = append(b, byte(100+r.Intn(3)))
			return string(append(b, 0))
		}},
		{"fixed", func(r *rand.Rand) string {
			x := r.Intn(5000)
			return string([]byte{0, 0, byte(x >> 8), byte(x)})
		}},
		{"text", func(r *rand.Rand) string {
			words := []string{"al", "alpha", "alphabet", "be", "beta", "x", "xy", "xyz", "\xff", "\xff\xff", "\x80"}
			var b []byte
			for n := 1 + r.Intn(3); n > 0; n-- {
				b = append(b, words[r.Intn(len(words))]...)
			}
			return vterm(b)
		}},
		{"deep", func(r *rand.Rand) string {
			n := 1 + r.Intn(40)
			b := make([]byte, n)
			for i := range b {
				b[i] = 9
			}
			b = append(b, byte(1+r.Intn(4)))
			return vterm(b)
		}},
	}
}

func vgen(r *rand.Rand, pf vprofile, n, allocs int, holds bool) []vop {
	var ops []vop
	var pool []string
	phase := 0 // growing or shrinking
	id := uint64(2)
	for len(ops) < n {
		if r.Intn(60) == 0 {
			phase = r.Intn(3)
		}
		pick := func() string {
			if len(pool) > 0 && r.Intn(3) > 0 {
				return pool[r.Intn(len(pool))]
			}
			k := pf.key(r)
			pool = append(pool, k)
			if len(pool) > 600 {
				pool = pool[1:]
			}
			return k
		}
		id += 2
		v := id | uint64(r.Int63())&(1<<55-1)&^uint64(1<<22-1)
		o := vop{A: r.Intn(allocs), Key: pick(), V: v}
		x := r.Intn(100)
		put := 45
		if phase == 1 {
			put = 15
		}
		switch {
		case x < put:
			o.K = "put"
			if phase == 0 && r.Intn(2) == 0 {
				o.Key = pf.key(r)
				pool = append(pool, o.Key)
			}
		case x < 62:
			o.K = "del"
		case x < 72:
			o.K = "get"
			if r.Intn(2) == 0 && len(o.Key) > 0 {
				o.Key = o.Key[:r.Intn(len(o.Key))]
			} else if r.Intn(3) == 0 {
				o.Key += "zz"
			}
		case x < 76:
			o.K = "query"
			if len(o.Key) > 0 {
				o.Key = o.Key[:r.Intn(len(o.Key))]
			}
			if r.Intn(3) == 0 {
				o.Key = ""
			}
		case x < 78:
			o.K = "tput"
			if r.Intn(3) == 0 {
				o.V |= 1
			}
		case x < 80:
			o.K = "tdel"
			if r.Intn(3) == 0 {
				o.V |= 1
			}
		case x < 81:
			o.K = "tget"
		case x < 82 && r.Intn(3) == 0:
			o.K = "stop"
		case holds && x < 87:
			o.K = "hold-put"
		case holds && x < 93:
			o.K = "hold-del"
		case holds && x < 97:
			o.K = "finish"
		case holds:
			o.K = "abort"
		default:
			continue
		}
		ops = append(ops, o)
	}
	return ops
}

func vshrink(n int, ops []vop, every int) []vop {
	end := time.Now().Add(15 * time.Second)
	for chunk := len(ops) / 2; chunk >= 1; chunk /= 2 {
		for i := 0; i+chunk <= len(ops) && time.Now().Before(end); {
			c := append(append([]vop(nil), ops[:i]...), ops[i+chunk:]...)
			if _, err := vrun(n, c, 1); err != nil && !strings.Contains(err.Error(), "for ever") && !strings.Contains(err.Error(), "not return") {
				ops = c
			} else {
				i += chunk
			}
		}
	}
	return ops
}

func vwitness(kind string, v interface{}, err error) {
	b, _ := json.Marshal(v)
	if len(b) > 20000 {
		b = append(b[:20000], "..."...)
	}
	fmt.Printf("\nWITNESS %s: %v\nWITNESS-INPUT %s\n", kind, err, b)
}

// what the last step of a history does
func vkind(ops []vop) string {
	o := ops[len(ops)-1]
	switch o.K {
	case "put", "tput":
		k := "insert"
		for _, p := range ops[:len(ops)-1] {
			if p.Key == o.Key {
				switch p.K {
				case "put", "tput", "hold-put":
					k = "update"
				case "del", "tdel":
					k = "insert"
				}
			}
		}
		return k
	case "del", "tdel":
		return "delete"
	}
	return o.K
}

// vaccept reports whether a failure breaks the property being checked
func vaccept(msg, last string) bool {
	acc := vEnv("VERIF_ACCEPT", "")
	if acc == "" {
		return true
	}
	has := func(ss ...string) bool {
		for _, s := range ss {
			if strings.Contains(msg, s) {
				return true
			}
		}
		return false
	}
	var cls []string
	add := func(c string, ok bool) {
		if ok {
			cls = append(cls, c)
		}
	}
	add("op:"+last, last != "")
	if i := strings.Index(msg, "[["); i >= 0 { // scenarios name their classes
		if j := strings.Index(msg, "]]"); j > i {
			cls = append(cls, strings.Split(msg[i+2:j], ",")...)
		}
	}
	add("panic", has("panic:"))
	add("map", has("Lookup(", "leaf value", "leaf of key", "leaves for", "candidate value", "finds", "does not find", "delete of"))
	add("struct", has("node ", "overlapping", "leaf of key"))
	add("mem", has("overlapping", "outside of the blocks", "leaves its block"))
	add("iter", has("Iterator("))
	add("minmax", has("MinKey(", "MaxKey("))
	add("len", has("Len()", "Count(", "the counters say"))
	add("pool", has("Len() =", "can be reserved", "pool of", "the pool", "slots"))
	add("lock", has("locked", "locking", "root lock", "unlocking"))
	add("epoch", has("epoch"))
	add("stale", has("stale", "uncontended", "is refused"))
	add("hang", has("for ever", "does not return"))
	add("state", has("WriteState", "NewTreeFromState", "after loading"))
	for _, a := range strings.Split(acc, ",") {
		for _, c := range cls {
			if a == c {
				return true
			}
		}
	}
	return false
}

type vfailWriter struct {
	left int
	n    int
}

func (f *vfailWriter) Write(p []byte) (int, error) {
	f.n += len(p)
	if f.left--; f.left < 0 {
		return 0, io.ErrShortWrite
	}
	return len(p), nil
}

func TestVerifReplay(t *testing.T) {
	seed, _ := strconv.ParseInt(vEnv("VERIF_SEED", "1"), 10, 64)
	secs, _ := strconv.Atoi(vEnv("VERIF_BUDGET", "30"))
	prop := vEnv("VERIF_PROP", "all")
	vDeadline = time.Now().Add(time.Duration(secs) * time.Second)
	r := rand.New(rand.NewSource(seed))
	runs, steps, schedules := 0, 0, 0
	others := 0
	fail := func(kind string, v interface{}, err error, last string) {
		if !vaccept(err.Error(), last) {
			// breaks another property
			if others++; others > 40 {
				t.Skip("only failures of other properties")
			}
			return
		}
		vwitness(kind, v, err)
		t.FailNow()
	}
	job, _ := strconv.Atoi(vEnv("VERIF_JOB", "0"))
	for i := range vScenarios {
		// every job starts elsewhere
		s := vScenarios[(i+job)%len(vScenarios)]
		if err := vtimedLong(func() error { return s(r, prop) }); err != nil {
			fail("scenario", err.Error(), err, "")
		}
	}
	if share, _ := strconv.Atoi(vEnv("VERIF_SCHED", "30")); vSched != nil && share > 0 {
		for end := time.Now().Add(time.Duration(secs*share/100) * time.Second); time.Now().Before(end); {
			left := int(time.Until(end)/time.Second) + 1
			kind, v, err, n := vSched(r, left)
			schedules += n
			if err != nil {
				fail(kind, v, err, "")
			}
		}
	}
	pfs := vprofiles()
	for time.Now().Before(vDeadline) {
		pf := pfs[runs%len(pfs)]
		n := 1 + r.Intn(3)
		holds := n > 1 && runs%2 == 0
		every := 1
		size := 60 + r.Intn(200)
		if runs%5 == 4 {
			size, every = 3000, 37
		}
		ops := vgen(r, pf, size, n, holds)
		if runs%9 == 8 && (prop == "C15" || prop == "all" || prop == "C10") {
			ops = append(ops, vop{K: "save"})
			ops = append(ops, vgen(r, pf, 60, n, false)...)
		}
		runs++
		steps += len(ops)
		if at, err := vrun(n, ops, every); err != nil {
			if at+1 < len(ops) {
				ops = ops[:at+1]
			}
			small := vshrink(n, ops, every)
			if _, e := vrun(n, small, 1); e != nil {
				err = e
			} else {
				small = ops
			}
			last := ""
			if len(small) > 0 {
				last = vkind(small)
			}
			fail(fmt.Sprintf("history with %d allocators, profile %s", n, pf.name), small, err, last)
		}
	}
	fmt.Printf("\nREPLAY-STATS histories=%d steps=%d schedules=%d\n", runs, steps, schedules)
}

func vtimedLong(f func() error) error {
	ch := make(chan error, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				ch <- fmt.Errorf("panic: %v", e)
			}
		}()
		ch <- f()
	}()
	select {
	case err := <-ch:
		return err
	case <-time.After(120 * time.Second):
		return fmt.Errorf("does not return")
	}
}
