package radix

// Systematic schedules: goroutines working on one tree are switched at every
// atomic operation under the control of a scheduler (the shim packages stand in
// for sync/atomic and runtime).  Every history must be linearizable per key and
// leave a well-formed tree with all locks and reservations released.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	rt "runtime"
	"sort"
	"strings"
	"sync"
	"time"
	"unsafe"

	shim "github.com/jayloop/radix/zzatomic"
	shimrt "github.com/jayloop/radix/zzruntime"
)

type sthread struct {
	id   int
	run  chan bool
	prio int
	done bool
	runs int
	bad  string // first access to the tree without a reservation
	ep   uint64 // global epoch when the current operation began
}

type ssched struct {
	mu      sync.RWMutex
	byG     map[uint64]*sthread
	threads []*sthread
	back    chan *sthread
	r       *rand.Rand
	low     int
	step    int
	change  map[int]bool
	mode    int // 0 priorities, 1 random, 2 without preemption
	clock   int
	trace   []int
	access  func(th *sthread, p unsafe.Pointer) string
}

func sgoid() uint64 {
	var b [40]byte
	n := rt.Stack(b[:], false)
	var id uint64
	for _, c := range b[10:n] {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + uint64(c-'0')
	}
	return id
}

func (s *ssched) me() *sthread {
	s.mu.RLock()
	th := s.byG[sgoid()]
	s.mu.RUnlock()
	return th
}

func (s *ssched) yield(th *sthread) {
	s.back <- th
	<-th.run
}

func (s *ssched) hook(p unsafe.Pointer) {
	if th := s.me(); th != nil {
		if s.access != nil && th.bad == "" {
			th.bad = s.access(th, p)
		}
		if s.mode == 2 {
			return
		}
		s.yield(th)
	}
}

func (s *ssched) spin() bool {
	th := s.me()
	if th == nil {
		return false
	}
	s.low--
	th.prio = s.low
	th.runs = -1
	s.yield(th)
	return true
}

// boundary is called between operations
func (s *ssched) boundary(th *sthread) { s.yield(th) }

func (s *ssched) pick(last *sthread) *sthread {
	var live []*sthread
	for _, t := range s.threads {
		if !t.done {
			live = append(live, t)
		}
	}
	if len(live) == 0 {
		return nil
	}
	s.step++
	switch s.mode {
	case 0:
		if last != nil && (s.change[s.step] || last.runs > 4000) {
			s.low--
			last.prio = s.low
			last.runs = 0
		}
		best := live[0]
		for _, t := range live {
			if t.prio > best.prio {
				best = t
			}
		}
		return best
	case 1:
		if last != nil && !last.done && last.runs >= 0 && s.r.Intn(4) > 0 {
			return last
		}
	}
	return live[s.r.Intn(len(live))]
}

// runAll runs the bodies under control; an error means some of them did not end
func (s *ssched) runAll(bodies []func(th *sthread) error) error {
	s.byG = map[uint64]*sthread{}
	s.back = make(chan *sthread)
	errs := make([]error, len(bodies))
	ready := make(chan bool)
	for i := range bodies {
		th := &sthread{id: i, run: make(chan bool), prio: s.r.Intn(1000)}
		s.threads = append(s.threads, th)
		body := bodies[i]
		go func(i int) {
			s.mu.Lock()
			s.byG[sgoid()] = th
			s.mu.Unlock()
			ready <- true
			<-th.run
			defer func() {
				if e := recover(); e != nil {
					errs[i] = fmt.Errorf("panic: %v", e)
				}
				th.done = true
				s.back <- th
			}()
			errs[i] = body(th)
		}(i)
	}
	for range bodies {
		<-ready
	}
	shim.Hook = s.hook
	shimrt.Hook = s.spin
	defer func() { shim.Hook = nil; shimrt.Hook = nil }()
	var last *sthread
	for {
		th := s.pick(last)
		if th == nil {
			break
		}
		if last == th {
			th.runs++
		} else {
			th.runs = 0
		}
		if s.step > 400000 {
			return fmt.Errorf("operations go on for ever")
		}
		if last != th {
			s.trace = append(s.trace, th.id)
		}
		last = th
		th.run <- true
		select {
		case <-s.back:
		case <-time.After(20 * time.Second):
			return fmt.Errorf("an operation does not return")
		}
		for _, e := range errs {
			if e != nil {
				return e // the others are left behind
			}
		}
	}
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

type sevent struct {
	Key      string
	What     string // get, set, del
	Inv, Res int
	Old      uint64 // state the operation claims to have found, 0 absent
	New      uint64
}

// slinear: is there an order of the events respecting their intervals?
func slinear(ev []sevent, init uint64) bool {
	n := len(ev)
	if n > 20 {
		return true
	}
	seen := map[[2]uint64]bool{}
	var dfs func(done uint32, state uint64) bool
	dfs = func(done uint32, state uint64) bool {
		if done == 1<<uint(n)-1 {
			return true
		}
		k := [2]uint64{uint64(done), state}
		if seen[k] {
			return false
		}
		seen[k] = true
		minRes := 1 << 60
		for i := range ev {
			if done>>uint(i)&1 == 0 && ev[i].Res < minRes {
				minRes = ev[i].Res
			}
		}
		for i, e := range ev {
			if done>>uint(i)&1 == 1 || e.Inv > minRes || e.Old != state {
				continue
			}
			next := state
			if e.What != "get" {
				next = e.New
			}
			if dfs(done|1<<uint(i), next) {
				return true
			}
		}
		return false
	}
	return dfs(0, init)
}

func sWrites(o vop) bool { return o.K == "put" || o.K == "del" }

func sPrefixed(m map[string]uint64, p string) (ks []string) {
	for k := range m {
		if strings.HasPrefix(k, p) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return
}

// sread runs a query while others work: keys nobody touches must be seen
func sread(w *vworld, o vop, stable map[string]uint64) error {
	ks := sPrefixed(stable, o.Key)
	known := func(v uint64) (string, error) {
		k, ok := w.kk(v)
		if !ok {
			return "", fmt.Errorf("%s(%q) yields %d which was never stored", o.K, o.Key, v)
		}
		return k, nil
	}
	switch o.K {
	case "scan":
		it := w.t.NewIterator(vcopy(o.Key))
		var got []string
		for it.Next() {
			k, err := known(it.Value())
			if err != nil {
				return err
			}
			got = append(got, k)
		}
		it.Close()
		for i := 1; i < len(got); i++ {
			if got[i-1] >= got[i] {
				return fmt.Errorf("Iterator(%q) yields %q after %q", o.Key, got[i], got[i-1])
			}
		}
		i := 0
		for _, k := range got {
			if i < len(ks) && ks[i] == k {
				i++
			}
		}
		if i < len(ks) {
			return fmt.Errorf("Iterator(%q) yields %q and misses %q which stays stored all the time", o.Key, got, ks[i])
		}
	case "min", "max":
		var v uint64
		var ok bool
		if o.K == "min" {
			v, ok = w.t.MinKey(vcopy(o.Key))
		} else {
			v, ok = w.t.MaxKey(vcopy(o.Key))
		}
		if !ok {
			if len(ks) > 0 {
				return fmt.Errorf("%sKey(%q) finds nothing, %q stays stored all the time", o.K, o.Key, ks[0])
			}
			return nil
		}
		k, err := known(v)
		if err != nil {
			return err
		}
		if len(ks) > 0 && (o.K == "min" && k > ks[0] || o.K == "max" && k < ks[len(ks)-1]) {
			return fmt.Errorf("%sKey(%q) = %q, %q stays stored all the time", o.K, o.Key, k, ks)
		}
	case "count":
		_, leaves := w.t.Count(vcopy(o.Key))
		if leaves < len(ks) || leaves > len(w.keyOf) {
			return fmt.Errorf("Count(%q) = %d leaves, %d stay stored all the time", o.Key, leaves, len(ks))
		}
	}
	return nil
}

type sprogram struct {
	Poison  bool
	Seed    int64
	Mode    int
	Prelude []vop
	Threads [][]vop
	Trace   []int `json:",omitempty"`
}

func (p *sprogram) exec() (trace []int, err error) {
	if f := vEnv("VERIF_CUR", ""); f != "" {
		vwriteCur(f, p)
	}
	r := rand.New(rand.NewSource(p.Seed))
	w := &vworld{m: map[string]uint64{}, keyOf: map[uint64]string{}}
	w.open(len(p.Threads) + 1)
	a0 := w.al[len(p.Threads)]
	if err := vtimed(func() error {
		for _, o := range p.Prelude {
			w.setk(o.V, o.Key)
			if o.K == "del" {
				if _, err := w.remove(a0, o.Key); err != nil {
					return err
				}
				delete(w.m, o.Key)
				continue
			}
			if err := w.upsert(a0, o.Key, o.V); err != nil {
				return err
			}
			w.m[o.Key] = o.V
		}
		return w.verify(false)
	}); err != nil {
		return nil, err
	}
	if vHotRecycle != nil {
		vHotRecycle(w.t)
	}
	init := map[string]uint64{}
	for k, v := range w.m {
		init[k] = v
	}
	// keys no thread changes
	stable := map[string]uint64{}
	for k, v := range init {
		stable[k] = v
	}
	for _, ops := range p.Threads {
		for _, o := range ops {
			if sWrites(o) {
				delete(stable, o.Key)
			}
		}
	}
	s := &ssched{r: r, mode: p.Mode, change: map[int]bool{}}
	for i := r.Intn(4); i >= 0; i-- {
		s.change[1+r.Intn(10+r.Intn(60)*(1+r.Intn(8)))] = true
	}
	var ev []sevent
	var bodies []func(th *sthread) error
	for i := range p.Threads {
		a, ops := w.al[i], p.Threads[i]
		bodies = append(bodies, func(th *sthread) error {
			for _, o := range ops {
				s.clock++
				inv := s.clock
				if th.bad != "" {
					return fmt.Errorf("[[reserve]] %s", th.bad)
				}
				if vEpoch != nil {
					th.ep = vEpoch(w.t)
				}
				add := func(what string, old, new uint64) {
					s.clock++
					ev = append(ev, sevent{o.Key, what, inv, s.clock, old, new})
				}
				cand := func(v uint64, what string) (string, error) {
					k, ok := w.kk(v)
					if !ok {
						return "", fmt.Errorf("%s(%q) = %d which was never stored", what, o.Key, v)
					}
					return k, nil
				}
				switch o.K {
				case "get":
					v, ok := a.Lookup(vcopy(o.Key))
					if ok {
						k, err := cand(v, "Lookup")
						if err != nil {
							return err
						}
						ok = k == o.Key
					}
					if !ok {
						v = 0
					}
					add("get", v, 0)
				case "put", "puta":
					for try := 0; try < 3; try++ {
						found, op := a.PrepareUpdate(vcopy(o.Key))
						old := uint64(0)
						if found {
							k, err := cand(op.Value, "PrepareUpdate")
							if err != nil {
								return err
							}
							op.FetchedKey = append(op.FetchedKey[:0], k...)
							op.Match = k == o.Key
							if op.Match {
								old = op.Value
							}
						}
						if o.K == "puta" {
							op.Abort()
							add("get", old, 0)
							break
						}
						v := o.V + uint64(try)
						w.setk(v, o.Key)
						if op.Finalize(v) {
							add("set", old, v)
							break
						}
						s.boundary(th)
					}
				case "del", "dela":
					for try := 0; try < 3; try++ {
						found, op := a.PrepareDelete(vcopy(o.Key))
						if !found {
							add("get", 0, 0)
							break
						}
						k, err := cand(op.Value, "PrepareDelete")
						if err != nil {
							return err
						}
						old := op.Value
						if k != o.Key {
							op.Abort()
							add("get", 0, 0)
							break
						}
						if o.K == "dela" {
							op.Abort()
							add("get", old, 0)
							break
						}
						if op.Finalize() {
							add("del", old, 0)
							break
						}
						s.boundary(th)
					}
				case "scan", "min", "max", "count":
					// through the tree's own pool, one allocator of it is free
					if err := sread(w, o, stable); err != nil {
						return err
					}
				}
				if vHotRecycle != nil {
					vHotRecycle(w.t)
				}
				if p.Poison && vPoison != nil {
					vPoison(w.t)
				}
				s.boundary(th)
			}
			if th.bad != "" {
				return fmt.Errorf("[[reserve]] %s", th.bad)
			}
			return nil
		})
	}
	w.t.ReleaseAllocator(a0)
	if vReserved != nil {
		s.access = func(th *sthread, p unsafe.Pointer) string {
			if !vTreeMemory(w.t, p) {
				return ""
			}
			own, pool := vReserved(w.al[th.id]), vReserved(a0)
			if own == 1<<64-1 && pool == 1<<64-1 {
				return "the tree is accessed without a reserved epoch"
			}
			if own != 1<<64-1 && own < th.ep || own == 1<<64-1 && pool < th.ep {
				return fmt.Sprintf("the reserved epoch (%d or %d) is older than the operation (epoch %d)", own, pool, th.ep)
			}
			return ""
		}
	}
	err = s.runAll(bodies)
	trace = s.trace
	if err != nil {
		return trace, err
	}
	w.al[len(p.Threads)] = w.t.GetAllocator()
	a0 = w.al[len(p.Threads)]
	// what is stored now?
	keys := map[string]bool{}
	for k := range init {
		keys[k] = true
	}
	for _, ops := range p.Threads {
		for _, o := range ops {
			switch o.K {
			case "put", "puta", "del", "dela", "get":
				keys[o.Key] = true
			}
		}
	}
	err = vtimed(func() error {
		w.m = map[string]uint64{}
		for k := range keys {
			v, ok := a0.Lookup(vcopy(k))
			if ok {
				c, known := w.kk(v)
				if !known {
					return fmt.Errorf("Lookup(%q) = %d which was never stored", k, v)
				}
				if c != k {
					ok = false
				}
			}
			if !ok {
				v = 0
			} else {
				w.m[k] = v
			}
			s.clock++
			ev = append(ev, sevent{k, "get", s.clock, s.clock, v, 0})
		}
		by := map[string][]sevent{}
		for _, e := range ev {
			by[e.Key] = append(by[e.Key], e)
		}
		for k, es := range by {
			if !slinear(es, init[k]) {
				b, _ := json.Marshal(es)
				return fmt.Errorf("no order of the operations explains what they report for %q (initially %d, 0 means absent): %s", k, init[k], b)
			}
		}
		return w.verify(true)
	})
	if err != nil {
		return trace, err
	}
	w.close()
	return trace, nil
}

func squery(r *rand.Rand, keys []string) vop {
	o := vop{K: []string{"scan", "scan", "min", "max", "count"}[r.Intn(5)]}
	if r.Intn(2) == 0 {
		k := keys[r.Intn(len(keys))]
		o.Key = k[:r.Intn(len(k))]
	}
	return o
}

func sgen(r *rand.Rand) *sprogram {
	p := sgen1(r)
	p.Poison = r.Intn(2) == 0
	if r.Intn(3) == 0 {
		// memory reuse: a reader pauses somewhere while others change the same few nodes again and again
		var keys []string
		for _, o := range p.Prelude {
			keys = append(keys, o.Key)
		}
		if len(keys) < 2 {
			return p
		}
		last := keys[len(keys)-1-r.Intn(2)]
		var rd []vop
		for j := 1 + r.Intn(2); j > 0; j-- {
			if r.Intn(2) == 0 {
				rd = append(rd, squery(r, keys))
			} else {
				rd = append(rd, vop{K: "get", Key: keys[r.Intn(len(keys))]})
			}
		}
		p.Threads = [][]vop{rd}
		id := uint64(1 << 20)
		hot := []string{last, keys[r.Intn(len(keys))], last[:len(last)-1] + "\x05\x07\x00", last[:len(last)-1] + "\x06\x07\x00"}
		for i := 1 + r.Intn(2); i > 0; i-- {
			var ops []vop
			for j := 4 + r.Intn(12); j > 0; j-- {
				id += 8
				ops = append(ops, vop{K: []string{"put", "del"}[r.Intn(2)], Key: hot[r.Intn(len(hot))], V: id})
			}
			p.Threads = append(p.Threads, ops)
		}
	}
	return p
}

func sgen1(r *rand.Rand) *sprogram {
	p := &sprogram{Seed: r.Int63(), Mode: r.Intn(2)}
	id := uint64(8)
	val := func() uint64 { id += 8; return id }
	var keys []string
	var fill []string
	b := func(x ...byte) string { return string(x) }
	switch r.Intn(8) {
	case 0: // few short keys
		keys = []string{"a\x00", "b\x00", "ca\x00", "cb\x00", "cc\x00"}
	case 1: // nested prefixes
		keys = []string{"xxxxa\x00", "xxxxb\x00", "xxa\x00", "xxxxbbbba\x00", "xxxxbbbbb\x00", "y\x00"}
	case 2: // long prefixes
		q := string(vrep(r, 254+r.Intn(3)))
		keys = []string{q + "a\x00", q + "b\x00", "z\x00", q[:100] + "\xee\x00", q + "bb" + q + "\x00"}
	case 3: // around the switch to a full-width node
		n := 125 + r.Intn(4)
		for i := 0; i < n; i++ {
			fill = append(fill, b('p', byte(i), 1))
		}
		keys = []string{b('p', 200, 1), b('p', 201, 1), b('p', 202, 1), b('p', 5, 1), b('p', 5, 2), "q\x00\x00"}
	case 4: // full-width root
		for i := 0; i < 130; i++ {
			fill = append(fill, b(byte(i), 1))
		}
		keys = []string{b(5, 1), b(5, 2), b(200, 1), b(200, 2), b(6, 1)}
	case 5: // two levels of small nodes
		keys = []string{"aa\x00", "ab\x00", "ba\x00", "bb\x00", "bca\x00", "bcb\x00"}
	case 6: // root only
		keys = []string{"k1\x00", "k2\x00", "m\x00"}
	case 7: // delete merges a node into its child
		keys = []string{"ppa\x00", "ppqqa\x00", "ppqqb\x00", "ppqqc\x00", "r\x00"}
	}
	for _, k := range fill {
		p.Prelude = append(p.Prelude, vop{K: "put", Key: k, V: val()})
	}
	for _, k := range keys {
		if r.Intn(3) > 0 {
			p.Prelude = append(p.Prelude, vop{K: "put", Key: k, V: val()})
		}
	}
	if r.Intn(3) == 0 { // some memory waiting for reuse
		for i := 0; i < 3; i++ {
			k := keys[r.Intn(len(keys))]
			p.Prelude = append(p.Prelude, vop{K: "del", Key: k, V: val()})
			if r.Intn(2) == 0 {
				p.Prelude = append(p.Prelude, vop{K: "put", Key: k, V: val()})
			}
		}
	}
	n := 2 + r.Intn(2)
	scans := false
	hot := keys
	if r.Intn(2) == 0 {
		hot = keys[:2+r.Intn(2)]
		if r.Intn(2) == 0 {
			r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		}
	}
	for i := 0; i < n; i++ {
		var ops []vop
		if i > 0 && r.Intn(4) == 0 {
			// a reader
			for j := 1 + r.Intn(3); j > 0; j-- {
				ops = append(ops, vop{K: "get", Key: hot[r.Intn(len(hot))]})
			}
		} else if i == n-1 && r.Intn(4) == 0 && !scans {
			scans = true
			ops = append(ops, squery(r, keys), squery(r, keys))
		} else {
			for j := 1 + r.Intn(4); j > 0; j-- {
				kinds := []string{"put", "put", "put", "del", "del", "del", "get", "puta", "dela"}
				ops = append(ops, vop{K: kinds[r.Intn(len(kinds))], Key: hot[r.Intn(len(hot))], V: val()})
			}
		}
		p.Threads = append(p.Threads, ops)
	}
	return p
}

func (p *sprogram) clone() *sprogram {
	q := *p
	q.Threads = nil
	for _, t := range p.Threads {
		q.Threads = append(q.Threads, append([]vop(nil), t...))
	}
	q.Prelude = append([]vop(nil), p.Prelude...)
	return &q
}

// does the program fail when its operations do not overlap?
func (p *sprogram) failsAlone() bool {
	for i := int64(0); i < 6; i++ {
		q := p.clone()
		q.Mode, q.Seed = 2, i
		if _, err := q.exec(); err != nil {
			return true
		}
	}
	return false
}

func vSchedules(r *rand.Rand, secs int) (string, interface{}, error, int) {
	end := time.Now().Add(time.Duration(secs) * time.Second)
	runs := 0
	for time.Now().Before(end) {
		p := sgen(r)
		for i := 0; i < 12; i++ {
			p.Seed, p.Mode = r.Int63(), r.Intn(2)
			runs++
			if _, err := p.exec(); err != nil {
				// keep the failure, look for a smaller program with it
				best, berr := p.clone(), err
				stop := time.Now().Add(12 * time.Second)
				for again := true; again && time.Now().Before(stop); {
					again = false
					for ti := range best.Threads {
						for oi := 0; oi < len(best.Threads[ti]) && time.Now().Before(stop); oi++ {
							q := best.clone()
							q.Threads[ti] = append(q.Threads[ti][:oi], q.Threads[ti][oi+1:]...)
							for k := int64(0); k < 40; k++ {
								q.Seed, q.Mode = r.Int63(), r.Intn(2)
								if _, e := q.exec(); e != nil {
									best, berr, again = q, e, true
									break
								}
							}
						}
					}
				}
				if strings.HasPrefix(berr.Error(), "[[reserve]]") {
					return "schedule", best, berr, runs
				}
				cls := "[[sched]] "
				if best.failsAlone() {
					cls = ""
				}
				best.Trace, err = best.exec()
				if err == nil {
					err = berr
				}
				return "schedule (order in which the goroutines run: trace)", best, fmt.Errorf("%s%v", cls, err), runs
			}
		}
	}
	return "", nil, nil, runs
}

func init() { vSched = vSchedules }

// sPool: goroutines reserve and release allocators, one of them stops and starts the tree or asks for its length.
func sPool(r *rand.Rand) error {
	n := 1 + r.Intn(3)
	w := &vworld{m: map[string]uint64{}, keyOf: map[uint64]string{}}
	w.t = NewTree(&Options{NumAllocators: n})
	s := &ssched{r: r, mode: r.Intn(2), change: map[int]bool{}}
	for i := r.Intn(5); i >= 0; i-- {
		s.change[1+r.Intn(120)] = true
	}
	held := map[*Allocator]int{}
	stopped := false
	var bodies []func(th *sthread) error
	users := 2 + r.Intn(2)
	for i := 0; i < users; i++ {
		i := i
		reps := 1 + r.Intn(3)
		bodies = append(bodies, func(th *sthread) error {
			for j := 0; j < reps; j++ {
				a := w.t.GetAllocator()
				if stopped {
					return fmt.Errorf("[[pool]] an allocator of the stopped tree can be reserved")
				}
				if o, ok := held[a]; ok {
					return fmt.Errorf("[[pool]] the allocator held by goroutine %d is handed to goroutine %d", o, i)
				}
				held[a] = i
				s.boundary(th)
				delete(held, a)
				w.t.ReleaseAllocator(a)
			}
			return nil
		})
	}
	kind := r.Intn(3)
	bodies = append(bodies, func(th *sthread) error {
		switch kind {
		case 0:
			for j := 0; j < 2; j++ {
				w.t.Stop()
				stopped = true
				if len(held) > 0 {
					return fmt.Errorf("[[pool]] Stop returns while an allocator is reserved")
				}
				s.boundary(th)
				if r.Intn(2) == 0 {
					w.t.Stop()
					w.t.Len()
					s.boundary(th)
				}
				stopped = false
				w.t.Start()
			}
		case 1:
			w.t.Len()
			s.boundary(th)
			w.t.Len()
		case 2:
			w.t.Start()
			s.boundary(th)
			w.t.Start()
		}
		return nil
	})
	if err := s.runAll(bodies); err != nil {
		if strings.Contains(err.Error(), "for ever") || strings.Contains(err.Error(), "not return") {
			return fmt.Errorf("[[pool]] %v (%d allocators, %d goroutines)", err, n, users+1)
		}
		return err
	}
	// all of them are available again, each once
	return vtimed(func() error {
		seen := map[*Allocator]bool{}
		for i := 0; i < n; i++ {
			a := w.t.GetAllocator()
			if seen[a] {
				return fmt.Errorf("[[pool]] an allocator is handed out twice")
			}
			seen[a] = true
		}
		for a := range seen {
			w.t.ReleaseAllocator(a)
		}
		w.t.Close()
		return nil
	})
}

func init() {
	vScenarios = append(vScenarios, func(r *rand.Rand, prop string) error {
		n := 150
		if prop == "C14" {
			n = 3000
		}
		for i := 0; i < n; i++ {
			if err := sPool(r); err != nil {
				return err
			}
		}
		return nil
	})
}
