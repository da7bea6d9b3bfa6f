package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obligation struct {
	contract string
	name     string // stable name: contract / label
	pos      string
	nhyp     int
	hyps     []*Term // shared backing array (facts prefix)
	goal     *Term
	soft     string // Houdini candidate key, "" for hard obligations
	cover    bool   // reachability: must NOT be provable
	result   string // "proved", "failed", "timeout"...
	backend  string
	model    string
	secs     float64
	cuts     []*Term // the ways the function under contract returns: one of them holds
}

type inEdge struct {
	from *ssa.BasicBlock
	cond *Term
	st   *State
	slot int // successor index in from
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	parent *Frame
	key    string
	spec   bool
	calls  map[string]int
	defers []func(st *State) *State
	act    *Activation // set for the harness frame
	loops  []loopCtx
	cond   map[*ssa.BasicBlock]*Term // condition of the branch ending a block
	path   map[*ssa.BasicBlock]*Term // path at the end of a block
	live   map[liveEdge]bool
}

type liveEdge struct {
	b    *ssa.BasicBlock
	slot int
}

type loopCtx struct {
	info *loopInfo
	phis []*ssa.Phi
	pats []LocPat
}

type Activation struct {
	c      *Contract
	verify bool
	mods   []LocPat
	pubs   []LocPat
	allocs bool
	pre    *State
	prePath *Term
	post   *State
	called bool
	result Val
	site   string
	labels map[string]int
	nreq   int
	cells  []cell // variables of the contract function itself
}

type cell struct {
	p Ptr
	t types.Type
}

type Exec struct {
	p        *Program
	base     map[string]*Mem
	baseName string
	facts    []*Term
	factSet  map[*Term]bool
	path     *Term
	obls     []*Obligation
	dry      int
	logs     []*writeLog
	act      *Activation // innermost activation
	top      *Contract
	alive    map[string]bool // Houdini: nil = everything alive
	allCands map[string]bool
	dead     map[string]bool
	unsup    []string
	depth    int
	cuts     []*Term
	lastRets []*Term
	trigs    [][]*Term
	inQuant  int
	wm0      *Term
	fnCalls  map[string]bool
	assumed  map[string]bool
	noteSpec int
	globals  map[*ssa.Global]uint64
	steps    int
	marked   bool
	interf   *interference
	reveal   map[*ssa.Function]bool
	heapDone map[string]bool
}

type writeLog struct {
	pats []LocPat
	seen map[string]bool
}

func newExec(p *Program) *Exec {
	x := &Exec{p: p, base: map[string]*Mem{}, path: TT, factSet: map[*Term]bool{}, fnCalls: map[string]bool{}, assumed: map[string]bool{},
		globals: map[*ssa.Global]uint64{}, dead: map[string]bool{}, allCands: map[string]bool{},
		reveal: map[*ssa.Function]bool{}, heapDone: map[string]bool{}}
	return x
}

type bail struct{ msg string }

func (x *Exec) unsupported(f string, a ...interface{}) {
	panic(bail{fmt.Sprintf(f, a...)})
}

func (x *Exec) fact(t *Term) {
	if t == TT || t.open {
		return
	}
	if x.factSet[t] {
		return
	}
	x.factSet[t] = true
	x.facts = append(x.facts, t)
}

func (x *Exec) assume(t *Term) {
	if x.path.open || t.open {
		return
	}
	for _, c := range conj(t) {
		x.fact(Imp(x.path, c))
	}
}

func (x *Exec) curName() string {
	if x.top != nil {
		return x.top.name
	}
	return "?"
}

func (x *Exec) oblige(name, pos string, goal *Term, soft string) {
	if x.dry > 0 || x.inQuant > 0 {
		return
	}
	g := Imp(x.path, goal)
	if g == TT && soft == "" {
		o := &Obligation{contract: x.curName(), name: name, pos: pos, goal: TT, result: "proved", backend: "simplifier"}
		x.obls = append(x.obls, o)
		return
	}
	if soft != "" && g == TT {
		return
	}
	if soft == "" {
		// split conjunctions so that each failing part is named
		cs := conj(goal)
		if len(cs) > 1 {
			for _, c := range cs {
				x.oblige(name, pos, c, soft)
			}
			return
		}
	}
	o := &Obligation{contract: x.curName(), name: name, pos: pos, nhyp: len(x.facts), hyps: x.facts, goal: g, soft: soft}
	if soft == "" && len(x.cuts) > 1 {
		o.cuts = x.cuts
	}
	x.obls = append(x.obls, o)
}

// check = obligation, then assumed
func (x *Exec) check(name, pos string, c *Term) {
	x.oblige(name, pos, c, "")
	x.assume(c)
}

func (x *Exec) pos(p token.Pos) string {
	ps := x.p.fset.Position(p)
	if !ps.IsValid() {
		return ""
	}
	f := ps.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// ------------------------------------------------------------ watermark

func (x *Exec) newWM(st *State) {
	old := st.wm
	b, c := wmBase(old)
	w := x.fresh("wm", BV(64))
	isWM[w] = true
	wmParents[w] = []wmRef{{b, c}}
	x.fact(ULe(old, w))
	x.fact(ULt(w, C(64, 1<<60)))
	st.wm = w
}

func wmBase(t *Term) (*Term, uint64) {
	m, c := linear(t)
	if len(m) == 1 {
		for b, k := range m {
			if k == 1 {
				return b, c
			}
		}
	}
	return nil, 0
}

func (x *Exec) alloc(st *State) *Term {
	id := st.wm
	st.wm = Add(st.wm, C(64, 1))
	return id
}

// ------------------------------------------------------------ write logs

func (x *Exec) noteWrite(p LocPat) {
	for _, l := range x.logs {
		k := patKey(p)
		if !l.seen[k] {
			l.seen[k] = true
			l.pats = append(l.pats, p)
		}
	}
}

func patKey(p LocPat) string {
	id := func(t *Term) int {
		if t == nil {
			return 0
		}
		return t.id
	}
	return fmt.Sprintf("%s/%d/%d/%d/%d/%d/%d", p.key, id(p.tag), id(p.id), id(p.off), id(p.lo), id(p.n), id(p.minID))
}

// generalize a pattern over everything fresh since mark
func (x *Exec) generalize(p LocPat, mark int, wm *Term) LocPat {
	v := func(t *Term) bool { return t != nil && (t.depth >= mark || t.open) }
	if v(p.tag) {
		p.tag = nil
	}
	if v(p.id) {
		b, o := wmBase(p.id)
		wb, wc := wmBase(wm)
		if b != nil && isWM[b] && wb != nil && wmGE(b, o, wmRef{wb, wc}, 0) {
			p.minID = wm
		}
		p.id = nil
		p.off, p.lo, p.n = nil, nil, nil
	}
	if p.id != nil {
		// object allocated inside the loop from the entry watermark
		b, c := wmBase(p.id)
		wb, wc := wmBase(wm)
		if b != nil && b == wb && c >= wc {
			p.id, p.minID = nil, wm
			p.off, p.lo, p.n = nil, nil, nil
		}
	}
	if v(p.minID) {
		p.minID = wm
	}
	if v(p.off) {
		p.off = nil
	}
	if v(p.lo) || v(p.n) {
		p.lo, p.n = nil, nil
	}
	return p
}

func (x *Exec) havocPats(st *State, pats []LocPat, nm string, bump bool) {
	if bump {
		x.newWM(st)
	}
	by := map[string][]LocPat{}
	var keys []string
	for _, p := range pats {
		if p.key == "" {
			for k := range keySort {
				if strings.HasPrefix(k, "g:") {
					continue
				}
				if _, ok := by[k]; !ok {
					keys = append(keys, k)
				}
				by[k] = append(by[k], p)
			}
			continue
		}
		if _, ok := by[p.key]; !ok {
			keys = append(keys, p.key)
		}
		by[p.key] = append(by[p.key], p)
	}
	sort.Strings(keys)
	for _, k := range keys {
		prev := x.mem(st, k)
		nameCnt["h"]++
		uf := fmt.Sprintf("h%d.%s.%s", nameCnt["h"], nm, k)
		ufDepth[uf] = epoch
		heapClosed(uf, k, st.wm)
		st.m[k] = newMem(&Mem{kind: mHavoc, key: k, sort: prev.sort, prev: prev, uf: uf, pats: by[k]})
		for _, p := range by[k] {
			p.key = k
			x.noteWrite(p)
		}
	}
}

// ------------------------------------------------------------ functions

func (x *Exec) val(fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return Closure{fn: v}
	case *ssa.Global:
		id, ok := x.globals[v]
		if !ok {
			id = uint64(len(x.globals) + 1)
			x.globals[v] = id
		}
		et := v.Type().Underlying().(*types.Pointer).Elem()
		if tg, ok := staticTag(et); ok {
			return Ptr{tag: tg, id: C(64, id), off: C(64, 0)}
		}
		return Ptr{tag: tagConst("G"), id: C(64, id), off: C(64, 0)}
	case *ssa.Builtin:
		return v
	}
	r, ok := fr.env[v]
	if !ok {
		x.unsupported("no value for %s in %s (%s)", v.Name(), fr.fn.Name(), v)
	}
	return r
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	if b, ok := under(t).(*types.Basic); ok {
		if b.Info()&types.IsBoolean != 0 {
			return CB(constant.BoolVal(c.Value))
		}
		if _, s, ok := basicKey(b); ok {
			return C(s.W, constBits(c.Value))
		}
		if b.Info()&types.IsString != 0 {
			s := constant.StringVal(c.Value)
			return x.strLit(s)
		}
	}
	return Opaque{t: x.fresh("const", BV(64)), typ: t}
}

func constBits(v constant.Value) uint64 {
	v = constant.ToInt(v)
	if u, ok := constant.Uint64Val(v); ok {
		return u
	}
	if i, ok := constant.Int64Val(v); ok {
		return uint64(i)
	}
	b, _ := new(big.Int).SetString(v.ExactString(), 10)
	m := new(big.Int).And(b, new(big.Int).SetUint64(^uint64(0)))
	return m.Uint64()
}

var strIDs = map[string]uint64{}

func (x *Exec) strLit(s string) Val {
	id, ok := strIDs[s]
	if !ok {
		id = uint64(len(strIDs) + 1)
		strIDs[s] = id
	}
	if s == "" {
		id = 0
	}
	return Str{lit: &s, id: C(64, id), len: C(64, uint64(len(s)))}
}

// run executes a function body from state st; x.path is the entry path.
func (x *Exec) run(fr *Frame, st *State) (Val, *State) {
	fn := fr.fn
	if len(fn.Blocks) == 0 {
		x.unsupported("function without body: %s", fn)
	}
	x.depth++
	if x.depth > 60 {
		x.unsupported("inlining too deep at %s", fn)
	}
	defer func() { x.depth-- }()
	cfg := cfgOf(fn)
	if cfg.bad != "" {
		x.unsupported("%s in %s", cfg.bad, fn)
	}
	in := map[*ssa.BasicBlock][]inEdge{}
	in[fn.Blocks[0]] = []inEdge{{nil, x.path, st, 0}}
	fr.cond, fr.path, fr.live = map[*ssa.BasicBlock]*Term{}, map[*ssa.BasicBlock]*Term{}, map[liveEdge]bool{}
	var rets []retEdge
	entry := x.path
	x.walk(fr, cfg, cfg.rpo, in, nil, &rets)
	if len(rets) == 0 {
		// never returns (panics or loops forever)
		x.path = FF
		return x.zeroResult(fn), st
	}
	// merge returns
	x.lastRets = nil
	for _, r := range rets {
		if !r.cond.open {
			x.lastRets = append(x.lastRets, r.cond)
		}
	}
	v, s, R := rets[0].val, rets[0].st, rets[0].cond
	if len(rets) > 1 {
		at := map[*ssa.BasicBlock]int{}
		for i, r := range rets {
			at[r.from] = i
		}
		g := &gate{x: x, fr: fr, cfg: cfg, leaf: func(b *ssa.BasicBlock, slot int) (int, bool) { i, ok := at[b]; return i, ok }}
		v = g.join(fn.Blocks[0], func(i int) interface{} { return boxVal{rets[i].val} }, x.iteVal).(boxVal).v
		s = g.join(fn.Blocks[0], func(i int) interface{} { return rets[i].st }, x.iteState).(*State)
		R = And(entry, g.reach(fn.Blocks[0]))
	}
	if R != entry {
		if !R.open && !entry.open {
			x.fact(Imp(entry, R))
		}
	}
	x.path = entry
	return v, s
}

// gate merges what reaches a block along its incoming edges, following the
// branches from the block that dominates it.
type gate struct {
	x      *Exec
	fr     *Frame
	cfg    *cfgInfo
	target *ssa.BasicBlock // nil: the function's returns
	leaf   func(b *ssa.BasicBlock, slot int) (int, bool)
}

type boxVal struct{ v Val }

func (x *Exec) iteVal(c *Term, a, b interface{}) interface{} {
	return boxVal{x.mergeVal(c, a.(boxVal).v, b.(boxVal).v)}
}

func (x *Exec) iteState(c *Term, a, b interface{}) interface{} {
	if a.(*State) == b.(*State) {
		return a
	}
	return x.merge(c, a.(*State), b.(*State))
}

func (g *gate) join(start *ssa.BasicBlock, leaf func(i int) interface{}, ite func(c *Term, a, b interface{}) interface{}) interface{} {
	memo := map[*ssa.BasicBlock]interface{}{}
	done := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) interface{}
	step := func(b *ssa.BasicBlock, slot int) interface{} {
		if !g.fr.live[liveEdge{b, slot}] {
			return nil
		}
		s := b.Succs[slot]
		if s == g.target {
			if i, ok := g.leaf(b, slot); ok {
				return leaf(i)
			}
			return nil
		}
		if s == b || g.cfg.pos[s] <= g.cfg.pos[b] {
			return nil
		}
		return walk(s)
	}
	walk = func(b *ssa.BasicBlock) interface{} {
		if done[b] {
			return memo[b]
		}
		done[b] = true
		var r interface{}
		if g.target == nil {
			if i, ok := g.leaf(b, -1); ok {
				r = leaf(i)
				memo[b] = r
				return r
			}
		}
		switch len(b.Succs) {
		case 1:
			r = step(b, 0)
		case 2:
			p, q := step(b, 0), step(b, 1)
			switch {
			case p == nil:
				r = q
			case q == nil:
				r = p
			default:
				r = ite(g.fr.cond[b], p, q)
			}
		}
		memo[b] = r
		return r
	}
	return walk(start)
}

// reach is the condition, at the end of start, that the target is reached.
func (g *gate) reach(start *ssa.BasicBlock) *Term {
	memo := map[*ssa.BasicBlock]*Term{}
	var walk func(b *ssa.BasicBlock) *Term
	step := func(b *ssa.BasicBlock, slot int) *Term {
		if !g.fr.live[liveEdge{b, slot}] {
			return FF
		}
		s := b.Succs[slot]
		if s == g.target {
			if _, ok := g.leaf(b, slot); ok {
				return TT
			}
			return FF
		}
		if s == b || g.cfg.pos[s] <= g.cfg.pos[b] {
			return FF
		}
		return walk(s)
	}
	walk = func(b *ssa.BasicBlock) *Term {
		if r, ok := memo[b]; ok {
			return r
		}
		r := FF
		if g.target == nil {
			if _, ok := g.leaf(b, -1); ok {
				memo[b] = TT
				return TT
			}
		}
		switch len(b.Succs) {
		case 1:
			r = step(b, 0)
		case 2:
			p, q := step(b, 0), step(b, 1)
			if p == q {
				r = p
			} else {
				c := g.fr.cond[b]
				r = Or(And(c, p), And(Not(c), q))
				if p == TT {
					r = Or(c, q)
				} else if q == TT {
					r = Or(Not(c), p)
				}
			}
		}
		memo[b] = r
		return r
	}
	return walk(start)
}

type retEdge struct {
	from *ssa.BasicBlock
	cond *Term
	val  Val
	st   *State
}

func (x *Exec) zeroResult(fn *ssa.Function) Val {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return x.zero(res.At(0).Type())
	}
	r := make(Tuple, res.Len())
	for i := range r {
		r[i] = x.zero(res.At(i).Type())
	}
	return r
}

// walk processes blocks in order.  If only is non-nil it is a dry run of that loop.
func (x *Exec) walk(fr *Frame, cfg *cfgInfo, order []*ssa.BasicBlock, in map[*ssa.BasicBlock][]inEdge, only *loopInfo, rets *[]retEdge) {
	for _, b := range order {
		if only != nil && !only.body[b] {
			continue
		}
		for i := range b.Succs {
			fr.live[liveEdge{b, i}] = false
		}
		es := in[b]
		if len(es) == 0 {
			continue
		}
		delete(in, b)
		var st *State
		var g *gate
		if len(es) == 1 {
			x.path = es[0].cond
			st = es[0].st
		} else {
			d := b.Idom()
			at := map[liveEdge]int{}
			for i, e := range es {
				at[liveEdge{e.from, e.slot}] = i
			}
			g = &gate{x: x, fr: fr, cfg: cfg, target: b, leaf: func(b *ssa.BasicBlock, slot int) (int, bool) { i, ok := at[liveEdge{b, slot}]; return i, ok }}
			x.path = And(fr.path[d], g.reach(d))
			if x.path != FF {
				st = g.join(d, func(i int) interface{} { return es[i].st }, x.iteState).(*State)
			}
		}
		if x.path == FF {
			continue
		}
		st = st.clone()
		loop := cfg.loops[b]
		if loop != nil && loop != only {
			st = x.enterLoop(fr, cfg, loop, es, g, st)
		} else if loop == nil {
			x.phis(fr, b, es, g)
		}
		x.block(fr, cfg, b, st, in, rets)
	}
}

func (x *Exec) phis(fr *Frame, b *ssa.BasicBlock, es []inEdge, g *gate) {
	type upd struct {
		p *ssa.Phi
		v Val
	}
	var us []upd
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		leaf := func(i int) interface{} { return boxVal{x.val(fr, p.Edges[predIndex(b, es[i].from, es[i].slot)])} }
		var v Val
		if g == nil {
			v = leaf(0).(boxVal).v
		} else {
			v = g.join(b.Idom(), leaf, x.iteVal).(boxVal).v
		}
		us = append(us, upd{p, v})
	}
	for _, u := range us {
		fr.env[u.p] = u.v
	}
}

// predIndex: the phi operand for the edge leaving from by its successor slot
func predIndex(b, from *ssa.BasicBlock, slot int) int {
	skip := 0
	for i := 0; i < slot; i++ {
		if from.Succs[i] == b {
			skip++
		}
	}
	for i, p := range b.Preds {
		if p == from {
			if skip == 0 {
				return i
			}
			skip--
		}
	}
	panic("no pred")
}

func (x *Exec) enterLoop(fr *Frame, cfg *cfgInfo, loop *loopInfo, es []inEdge, g *gate, st *State) *State {
	b := loop.header
	x.phis(fr, b, es, g)
	var phis []*ssa.Phi
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	init := map[*ssa.Phi]Val{}
	for _, p := range phis {
		init[p] = fr.env[p]
	}
	entryPath := x.path
	entryWM := st.wm
	if fr.spec {
		x.unsupported("loop in specification function %s", fr.fn.Name())
	}
	// discover what the loop writes
	var pats []LocPat
	seen := map[string]bool{}
	wmChanged := false
	for iter := 0; ; iter++ {
		if iter > 8 {
			x.unsupported("loop write discovery does not converge in %s", fr.fn)
		}
		epoch++
		mark := epoch
		s := st.clone()
		nf := len(x.facts)
		hd := map[string]bool{}
		for k := range x.heapDone {
			hd[k] = true
		}
		x.havocPats(s, pats, "d", wmChanged)
		wmIn := s.wm
		for _, p := range phis {
			fr.env[p] = x.freshVal(s, "d"+phiName(p), p.Type())
		}
		lg := &writeLog{seen: map[string]bool{}}
		x.logs = append(x.logs, lg)
		x.dry++
		lin := map[*ssa.BasicBlock][]inEdge{b: {{nil, entryPath, s, 0}}}
		var rets []retEdge
		fr.loops = append(fr.loops, loopCtx{loop, phis, nil})
		x.walk(fr, cfg, cfg.rpo, lin, loop, &rets)
		fr.loops = fr.loops[:len(fr.loops)-1]
		// any edge left that goes back to the header, or a wm bump
		x.dry--
		x.logs = x.logs[:len(x.logs)-1]
		// drop facts of the dry run
		for _, f := range x.facts[nf:] {
			delete(x.factSet, f)
		}
		x.heapDone = hd
		x.facts = x.facts[:nf:nf]
		grew := false
		for _, p := range lg.pats {
			g := x.generalize(p, mark, entryWM)
			k := patKey(g)
			if !seen[k] {
				seen[k] = true
				pats = append(pats, g)
				grew = true
			}
		}
		for _, e := range lin[b] {
			if e.from != nil && e.st.snap != st.snap {
				x.unsupported("publication inside a loop")
			}
			if e.from != nil && e.st.wm != wmIn && !wmChanged {
				wmChanged = true
				grew = true
			}
		}
		if !grew {
			break
		}
	}
	pats = subsume(pats)
	x.path = entryPath
	// candidates on entry
	fr.loops = append(fr.loops, loopCtx{loop, phis, pats})
	loopPats[loopKeyOf(fr, loop)] = pats
	for _, p := range phis {
		fr.env[p] = init[p]
	}
	key := fmt.Sprintf("%s#%d", fr.key, loop.idx)
	x.invariants(fr, loop, phis, init, st, key, 0)
	// arbitrary iteration
	epoch++
	st = st.clone()
	x.havocPats(st, pats, "L", wmChanged)
	for _, p := range phis {
		fr.env[p] = x.freshVal(st, phiName(p), p.Type())
	}
	x.invariants(fr, loop, phis, init, st, key, 1)
	fr.loops = fr.loops[:len(fr.loops)-1]
	loopInit[loopKeyOf(fr, loop)] = init
	return st
}

type lk struct {
	fr *Frame
	l  *loopInfo
}

func loopKeyOf(fr *Frame, l *loopInfo) lk { return lk{fr, l} }

var loopPats = map[lk][]LocPat{}
var loopInit = map[lk]map[*ssa.Phi]Val{}

func subsume(ps []LocPat) []LocPat {
	var out []LocPat
	for i, p := range ps {
		drop := false
		for j, q := range ps {
			if i != j && covers(q, p) && !(covers(p, q) && i < j) {
				drop = true
			}
		}
		if !drop {
			out = append(out, p)
		}
	}
	return out
}

func covers(q, p LocPat) bool {
	if q.key != "" && q.key != p.key {
		return false
	}
	if q.tag != nil && q.tag != p.tag {
		return false
	}
	if q.minID != nil && q.minID != p.minID {
		return false
	}
	if q.id != nil && q.id != p.id {
		return false
	}
	if q.off != nil && q.off != p.off {
		return false
	}
	if q.n != nil && (q.n != p.n || q.lo != p.lo) {
		return false
	}
	return true
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func (x *Exec) block(fr *Frame, cfg *cfgInfo, b *ssa.BasicBlock, st *State, in map[*ssa.BasicBlock][]inEdge, rets *[]retEdge) {
	for _, ins := range b.Instrs {
		x.steps++
		switch ins := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := x.val(fr, ins.Cond).(*Term)
			p := x.path
			// a condition already established leaves one way only
			if x.factSet[c] || x.factSet[Imp(p, c)] {
				c = TT
			} else if x.factSet[Not(c)] || x.factSet[Imp(p, Not(c))] {
				c = FF
			}
			fr.cond[b], fr.path[b] = c, p
			x.edge(fr, cfg, b, 0, And(p, c), st, in)
			x.edge(fr, cfg, b, 1, And(p, Not(c)), st, in)
			return
		case *ssa.Jump:
			fr.path[b] = x.path
			x.edge(fr, cfg, b, 0, x.path, st, in)
			return
		case *ssa.Return:
			var v Val
			switch len(ins.Results) {
			case 0:
			case 1:
				v = x.val(fr, ins.Results[0])
			default:
				t := make(Tuple, len(ins.Results))
				for i, r := range ins.Results {
					t[i] = x.val(fr, r)
				}
				v = t
			}
			*rets = append(*rets, retEdge{b, x.path, v, st})
			return
		case *ssa.Panic:
			if !fr.spec {
				x.oblige("panic unreachable in "+fr.fn.Name(), x.pos(ins.Pos()), FF, "")
			}
			return
		default:
			st = x.instr(fr, ins, st)
			if x.path == FF {
				return
			}
		}
	}
}

func (x *Exec) edge(fr *Frame, cfg *cfgInfo, from *ssa.BasicBlock, slot int, c *Term, st *State, in map[*ssa.BasicBlock][]inEdge) {
	to := from.Succs[slot]
	fr.live[liveEdge{from, slot}] = c != FF
	if c == FF {
		return
	}
	if from == to || cfg.pos[to] <= cfg.pos[from] {
		// back edge
		in[to] = append(in[to], inEdge{from, c, st, slot})
		loop := cfg.loops[to]
		if x.dry > 0 {
			return
		}
		// check preservation
		save := x.path
		x.path = c
		var phis []*ssa.Phi
		saved := map[*ssa.Phi]Val{}
		for _, ins := range to.Instrs {
			p, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			phis = append(phis, p)
			saved[p] = fr.env[p]
		}
		nv := map[*ssa.Phi]Val{}
		for _, p := range phis {
			nv[p] = x.val(fr, p.Edges[predIndex(to, from, slot)])
		}
		fr.loops = append(fr.loops, loopCtx{loop, phis, loopPats[loopKeyOf(fr, loop)]})
		before := x.variants(fr, phis, st)
		for _, p := range phis {
			fr.env[p] = nv[p]
		}
		x.decreases(before, x.variants(fr, phis, st), x.pos(loopPos(loop)))
		x.invariants(fr, loop, phis, loopInit[loopKeyOf(fr, loop)], st, fmt.Sprintf("%s#%d", fr.key, loop.idx), 2)
		fr.loops = fr.loops[:len(fr.loops)-1]
		for _, p := range phis {
			fr.env[p] = saved[p]
		}
		x.path = save
		return
	}
	in[to] = append(in[to], inEdge{from, c, st, slot})
}
