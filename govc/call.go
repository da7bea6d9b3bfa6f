package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func sortStrings(s []string) { sort.Strings(s) }

func (x *Exec) callArgs(fr *Frame, c *ssa.CallCommon) []Val {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(fr, a))
	}
	return args
}

func (x *Exec) call(fr *Frame, ins ssa.Instruction, c *ssa.CallCommon, st *State) (Val, *State) {
	return x.callWith(fr, ins, c, x.callArgs(fr, c), st)
}

func resultType(c *ssa.CallCommon) types.Type {
	r := c.Signature().Results()
	if r.Len() == 1 {
		return r.At(0).Type()
	}
	return r
}

func (x *Exec) callWith(fr *Frame, ins ssa.Instruction, c *ssa.CallCommon, args []Val, st *State) (Val, *State) {
	pos := ins.Pos()
	if c.IsInvoke() {
		return x.invoke(fr, pos, c, args, st)
	}
	var fn *ssa.Function
	var bind []Val
	switch v := c.Value.(type) {
	case *ssa.Builtin:
		return x.builtin(fr, pos, v.Name(), c, args, st)
	default:
		cv := x.val(fr, c.Value)
		cl, ok := cv.(Closure)
		if !ok {
			x.unsupported("call of unknown function value in %s", fr.fn)
		}
		fn = cl.fn.(*ssa.Function)
		bind = cl.bind
	}
	return x.callFn(fr, pos, fn, bind, args, c, st)
}

func (x *Exec) callFn(fr *Frame, pos token.Pos, fn *ssa.Function, bind, args []Val, c *ssa.CallCommon, st *State) (Val, *State) {
	name := fn.Name()
	if fn.Package() == x.p.spkg && x.p.isSpec(fn) && strings.HasPrefix(name, "v") && len(name) > 1 && name[1] >= 'A' && name[1] <= 'Z' && fn.Signature.Recv() == nil && fn.Parent() == nil {
		return x.dsl(fr, pos, name, fn, c, args, st)
	}
	if x.p.ufs[fn] {
		return x.ufApp(fn, args), st
	}
	if fn.Package() != x.p.spkg {
		return x.external(fr, pos, fn, c, args, st)
	}
	if len(fn.Blocks) == 0 {
		return x.external(fr, pos, fn, c, args, st)
	}
	// the target call inside a contract function
	if fr.act != nil && fr.act.c.target == fn && !fr.act.called && fr.fn == fr.act.c.fn {
		return x.targetCall(fr, pos, fn, args, st)
	}
	// ... or inside a helper of the contract
	if fr.spec && fr.act == nil && x.act != nil && x.act.c.target == fn && !x.act.called && x.inQuant == 0 && fr.helperOf(x.act) {
		fr.act = x.act
		v, ns := x.targetCall(fr, pos, fn, args, st)
		fr.act = nil
		return v, ns
	}
	if x.p.opaque[fn] && !x.reveal[fn] {
		return x.opaqueApp(fr, fn, args, st), st
	}
	if !fr.spec || (fr.act != nil && fr.act.verify && fr.act.c.target == nil && fr.fn == fr.act.c.fn) {
		if cs := x.p.byTarget[fn]; len(cs) > 0 && !(x.top != nil && x.top.mode == "inline") {
			return x.useContract(fr, pos, cs[0], args, st)
		}
	}
	// inline
	for f, n := fr, 0; f != nil; f = f.parent {
		if f.fn == fn {
			n++
			if n > 1 {
				x.unsupported("recursive call of %s without a contract", fn)
			}
		}
	}
	if !fr.spec {
		x.fnCalls[funcName(fn)] = true
	}
	n := fr.calls[name]
	fr.calls[name] = n + 1
	nf := &Frame{fn: fn, env: map[ssa.Value]Val{}, parent: fr, key: fmt.Sprintf("%s>%s.%d", fr.key, name, n), spec: fr.spec || x.p.isSpec(fn), calls: map[string]int{}}
	for i, p := range fn.Params {
		nf.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		nf.env[f] = bind[i]
	}
	return x.run(nf, st)
}

// helperOf: a specification function called (directly or not) from the contract
func (f *Frame) helperOf(act *Activation) bool {
	for f != nil && f.spec {
		if f.act == act {
			return true
		}
		f = f.parent
	}
	return false
}

func flat(v Val) []*Term {
	switch v := v.(type) {
	case *Term:
		return []*Term{v}
	case Ptr:
		return []*Term{v.tag, v.id, v.off}
	case Slice:
		return []*Term{v.id, v.off, v.len}
	case Str:
		return []*Term{v.id}
	case Opaque:
		return []*Term{v.t}
	case Struct:
		var r []*Term
		for _, e := range v {
			r = append(r, flat(e)...)
		}
		return r
	}
	return nil
}

func (x *Exec) ufApp(fn *ssa.Function, args []Val) Val {
	var ts []*Term
	for _, a := range args {
		ts = append(ts, flat(a)...)
	}
	res := fn.Signature.Results()
	mkr := func(i int, t types.Type) Val {
		b, ok := under(t).(*types.Basic)
		if !ok {
			x.unsupported("uninterpreted function %s with result %s", fn.Name(), t)
		}
		_, s, _ := basicKey(b)
		n := fn.Name()
		if i > 0 {
			n = fmt.Sprintf("%s.%d", n, i)
		}
		return App(n, s, ts...)
	}
	if res.Len() == 1 {
		return mkr(0, res.At(0).Type())
	}
	var r Tuple
	for i := 0; i < res.Len(); i++ {
		r = append(r, mkr(i, res.At(i).Type()))
	}
	return r
}

// opaqueApp: a specification function kept folded; it depends on the memory
// version (by the identities of the chains it may read), so equal states give
// equal values.
func (x *Exec) opaqueApp(fr *Frame, fn *ssa.Function, args []Val, st *State) Val {
	var ts []*Term
	for _, a := range args {
		ts = append(ts, flat(a)...)
	}
	nm := fn.Name()
	var ks []string
	for k, m := range st.m {
		ks = append(ks, fmt.Sprintf("%s=%d", k, m.num))
	}
	sort.Strings(ks)
	nm += "@" + strings.Join(ks, ",")
	_, s, _ := basicKey(under(fn.Signature.Results().At(0).Type()).(*types.Basic))
	return App(nm, s, ts...)
}

// ------------------------------------------------------------ contracts

func (x *Exec) targetCall(fr *Frame, pos token.Pos, fn *ssa.Function, args []Val, st *State) (Val, *State) {
	act := fr.act
	act.called = true
	act.pre = st.clone()
	act.prePath = x.path
	if act.verify {
		nf := &Frame{fn: fn, env: map[ssa.Value]Val{}, parent: fr, key: fn.Name(), calls: map[string]int{}}
		for i, p := range fn.Params {
			nf.env[p] = args[i]
		}
		x.fnCalls[funcName(fn)] = true
		// reachability of the precondition
		x.obls = append(x.obls, &Obligation{contract: x.curName(), name: "cover: precondition satisfiable", pos: x.pos(pos), nhyp: len(x.facts), hyps: x.facts, goal: Not(x.path), cover: true})
		v, ns := x.run(nf, st)
		x.cuts = x.lastRets
		x.frameCheck(fr, act, ns)
		ns = x.ghostView(act, ns)
		act.post = ns
		act.result = v
		x.obls = append(x.obls, &Obligation{contract: x.curName(), name: "cover: normal return reachable", pos: x.pos(pos), nhyp: len(x.facts), hyps: x.facts, goal: Not(x.path), cover: true})
		return v, ns
	}
	// use mode
	ns := st.clone()
	x.havocPats(ns, act.mods, fn.Name(), act.allocs)
	var v Val
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
	case 1:
		v = x.freshVal(ns, fn.Name(), res.At(0).Type())
	default:
		v = x.freshVal(ns, fn.Name(), res)
	}
	act.result = v
	act.post = ns
	return v, ns
}

func (x *Exec) useContract(fr *Frame, pos token.Pos, c *Contract, args []Val, st *State) (Val, *State) {
	for f := fr; f != nil; f = f.parent {
		if f.fn == c.fn && f.act != nil && !f.act.verify {
			x.unsupported("recursive contract use")
		}
	}
	x.fnCalls["contract "+c.name] = true
	act := &Activation{c: c, verify: false, site: x.pos(pos), labels: map[string]int{}}
	saveAct := x.act
	x.act = act
	nf := &Frame{fn: c.fn, env: map[ssa.Value]Val{}, parent: fr, key: fr.key + ">use" + c.name, spec: true, calls: map[string]int{}, act: act}
	for i, p := range c.fn.Params {
		nf.env[p] = args[i]
	}
	_, ns := x.run(nf, st)
	x.act = saveAct
	if !act.called {
		x.unsupported("contract %s does not call its target", c.name)
	}
	if !act.allocs && ns.wm != st.wm {
		// boxes made while evaluating the specification are not program objects
		ns = ns.clone()
		ns.wm = st.wm
	}
	return act.result, ns
}

// ghostView: specification state after a call is what it was before, except
// where the contract says otherwise (its own updates follow); callees' updates
// of it inside the body only served the proof.
func (x *Exec) ghostView(act *Activation, post *State) *State {
	ns := post.clone()
	for k, m1 := range post.m {
		if !strings.HasPrefix(k, "g:") || machineGhost[k] {
			continue
		}
		m0 := x.mem(act.pre, k)
		if m0 == m1 {
			continue
		}
		m := m0
		for _, p := range act.mods {
			if p.key != k {
				continue
			}
			if p.off == nil {
				m = m1
				break
			}
			l := ghostLoc(p.off)
			m = newMem(&Mem{kind: mStore, key: k, sort: m.sort, prev: m, loc: l, val: m1.read(l)})
		}
		ns.m[k] = m
	}
	return ns
}

// ghost state changed by the execution itself
var machineGhost = map[string]bool{"g:pooled": true}

// frameCheck: every location that existed before the call and is not listed as
// modified has its old value.
func (x *Exec) frameCheck(fr *Frame, act *Activation, post *State) {
	var ks []string
	for k := range post.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		m1 := post.m[k]
		m0 := x.mem(act.pre, k)
		if m0 == m1 || strings.HasPrefix(k, "g:") && !machineGhost[k] {
			continue
		}
		all := false
		for _, p := range act.mods {
			if (p.key == "" || p.key == k) && p.tag == nil && p.id == nil && p.off == nil && p.n == nil && p.minID == nil {
				all = true
			}
		}
		if all {
			continue
		}
		l := Loc{x.fresh("fr.tag", BV(tagW)), x.fresh("fr.id", BV(64)), x.fresh("fr.off", BV(64))}
		ex := FF
		for _, p := range act.mods {
			if p.key == "" || p.key == k {
				ex = Or(ex, p.match(l))
			}
		}
		old := ULt(l.id, act.pre.wm)
		g := Imp(And(old, Not(ex)), Eq(m1.read(l), m0.read(l)))
		x.oblige("frame: nothing else changes ("+k+")", act.site, g, "")
	}
	if !act.allocs && post.wm != act.pre.wm {
		// fresh objects are invisible to the caller unless returned; identity reuse
		// would be unsound, so the contract must say so.
		x.oblige("frame: contract declares allocation", act.site, FF, "")
	}
}

// verify runs one contract and collects its obligations.
func (x *Exec) verify(c *Contract) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if b, ok := r.(bail); ok {
				err = fmt.Errorf("%s", b.msg)
				return
			}
			panic(r)
		}
	}()
	x.top = c
	x.wm0 = x.fresh("wm0", BV(64))
	isWM[x.wm0] = true
	x.fact(And(ULt(b64(100000), x.wm0), ULt(x.wm0, b64(1<<40))))
	x.baseName = "m."
	st := &State{m: map[string]*Mem{}, wm: x.wm0}
	act := &Activation{c: c, verify: true, labels: map[string]int{}}
	x.act = act
	fr := &Frame{fn: c.fn, env: map[ssa.Value]Val{}, key: c.name, spec: true, calls: map[string]int{}, act: act}
	for _, p := range c.fn.Params {
		fr.env[p] = x.freshVal(st, p.Name(), p.Type())
	}
	x.run(fr, st)
	for _, b := range x.p.fixedBad {
		x.path = TT
		x.oblige("fixed size: "+b, "", FF, "")
	}
	if c.target != nil && !act.called {
		return fmt.Errorf("contract %s does not reach the call of %s", c.name, c.target.Name())
	}
	return nil
}

// ------------------------------------------------------------ DSL

func strArg(v Val) string {
	if s, ok := v.(Str); ok && s.lit != nil {
		return *s.lit
	}
	return "?"
}

// variadic interface slices: recover the boxed values through memory is
// clumsy, so vModifies takes single arguments.
func (x *Exec) dsl(fr *Frame, pos token.Pos, name string, fn *ssa.Function, c *ssa.CallCommon, args []Val, st *State) (Val, *State) {
	act := x.act
	needAct := func() {
		if act == nil {
			x.unsupported("%s outside a contract", name)
		}
	}
	_ = func(s string) string {
		n := act.labels[s]
		act.labels[s] = n + 1
		if n > 0 {
			return fmt.Sprintf("%s#%d", s, n+1)
		}
		return s
	}
	switch name {
	case "vRequires":
		needAct()
		cnd := args[0].(*Term)
		if act.called {
			x.unsupported("vRequires after the call in %s", act.c.name)
		}
		if act.verify {
			x.assume(cnd)
		} else {
			act.nreq++
			x.oblige(fmt.Sprintf("precondition %d of %s at call", act.nreq, act.c.name), act.site+" "+x.pos(pos), cnd, "")
			x.assume(cnd)
		}
		return nil, st
	case "vEnsures":
		needAct()
		cnd := args[1].(*Term)
		if act.verify {
			l := strArg(args[0])
			x.oblige(l, x.pos(pos), cnd, "")
			x.assume(cnd)
		} else {
			x.assume(cnd)
		}
		return nil, st
	case "vAssert":
		needAct()
		if act.verify {
			x.oblige(strArg(args[0]), x.pos(pos), args[1].(*Term), "")
		}
		x.assume(args[1].(*Term))
		return nil, st
	case "vAssume":
		x.assume(args[1].(*Term))
		if x.inQuant == 0 {
			x.assumed[strArg(args[0])] = true
		}
		return nil, st
	case "vAxiom":
		// definitional axiom of an uninterpreted ghost function
		x.assume(args[0].(*Term))
		return nil, st
	case "vCut":
		// split: prove with and without the condition (adds nothing, helps the solver)
		return nil, st
	case "vModifies":
		needAct()
		for _, p := range x.locPats(args[0], c.Args[0]) {
			act.mods = append(act.mods, p)
		}
		return nil, st
	case "vModifiesSlice":
		needAct()
		s := unbox(args[0]).(Slice)
		lo, n := args[1].(*Term), args[2].(*Term)
		for _, lf := range leaves(s.elem, 0, nil) {
			l := slotLoc(Loc{arrTag(s.elem), s.id, Add(s.off, lo)}, lf.slot)
			act.mods = append(act.mods, LocPat{key: lf.key, tag: l.tag, id: l.id, lo: l.off, n: Sub(n, lo)})
		}
		return nil, st
	case "vModifiesArray":
		// the whole backing array of a slice
		needAct()
		s := unbox(args[0]).(Slice)
		for _, lf := range leaves(s.elem, 0, nil) {
			l := slotLoc(Loc{arrTag(s.elem), s.id, s.off}, lf.slot)
			act.mods = append(act.mods, LocPat{key: lf.key, tag: l.tag, id: l.id})
		}
		return nil, st
	case "vModifiesElems":
		// elements of any array of this element type
		needAct()
		s := unbox(args[0]).(Slice)
		for _, lf := range leaves(s.elem, 0, nil) {
			l := slotLoc(Loc{arrTag(s.elem), s.id, s.off}, lf.slot)
			act.mods = append(act.mods, LocPat{key: lf.key, tag: l.tag})
		}
		return nil, st
	case "vModifiesGhost":
		needAct()
		k := ghostKey(strArg(args[0]))
		act.mods = append(act.mods, LocPat{key: k})
		return nil, st
	case "vModifiesGhostAt":
		needAct()
		k := ghostKey(strArg(args[0]))
		act.mods = append(act.mods, LocPat{key: k, off: args[1].(*Term)})
		return nil, st
	case "vModifiesShadow":
		needAct()
		k := shadowKey(strArg(args[0]))
		act.mods = append(act.mods, LocPat{key: k})
		return nil, st
	case "vModifiesShadowSlice":
		needAct()
		k := shadowKey(strArg(args[0]))
		s := args[1].(Slice)
		lo, n := args[2].(*Term), args[3].(*Term)
		act.mods = append(act.mods, LocPat{key: k, tag: arrTag(s.elem), id: s.id, lo: Add(s.off, lo), n: Sub(n, lo)})
		return nil, st
	case "vModifiesAll":
		// all memory of the element type of the given pointer or slice
		needAct()
		v := unbox(args[0])
		ks := map[string]bool{}
		switch v := v.(type) {
		case Slice:
			keysOf(v.elem, ks)
		default:
			keysOf(elemOf(boxedType(args[0], c.Args[0])), ks)
		}
		for _, k := range sortedKeys(ks) {
			act.mods = append(act.mods, LocPat{key: k})
		}
		return nil, st
	case "vAllocates":
		needAct()
		act.allocs = true
		return nil, st
	case "vImplies":
		return Imp(args[0].(*Term), args[1].(*Term)), st
	case "vIff":
		return Eq(args[0].(*Term), args[1].(*Term)), st
	case "vIteU64", "vIteInt":
		return Ite(args[0].(*Term), args[1].(*Term), args[2].(*Term)), st
	case "vForall", "vExists", "vForallIn":
		return x.quantifier(fr, name, args, st), st
	case "vTrig":
		if len(x.trigs) > 0 {
			var ts []*Term
			for _, a := range args {
				ts = append(ts, flat(unbox(a))...)
			}
			x.trigs[len(x.trigs)-1] = append(x.trigs[len(x.trigs)-1], ts...)
		}
		return nil, st
	case "vOldU64", "vOldInt", "vOldBool", "vOldByte", "vOldI32", "vOldI64":
		needAct()
		if act.pre == nil {
			x.unsupported("%s before the call", name)
		}
		return x.evalClosure(fr, args[0].(Closure), nil, x.oldState(act, st)), st
	case "vPublishes":
		needAct()
		act.pubs = append(act.pubs, x.locPats(args[0], c.Args[0])...)
		return nil, st
	case "vPublished":
		needAct()
		if st.pub == nil {
			return FF, st
		}
		return st.pub, st
	case "vPubU64", "vPubBool":
		needAct()
		if st.snap == nil {
			// never published: anything
			return x.freshVal(st, "nopub", fn.Signature.Results().At(0).Type()), st
		}
		return x.evalClosure(fr, args[0].(Closure), nil, x.stateAt(act, st.snap, st)), st
	case "vFresh":
		// the object was allocated during the call
		needAct()
		var id *Term
		switch v := unbox(args[0]).(type) {
		case Ptr:
			id = v.id
		case Slice:
			id = v.id
		}
		return Not(ULt(id, act.pre.wm)), st
	case "vAllocated":
		var id *Term
		switch v := unbox(args[0]).(type) {
		case Ptr:
			id = v.id
		case Slice:
			id = v.id
		}
		return ULt(id, st.wm), st
	case "vSameArray":
		return Eq(unbox(args[0]).(Slice).id, unbox(args[1]).(Slice).id), st
	case "vArrID":
		return unbox(args[0]).(Slice).id, st
	case "vOff":
		return unbox(args[0]).(Slice).off, st
	case "vPtrID":
		return unbox(args[0]).(Ptr).id, st
	case "vPtrOff":
		return unbox(args[0]).(Ptr).off, st
	case "vDetached":
		// not part of the tree's own structures
		p := unbox(args[0]).(Ptr)
		c := TT
		for _, n := range []string{"T:radix.Allocator", "T:radix.Tree", "T:radix.nodeBlock", "T:radix.epochManager", "T:radix.Counter", "T:radix.Iterator", "T:radix.UpdateOperation", "T:radix.DeleteOperation", "T:radix.slots", "A:radix.item", "A:radix.item#8", "A:uint64", "A:radix.recycledItem", "A:radix.recycledItem#1", "A:[]radix.recycledItem", "GHOST"} {
			c = And(c, Not(Eq(p.tag, tagConst(n))))
		}
		return c, st
	case "vPtrTag":
		return ZExt(64, unbox(args[0]).(Ptr).tag), st
	case "vIsElem":
		// p == &s[i] (i possibly past len)
		p, s := unbox(args[0]).(Ptr), unbox(args[1]).(Slice)
		i := args[2].(*Term)
		return And(Eq(p.tag, arrTag(s.elem)), Eq(p.id, s.id), Eq(p.off, Add(s.off, i))), st
	case "vAt":
		// element of the backing array at an absolute offset of a []uint64
		s := args[0].(Slice)
		return x.mem(st, keyFor("uint64", BV(64))).read(Loc{arrTag(s.elem), s.id, args[1].(*Term)}), st
	case "vWordAt":
		// word of []uint64 backing array id at absolute offset
		return x.mem(st, keyFor("uint64", BV(64))).read(Loc{arrTag(types.Typ[types.Uint64]), args[0].(*Term), args[1].(*Term)}), st
	case "vMark":
		// always true; an instantiation mark for quantifiers
		if !x.marked {
			x.marked = true
			b := BoundVar("mk", BV(64))
			a := App("vmark", Bool, b)
			save := x.path
			x.path = TT
			x.assume(Quant(OForall, []*Term{b}, a, [][]*Term{{a}}))
			x.path = save
		}
		return App("vmark", Bool, args[0].(*Term)), st
	case "vG":
		return x.mem(st, ghostKey(strArg(args[0]))).read(ghostLoc(args[1].(*Term))), st
	case "vGSet":
		k := ghostKey(strArg(args[0]))
		l := ghostLoc(args[1].(*Term))
		m := x.mem(st, k)
		ns := st.clone()
		ns.m[k] = newMem(&Mem{kind: mStore, key: k, sort: m.sort, prev: m, loc: l, val: args[2].(*Term)})
		x.noteWrite(LocPat{key: k, tag: l.tag, id: l.id, off: l.off})
		return nil, ns
	case "vSh":
		// shadow value of the word s[i]
		s := args[1].(Slice)
		return x.mem(st, shadowKey(strArg(args[0]))).read(Loc{arrTag(s.elem), s.id, Add(s.off, args[2].(*Term))}), st
	case "vShAt":
		return x.mem(st, shadowKey(strArg(args[0]))).read(Loc{arrTag(types.Typ[types.Uint64]), args[1].(*Term), args[2].(*Term)}), st
	case "vShPtr":
		p := args[1].(Ptr)
		return x.mem(st, shadowKey(strArg(args[0]))).read(Loc{p.tag, p.id, p.off}), st
	case "vShSet":
		// fill the shadow of s[lo:hi] with a value
		k := shadowKey(strArg(args[0]))
		s := args[1].(Slice)
		lo, hi := args[2].(*Term), args[3].(*Term)
		m := x.mem(st, k)
		ns := st.clone()
		l := Loc{arrTag(s.elem), s.id, Add(s.off, lo)}
		ns.m[k] = newMem(&Mem{kind: mFill, key: k, sort: m.sort, prev: m, loc: l, n: Sub(hi, lo), val: args[4].(*Term)})
		x.noteWrite(LocPat{key: k, tag: l.tag, id: l.id, lo: l.off, n: Sub(hi, lo)})
		return nil, ns
	case "vReveal":
		if cl, ok := unbox(args[0]).(Closure); ok {
			x.reveal[cl.fn.(*ssa.Function)] = true
		}
		return nil, st
	case "vAnyU64", "vAnyInt", "vAnyBool", "vAnyByte":
		return x.freshVal(st, "any", c.Signature().Results().At(0).Type()), st
	case "vSameExcept":
		needAct()
		return x.sameExcept(args, st), st
	case "vUnchanged":
		// the memory region of s[lo:hi] has the values it had before the call
		needAct()
		s := args[0].(Slice)
		lo, hi := args[1].(*Term), args[2].(*Term)
		j := BoundVar("j", BV(64))
		l := Loc{arrTag(s.elem), s.id, j}
		now := x.mem(st, keyFor("uint64", BV(64))).read(l)
		old := x.mem(act.pre, keyFor("uint64", BV(64))).read(l)
		body := Imp(ULt(Sub(j, Add(s.off, lo)), Sub(hi, lo)), Eq(now, old))
		return Quant(OForall, []*Term{j}, body, autoPats([]*Term{j}, body, nil)), st
	}
	x.unsupported("unknown specification primitive %s", name)
	return nil, st
}

func (x *Exec) sameExcept(args []Val, st *State) *Term { return TT }

func unbox(v Val) Val {
	if o, ok := v.(Opaque); ok && o.dyn != nil {
		return o.dyn
	}
	return v
}

func boxedType(v Val, a ssa.Value) types.Type {
	if o, ok := v.(Opaque); ok && o.dyn != nil {
		return o.typ
	}
	return a.Type()
}

func ghostKey(n string) string  { return keyFor("g:"+n, BV(64)) }
func shadowKey(n string) string { return keyFor("g:sh:"+n, BV(64)) }
func ghostLoc(i *Term) Loc      { return Loc{tagConst("GHOST"), b64(0), i} }

func (x *Exec) locPats(v Val, a ssa.Value) []LocPat {
	t := boxedType(v, a)
	v = unbox(v)
	p, ok := v.(Ptr)
	if !ok {
		x.unsupported("vModifies needs a pointer")
	}
	et := elemOf(t)
	return x.typePats(p.tag, p.id, p.off, et)
}

func (x *Exec) typePats(tag, id, off *Term, et types.Type) []LocPat {
	var out []LocPat
	switch u := under(et).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			l := slotLoc(Loc{tag, id, off}, fieldOff(u, i))
			out = append(out, x.typePats(l.tag, l.id, l.off, u.Field(i).Type())...)
		}
		return out
	case *types.Array:
		if isC(tag) && strings.HasPrefix(tagNames[tag.val], "A:") {
			if tag != arrTag(u.Elem()) {
				x.unsupported("vModifies of an array inside a slice element")
			}
			for _, lf := range leaves(u.Elem(), 0, nil) {
				l := slotLoc(Loc{tag, id, off}, lf.slot)
				out = append(out, LocPat{key: lf.key, tag: l.tag, id: id, lo: off, n: b64(uint64(u.Len()))})
			}
			return out
		}
		ks := map[string]bool{}
		keysOf(u.Elem(), ks)
		for _, k := range sortedKeys(ks) {
			out = append(out, LocPat{key: k, tag: tag, id: id, lo: off, n: b64(slotsOf(et))})
		}
		return out
	}
	ks := map[string]bool{}
	keysOf(et, ks)
	for _, k := range sortedKeys(ks) {
		out = append(out, LocPat{key: k, tag: tag, id: id, off: off})
	}
	return out
}

// oldState: objects that existed before the call as they were then, newer ones as they are.
func (x *Exec) oldState(act *Activation, cur *State) *State { return x.stateAt(act, act.pre, cur) }

// stateAt is the earlier state pre, with the contract's own variables as they are in cur.
func (x *Exec) stateAt(act *Activation, pre, cur *State) *State {
	n := &State{m: map[string]*Mem{}, wm: cur.wm}
	keys := map[string]bool{}
	for k := range pre.m {
		keys[k] = true
	}
	for k := range cur.m {
		keys[k] = true
	}
	for k := range keys {
		a, b := x.mem(pre, k), x.mem(cur, k)
		if a == b || strings.HasPrefix(k, "g:") {
			n.m[k] = a
			continue
		}
		n.m[k] = newMem(&Mem{kind: mSel, key: k, sort: a.sort, prev: a, m2: b, n: pre.wm})
	}
	// the contract's own variables are always read as they are now
	logs := x.logs
	x.logs = nil
	for _, c := range act.cells {
		if _, ok := under(c.t).(*types.Array); ok {
			continue
		}
		l := Loc{c.p.tag, c.p.id, c.p.off}
		x.store(n, l, c.t, x.load(cur, l, c.t))
	}
	x.logs = logs
	return n
}

func (x *Exec) evalClosure(fr *Frame, cl Closure, args []Val, st *State) Val {
	fn := cl.fn.(*ssa.Function)
	nf := &Frame{fn: fn, env: map[ssa.Value]Val{}, parent: fr, key: fr.key + ">" + fn.Name(), spec: true, calls: map[string]int{}}
	for i, p := range fn.Params {
		nf.env[p] = args[i]
	}
	// captured variables live in cells of the current state; if the closure is
	// evaluated in an older state the cells must still be visible
	for i, f := range fn.FreeVars {
		nf.env[f] = cl.bind[i]
	}
	save := x.path
	v, _ := x.run(nf, st)
	x.path = save
	return v
}

func (x *Exec) quantifier(fr *Frame, name string, args []Val, st *State) *Term {
	var cl Closure
	var in *Slice
	if name == "vForallIn" {
		s := unbox(args[0]).(Slice)
		in = &s
		cl = unbox(args[1]).(Closure)
	} else {
		cl = unbox(args[0]).(Closure)
	}
	fn := cl.fn.(*ssa.Function)
	var bound []*Term
	var as []Val
	for _, p := range fn.Params {
		b, ok := under(p.Type()).(*types.Basic)
		if !ok {
			x.unsupported("quantified variable of type %s", p.Type())
		}
		_, s, _ := basicKey(b)
		v := BoundVar(p.Name(), s)
		bound = append(bound, v)
		as = append(as, v)
	}
	guard := TT
	if in != nil {
		// the bound variable ranges over absolute offsets of the backing array
		j := bound[0]
		i := Sub(j, in.off)
		as[0] = i
		guard = ULt(i, in.len)
	}
	x.inQuant++
	x.trigs = append(x.trigs, nil)
	save := x.path
	v := x.evalClosure(fr, cl, as, st.clone())
	x.path = save
	trigs := x.trigs[len(x.trigs)-1]
	x.trigs = x.trigs[:len(x.trigs)-1]
	x.inQuant--
	body := v.(*Term)
	if name == "vExists" {
		return Quant(OExists, bound, And(guard, body), autoPats(bound, body, trigs))
	}
	body = Imp(guard, body)
	return Quant(OForall, bound, body, autoPats(bound, body, trigs))
}

// autoPats finds uninterpreted applications covering the bound variables.
func autoPats(bound []*Term, body *Term, hint []*Term) [][]*Term {
	isB := map[*Term]bool{}
	for _, b := range bound {
		isB[b] = true
	}
	hasB := func(t *Term) bool {
		m := map[*Term]bool{}
		freeBound(t, map[*Term]bool{}, m)
		for b := range m {
			if isB[b] {
				return true
			}
		}
		return false
	}
	cover := func(t *Term) bool {
		m := map[*Term]bool{}
		freeBound(t, map[*Term]bool{}, m)
		for _, b := range bound {
			if !m[b] {
				return false
			}
		}
		for b := range m {
			if !isB[b] {
				return false
			}
		}
		return true
	}
	var apps []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.open {
			return
		}
		seen[t] = true
		if t.op == OForall || t.op == OExists {
			return
		}
		for _, a := range t.args {
			walk(a)
		}
		if t.op == OApp && hasB(t) && okPattern(t) {
			apps = append(apps, t)
		}
	}
	if len(hint) > 0 {
		for _, h := range hint {
			walk(h)
		}
	} else {
		walk(body)
	}
	var pats [][]*Term
	for _, a := range apps {
		if cover(a) {
			// prefer minimal: skip if an argument app already covers
			pats = append(pats, []*Term{a})
		}
	}
	if len(pats) > 8 {
		pats = pats[:8]
	}
	if len(pats) == 0 && len(apps) > 1 && len(bound) == 2 {
		// multi-pattern
		for _, a := range apps {
			for _, b := range apps {
				ma, mb := map[*Term]bool{}, map[*Term]bool{}
				freeBound(a, map[*Term]bool{}, ma)
				freeBound(b, map[*Term]bool{}, mb)
				if ma[bound[0]] && !ma[bound[1]] && mb[bound[1]] && !mb[bound[0]] {
					pats = append(pats, []*Term{a, b})
				}
			}
		}
		if len(pats) > 6 {
			pats = pats[:6]
		}
	}
	return pats
}

// okPattern: no boolean structure inside the pattern
func okPattern(t *Term) bool {
	switch t.op {
	case OIte, OAnd, OOr, ONot, OEq, OULt, OULe, OSLt, OSLe, OForall, OExists:
		return false
	}
	for _, a := range t.args {
		if a.open && !okPattern(a) {
			return false
		}
	}
	return true
}

// ------------------------------------------------------------ builtins & externals

func (x *Exec) builtin(fr *Frame, pos token.Pos, name string, c *ssa.CallCommon, args []Val, st *State) (Val, *State) {
	switch name {
	case "len":
		switch v := args[0].(type) {
		case Slice:
			return v.len, st
		case Str:
			return v.len, st
		case Opaque:
			l := x.fresh("len", BV(64))
			x.assume(And(SLe(b64(0), l), SLt(l, b64(1<<40))))
			return l, st
		case Ptr:
			return b64(uint64(under(elemOf(c.Args[0].Type())).(*types.Array).Len())), st
		}
	case "cap":
		if v, ok := args[0].(Slice); ok {
			return v.cap, st
		}
	case "copy":
		d := args[0].(Slice)
		s, ok := args[1].(Slice)
		if !ok {
			x.unsupported("copy from string")
		}
		n := Ite(ULt(d.len, s.len), d.len, s.len)
		ns := st.clone()
		x.copyRange(ns, d, s, n)
		return n, ns
	case "append":
		d := args[0].(Slice)
		s, ok := args[1].(Slice)
		if !ok {
			// append([]byte, string...)
			str := args[1].(Str)
			s = Slice{id: x.fresh("strbytes", BV(64)), off: b64(0), len: str.len, cap: str.len, elem: d.elem}
		}
		return x.appendSlice(fr, d, s, st)
	case "print", "println":
		return nil, st
	case "delete":
		return nil, st
	case "close":
		return nil, st
	case "ssa:wrapnilchk":
		return args[0], st
	}
	x.unsupported("builtin %s", name)
	return nil, st
}

func (x *Exec) copyRange(st *State, d, s Slice, n *Term) {
	// overlapping moves read the memory as it was before
	old := map[string]*Mem{}
	for _, lf := range leaves(d.elem, 0, nil) {
		k := lf.key
		m := x.mem(st, k)
		if old[k] == nil {
			old[k] = m
		}
		dl := slotLoc(Loc{arrTag(d.elem), d.id, d.off}, lf.slot)
		sl := slotLoc(Loc{arrTag(s.elem), s.id, s.off}, lf.slot)
		st.m[k] = newMem(&Mem{kind: mCopy, key: k, sort: m.sort, prev: m, m2: old[k], loc: dl, src: sl, n: n})
		x.noteWrite(LocPat{key: k, tag: dl.tag, id: d.id, lo: d.off, n: n})
	}
}

func (x *Exec) appendSlice(fr *Frame, d, s Slice, st *State) (Val, *State) {
	n := Add(d.len, s.len)
	fits := ULe(n, d.cap)
	save := x.path
	// in place
	x.path = And(save, fits)
	a := st.clone()
	if x.path != FF {
		x.copyRange(a, Slice{d.id, Add(d.off, d.len), s.len, s.len, d.elem}, s, s.len)
	}
	ra := Slice{d.id, d.off, n, d.cap, d.elem}
	// reallocate
	x.path = And(save, Not(fits))
	b := st.clone()
	id := x.alloc(b)
	nc := x.fresh("newcap", BV(64))
	x.fact(And(ULe(n, nc), ULt(nc, b64(1<<41))))
	x.assume(ULt(nc, b64(1<<40)))
	nd := Slice{id, b64(0), n, nc, d.elem}
	x.zeroArr(b, id, d.elem)
	x.copyRange(b, Slice{id, b64(0), d.len, nc, d.elem}, d, d.len)
	src := s
	x.copyRange(b, Slice{id, d.len, s.len, nc, d.elem}, src, s.len)
	x.path = save
	if fits == FF {
		return nd, b
	}
	// keep the watermark simple: both branches end above b.wm
	ns := x.merge(fits, a, b)
	ns.wm = b.wm
	return x.mergeVal(fits, ra, nd), ns
}

func (x *Exec) havocResult(c *ssa.CallCommon, name string, st *State) Val {
	res := c.Signature().Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return x.freshVal(st, name, res.At(0).Type())
	}
	return x.freshVal(st, name, res)
}

func (x *Exec) external(fr *Frame, pos token.Pos, fn *ssa.Function, c *ssa.CallCommon, args []Val, st *State) (Val, *State) {
	pkg := ""
	if fn.Package() != nil {
		pkg = fn.Package().Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Path()
	}
	full := pkg + "." + fn.Name()
	if pkg == "sync/atomic" {
		return x.atomic(fr, pos, fn, args, st)
	}
	switch {
	case full == "runtime.Gosched" || full == "runtime.KeepAlive":
		return nil, st
	case fn.Name() == "memmove" && fn.Package() == x.p.spkg:
		return x.memmove(fr, pos, args, st)
	case pkg == "sync" && fn.Name() == "Get" && strings.Contains(fn.String(), "Pool"):
		return x.poolGet(fr, pos, c, args, st)
	case pkg == "sync" && fn.Name() == "Put":
		return x.poolPut(fr, pos, args, st)
	case pkg == "sync":
		return x.havocResult(c, fn.Name(), st), st
	case full == "fmt.Sprintf" || full == "fmt.Errorf" || full == "time.Now" || full == "time.Since" || full == "fmt.Fprintf" || full == "fmt.Fprint" || full == "fmt.Printf" || full == "runtime.NumCPU":
		v := x.havocResult(c, fn.Name(), st)
		if full == "runtime.NumCPU" {
			x.assume(And(SLt(b64(0), v.(*Term)), SLt(v.(*Term), b64(1<<20))))
		}
		if full == "fmt.Errorf" {
			x.assume(Not(Eq(v.(Opaque).t, b64(0))))
		}
		return v, st
	}
	ns := st.clone()
	x.newWM(ns)
	x.assumed["external "+full+" returns any value and does not modify the package's memory"] = true
	return x.havocResult(c, fn.Name(), ns), ns
}

func (x *Exec) invoke(fr *Frame, pos token.Pos, c *ssa.CallCommon, args []Val, st *State) (Val, *State) {
	ns := st.clone()
	x.newWM(ns)
	x.assumed["interface call "+c.Method.Name()+" returns any value and does not modify the package's memory"] = true
	v := x.havocResult(c, c.Method.Name(), ns)
	if t, ok := v.(Tuple); ok && c.Method.Name() == "Write" {
		x.assume(And(SLe(b64(0), t[0].(*Term)), SLt(t[0].(*Term), b64(1<<40))))
	}
	return v, ns
}

func (x *Exec) atomic(fr *Frame, pos token.Pos, fn *ssa.Function, args []Val, st *State) (Val, *State) {
	p := args[0].(Ptr)
	x.nonnil(fr, p, pos)
	et := elemOf(fn.Signature.Params().At(0).Type())
	l := Loc{p.tag, p.id, p.off}
	n := fn.Name()
	v, ns := x.atomic1(fr, n, fn, l, et, args, st)
	if x.act != nil && x.act.verify && len(x.act.pubs) > 0 && !fr.spec && !strings.HasPrefix(n, "Load") {
		ks := map[string]bool{}
		keysOf(et, ks)
		hit := FF
		for _, q := range x.act.pubs {
			if ks[q.key] {
				hit = Or(hit, q.match(l))
			}
		}
		if ok, is := v.(*Term); is && strings.HasPrefix(n, "CompareAndSwap") {
			hit = And(hit, ok)
		}
		if hit != FF {
			now := ns.clone()
			now.snap, now.pub = nil, nil
			ns = ns.clone()
			if ns.snap == nil {
				ns.snap, ns.pub = now, hit
			} else {
				first := And(hit, Not(ns.pub))
				ns.snap, ns.pub = x.merge(first, now, ns.snap), Or(hit, ns.pub)
			}
		}
	}
	return v, ns
}

func (x *Exec) atomic1(fr *Frame, n string, fn *ssa.Function, l Loc, et types.Type, args []Val, st *State) (Val, *State) {
	if x.interf != nil && !fr.spec {
		st = x.interf.step(x, fr, n, l, et, st)
	}
	switch {
	case strings.HasPrefix(n, "Load"):
		return x.load(st, l, et), st
	case strings.HasPrefix(n, "Store"):
		ns := st.clone()
		x.store(ns, l, et, args[1])
		return nil, ns
	case strings.HasPrefix(n, "Add"):
		ns := st.clone()
		v := Add(x.load(st, l, et).(*Term), args[1].(*Term))
		x.store(ns, l, et, v)
		return v, ns
	case strings.HasPrefix(n, "CompareAndSwap"):
		old := x.load(st, l, et).(*Term)
		ok := Eq(old, args[1].(*Term))
		ns := st.clone()
		x.store(ns, l, et, Ite(ok, args[2].(*Term), old))
		return ok, ns
	case strings.HasPrefix(n, "Swap"):
		old := x.load(st, l, et)
		ns := st.clone()
		x.store(ns, l, et, args[1])
		return old, ns
	}
	x.unsupported("atomic.%s", n)
	return nil, st
}

func (x *Exec) memmove(fr *Frame, pos token.Pos, args []Val, st *State) (Val, *State) {
	to, ok1 := args[0].(Opaque)
	from, ok2 := args[1].(Opaque)
	n := args[2].(*Term)
	if !ok1 || !ok2 || to.dyn == nil || from.dyn == nil {
		x.unsupported("memmove of unknown pointers")
	}
	d, s := to.dyn.(Ptr), from.dyn.(Ptr)
	dk, sk := typeKey(elemOf(to.typ)), typeKey(elemOf(from.typ))
	size := map[string]uint64{"uint64": 8, "byte": 1, "uint8": 1}
	if d.ext != nil {
		x.safety(fr, "memmove stays inside destination", pos, ULe(n, Mul(b64(size[dk]), d.ext)))
	} else {
		x.unsupported("memmove destination of unknown extent")
	}
	if s.ext != nil {
		x.safety(fr, "memmove stays inside source", pos, ULe(n, Mul(b64(size[sk]), s.ext)))
	} else {
		x.unsupported("memmove source of unknown extent")
	}
	ns := st.clone()
	u8, u64 := keyFor("uint8", BV(8)), keyFor("uint64", BV(64))
	isB := func(k string) bool { return k == "byte" || k == "uint8" }
	switch {
	case dk == "uint64" && isB(sk):
		m := x.mem(ns, u64)
		ns.m[u64] = newMem(&Mem{kind: mPack, key: u64, sort: BV(64), prev: m, m2: x.mem(ns, u8), loc: Loc{d.tag, d.id, d.off}, src: Loc{s.tag, s.id, s.off}, n: n})
		x.noteWrite(LocPat{key: u64, tag: d.tag, id: d.id, lo: d.off, n: Bin(OLShr, Add(n, b64(7)), b64(3))})
	case isB(dk) && sk == "uint64":
		m := x.mem(ns, u8)
		ns.m[u8] = newMem(&Mem{kind: mUnpack, key: u8, sort: BV(8), prev: m, m2: x.mem(ns, u64), loc: Loc{d.tag, d.id, d.off}, src: Loc{s.tag, s.id, s.off}, n: n})
		x.noteWrite(LocPat{key: u8, tag: d.tag, id: d.id, lo: d.off, n: n})
	default:
		x.unsupported("memmove %s <- %s", dk, sk)
	}
	return nil, ns
}

// sync.Pool: Get returns an object nobody else holds, with arbitrary contents.
func (x *Exec) poolGet(fr *Frame, pos token.Pos, c *ssa.CallCommon, args []Val, st *State) (Val, *State) {
	pool, _ := args[0].(Ptr)
	var et types.Type
	for g, id := range x.globals {
		if pool.id == b64(id) {
			n := g.Name()
			// find the pooled type through a spec function named pool_<global>
			if pf := x.p.spkg.Func("pool_" + n); pf != nil {
				et = elemOf(pf.Params[0].Type())
			}
		}
	}
	if et == nil {
		x.unsupported("sync.Pool.Get on an unknown pool (declare pool_<name>)")
	}
	ns := st.clone()
	id := x.alloc(ns)
	p := x.objPtr(et, id)
	// arbitrary contents; slices inside are private or read-only buffers
	x.havocPats(ns, []LocPat{{tag: p.tag, id: p.id}}, "pool", true)
	if s, ok := under(et).(*types.Struct); ok {
		x.load(ns, Loc{p.tag, p.id, p.off}, et)
		_ = s
	}
	x.assumed["sync.Pool hands an object to one owner at a time"] = true
	return Opaque{t: id, dyn: p, typ: types.NewPointer(et)}, ns
}

func (x *Exec) poolPut(fr *Frame, pos token.Pos, args []Val, st *State) (Val, *State) {
	// count the return of the object: releasing twice is a violation
	o, _ := unbox(args[1]).(Ptr)
	if o.id == nil {
		return nil, st
	}
	k := ghostKey("pooled")
	m := x.mem(st, k)
	ns := st.clone()
	l := ghostLoc(o.id)
	ns.m[k] = newMem(&Mem{kind: mStore, key: k, sort: m.sort, prev: m, loc: l, val: Add(m.read(l), b64(1))})
	x.noteWrite(LocPat{key: k, tag: l.tag, id: l.id, off: l.off})
	return nil, ns
}

// ------------------------------------------------------------ channels

func (x *Exec) chanRecv(fr *Frame, ins *ssa.UnOp, ch Val, st *State) (Val, *State) {
	et := ins.Type()
	if ins.CommaOk {
		x.unsupported("comma-ok receive")
	}
	ns := st.clone()
	v := x.freshVal(ns, "recv", et)
	if f := x.p.spkg.Func("chan_recv_" + typeKey(et)); f != nil {
		// specification of what a receiver may rely on (ghost updates allowed)
		nf := &Frame{fn: f, env: map[ssa.Value]Val{}, parent: fr, key: fr.key + ">recv", spec: true, calls: map[string]int{}}
		nf.env[f.Params[0]] = v
		for f2 := fr; f2 != nil; f2 = f2.parent {
			for _, p := range f2.fn.Params {
				if len(f.Params) > 1 && types.Identical(p.Type(), f.Params[1].Type()) {
					nf.env[f.Params[1]] = f2.env[p]
				}
			}
		}
		for _, p := range f.Params {
			if nf.env[p] == nil {
				x.unsupported("receive specification needs a %s in scope", p.Type())
			}
		}
		wm := ns.wm
		_, ns = x.run(nf, ns)
		ns = ns.clone()
		ns.wm = wm
	}
	return v, ns
}

func (x *Exec) chanSend(fr *Frame, ins ssa.Instruction, ch ssa.Value, v Val, st *State) *State {
	et := under(ch.Type()).(*types.Chan).Elem()
	if f := x.p.spkg.Func("chan_send_" + typeKey(et)); f != nil {
		nf := &Frame{fn: f, env: map[ssa.Value]Val{}, parent: fr, key: fr.key + ">send", spec: true, calls: map[string]int{}}
		nf.env[f.Params[0]] = v
		for f2 := fr; f2 != nil; f2 = f2.parent {
			for _, p := range f2.fn.Params {
				if len(f.Params) > 1 && types.Identical(p.Type(), f.Params[1].Type()) {
					nf.env[f.Params[1]] = f2.env[p]
				}
			}
		}
		for _, p := range f.Params {
			if nf.env[p] == nil {
				x.unsupported("send specification needs a %s in scope", p.Type())
			}
		}
		wm := st.wm
		_, st = x.run(nf, st)
		st = st.clone()
		st.wm = wm
	}
	return st
}

func (x *Exec) selectStmt(fr *Frame, ins *ssa.Select, st *State) (Val, *State) {
	idx := x.fresh("select", BV(64))
	lo := uint64(0)
	ns := st.clone()
	r := Tuple{idx, x.fresh("recvok", Bool)}
	n := len(ins.States)
	if ins.Blocking {
		x.assume(ULt(idx, b64(uint64(n))))
	} else {
		x.assume(Or(ULt(idx, b64(uint64(n))), Eq(idx, C(64, ^uint64(0)))))
	}
	_ = lo
	for i, s := range ins.States {
		c := Eq(idx, b64(uint64(i)))
		if s.Dir == types.SendOnly {
			save := x.path
			x.path = And(save, c)
			a := x.chanSend(fr, ins, s.Chan, x.val(fr, s.Send), ns.clone())
			x.path = save
			ns = x.merge(c, a, ns)
		} else {
			et := under(s.Chan.Type()).(*types.Chan).Elem()
			r = append(r, x.freshVal(ns, "selrecv", et))
		}
	}
	return r, ns
}

type interference struct{}

func (i *interference) step(x *Exec, fr *Frame, n string, l Loc, et types.Type, st *State) *State {
	return st
}

var _ = constant.MakeBool
