package main

import (
	"fmt"
	"os"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// invariants evaluates the candidate invariants of a loop.
// phase 0: on entry (soft obligation), 1: assume at the header, 2: preservation (soft obligation).
func (x *Exec) invariants(fr *Frame, loop *loopInfo, phis []*ssa.Phi, init map[*ssa.Phi]Val, st *State, key string, phase int) {
	do := func(name string, f func() *Term) {
		k := key + "|" + name
		x.allCands[k] = true
		if x.dead[k] || (x.alive != nil && !x.alive[k]) {
			return
		}
		if x.dry > 0 && phase != 1 {
			return
		}
		t := f()
		if t == nil {
			return
		}
		switch phase {
		case 0, 2:
			x.oblige("loop invariant "+name, x.pos(loopPos(loop)), t, k)
		case 1:
			x.assume(t)
		}
	}
	// automatic candidates
	for _, p := range phis {
		p := p
		cur := fr.env[p]
		i0 := init[p]
		switch v := cur.(type) {
		case *Term:
			if v.sort == Bool {
				do(loopVar(p)+"==init", func() *Term { return Eq(v, i0.(*Term)) })
				continue
			}
			sg := isSigned(p.Type())
			le := func(a, b *Term) *Term {
				if sg {
					return SLe(a, b)
				}
				return ULe(a, b)
			}
			do(loopVar(p)+"==init", func() *Term { return Eq(v, i0.(*Term)) })
			do(loopVar(p)+">=init", func() *Term { return le(i0.(*Term), v) })
			do(loopVar(p)+"<=init", func() *Term { return le(v, i0.(*Term)) })
			for bi, bv := range x.bounds(fr, loop, p) {
				bv := bv
				do(loopVar(p)+"<="+boundName(bv, bi), func() *Term { return le(v, x.val(fr, bv).(*Term)) })
				do(loopVar(p)+"<"+boundName(bv, bi), func() *Term {
					if sg {
						return SLt(v, x.val(fr, bv).(*Term))
					}
					return ULt(v, x.val(fr, bv).(*Term))
				})
			}
		case Slice:
			i := i0.(Slice)
			do(loopVar(p)+".id==init", func() *Term { return Eq(v.id, i.id) })
			do(loopVar(p)+".off==init", func() *Term { return Eq(v.off, i.off) })
			do(loopVar(p)+".len==init", func() *Term { return Eq(v.len, i.len) })
			do(loopVar(p)+".cap==init", func() *Term { return Eq(v.cap, i.cap) })
		case Ptr:
			i := i0.(Ptr)
			do(loopVar(p)+"==init", func() *Term { return And(Eq(v.tag, i.tag), Eq(v.id, i.id), Eq(v.off, i.off)) })
		}
	}
	// what the contract says is untouched has been untouched so far
	if act := x.act; act != nil && act.verify && act.pre != nil && len(fr.loops) > 0 {
		for i, p := range fr.loops[len(fr.loops)-1].pats {
			p := p
			if t := x.frameSoFar(act, p, st); t != nil {
				do(fmt.Sprintf("frame%d(%s)", i, p.key), func() *Term { return t })
			}
		}
	}
	// template candidates
	for _, tm := range x.p.invs {
		if !applies(tm, fr, x) {
			continue
		}
		x.template(fr, tm, phis, st, do)
	}
}

func (x *Exec) frameSoFar(act *Activation, p LocPat, st *State) *Term {
	var bound []*Term
	l := Loc{p.tag, p.id, p.off}
	if l.tag == nil {
		l.tag = BoundVar("ftag", BV(tagW))
		bound = append(bound, l.tag)
	}
	if l.id == nil {
		l.id = BoundVar("fid", BV(64))
		bound = append(bound, l.id)
	}
	if l.off == nil {
		l.off = BoundVar("foff", BV(64))
		bound = append(bound, l.off)
	}
	ex := FF
	for _, q := range act.mods {
		if q.key == "" || q.key == p.key {
			ex = Or(ex, q.match(l))
		}
	}
	if ex == TT {
		return nil
	}
	old := idBelow(l.id, act.pre.wm)
	now, was := x.mem(st, p.key).read(l), x.mem(act.pre, p.key).read(l)
	body := Imp(And(old, Not(ex)), Eq(now, was))
	if body == TT {
		return TT
	}
	if len(bound) == 0 {
		return body
	}
	return Quant(OForall, bound, body, autoPats(bound, body, nil))
}

func loopPos(l *loopInfo) (p tokenPos) {
	for _, ins := range l.header.Instrs {
		if ins.Pos().IsValid() {
			return ins.Pos()
		}
	}
	for b := range l.body {
		for _, ins := range b.Instrs {
			if ins.Pos().IsValid() && (p == 0 || ins.Pos() < p) {
				p = ins.Pos()
			}
		}
	}
	return
}

func applies(tm *InvTemplate, fr *Frame, x *Exec) bool {
	if len(tm.only) == 0 {
		return true
	}
	for f := fr; f != nil; f = f.parent {
		if f.spec {
			continue
		}
		n := funcName(f.fn)
		for _, o := range tm.only {
			if o == n {
				return true
			}
		}
	}
	if x.top != nil {
		for _, o := range tm.only {
			if o == x.top.name {
				return true
			}
		}
	}
	return false
}

// bounds lists loop-invariant integer values the phi (or its increment) is compared with.
func (x *Exec) bounds(fr *Frame, loop *loopInfo, p *ssa.Phi) []ssa.Value {
	seen := map[ssa.Value]bool{}
	var out []ssa.Value
	add := func(v ssa.Value) {
		if seen[v] || !types.Identical(v.Type(), p.Type()) {
			return
		}
		if ins, ok := v.(ssa.Instruction); ok {
			if loop.body[ins.Block()] {
				return
			}
		}
		if _, ok := v.(*ssa.Const); !ok {
			if _, ok := fr.env[v]; !ok {
				return
			}
		}
		seen[v] = true
		out = append(out, v)
	}
	for b := range loop.body {
		for _, ins := range b.Instrs {
			if bo, ok := ins.(*ssa.BinOp); ok {
				switch bo.Op.String() {
				case "<", "<=", ">", ">=", "!=", "==":
					add(bo.X)
					add(bo.Y)
				}
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return valueOrder(out[i]) < valueOrder(out[j]) })
	return out
}

var dbgTmpl = os.Getenv("GOVC_TMPL") != ""

type cand struct {
	name string
	v    Val
	src  string // the variable's name in the source
}

// sameName prefers the variable the template names, when there is one: fewer candidates to refute
func sameName(cs []cand, param string) []cand {
	if len(param) < 3 || param[:2] != "l_" && param[:2] != "o_" {
		return cs
	}
	var out []cand
	for _, c := range cs {
		if c.src == param[2:] || c.src == "rangeindex" && param[2:] == "i" {
			out = append(out, c)
		}
	}
	if len(out) > 0 {
		return out
	}
	return cs
}

func (x *Exec) template(fr *Frame, tm *InvTemplate, phis []*ssa.Phi, st *State, do func(string, func() *Term)) {
	params := tm.fn.Params
	sets := make([][]cand, len(params))
	for i, pr := range params {
		n := pr.Name()
		switch {
		case strings.HasPrefix(n, "l_"):
			for _, p := range phis {
				if types.Identical(p.Type(), pr.Type()) {
					sets[i] = append(sets[i], cand{loopVar(p), fr.env[p], p.Comment})
				}
			}
		case strings.HasPrefix(n, "o_"):
			for f := fr; f != nil; f = f.parent {
				if f.spec || len(f.fn.Blocks) == 0 {
					continue
				}
				for _, l := range cfgOf(f.fn).loops {
					if f == fr {
						lp := fr.loops[len(fr.loops)-1].info
						if l == lp || !l.body[lp.header] {
							continue
						}
					}
					for _, ins := range l.header.Instrs {
						p, ok := ins.(*ssa.Phi)
						if !ok {
							break
						}
						if v := f.env[p]; v != nil && types.Identical(p.Type(), pr.Type()) {
							sets[i] = append(sets[i], cand{fmt.Sprintf("o%s.%s", f.fn.Name(), loopVar(p)), v, p.Comment})
						}
					}
				}
			}
		case strings.HasPrefix(n, "p_"):
			for f := fr; f != nil; f = f.parent {
				for _, p := range f.fn.Params {
					if types.Identical(p.Type(), pr.Type()) {
						sets[i] = append(sets[i], cand{f.fn.Name() + "." + p.Name(), f.env[p], ""})
					}
				}
			}
		case strings.HasPrefix(n, "h_"):
			// harness parameter or local (the contract's own variables), by type
			for f := fr; f != nil; f = f.parent {
				if f.act == nil {
					continue
				}
				sets[i] = append(sets[i], envOf(f, pr.Type())...)
			}
		default:
			for _, p := range phis {
				if types.Identical(p.Type(), pr.Type()) {
					sets[i] = append(sets[i], cand{loopVar(p), fr.env[p], ""})
				}
			}
			isPhi := map[ssa.Value]bool{}
			for _, p := range phis {
				isPhi[p] = true
			}
			lp := fr.loops[len(fr.loops)-1].info
			for f := fr; f != nil; f = f.parent {
				for v, val := range f.env {
					if isPhi[v] || !types.Identical(v.Type(), pr.Type()) {
						continue
					}
					if f == fr {
						ins, ok := v.(ssa.Instruction)
						if ok && (lp.body[ins.Block()] || !ins.Block().Dominates(lp.header)) {
							continue
						}
					} else if ins, ok := v.(ssa.Instruction); ok && ins.Block() != nil {
						if f.fn.Parent() != nil {
							continue
						}
					}
					if f.spec && f.act == nil {
						continue
					}
					sets[i] = append(sets[i], cand{f.fn.Name() + "." + v.Name(), val, ""})
				}
			}
		}
		sets[i] = sameName(dedupe(sets[i]), n)
		if len(sets[i]) == 0 {
			if dbgTmpl {
				println("template", tm.name, fr.key, "has nothing for", n)
			}
			return
		}
	}
	n := 0
	idx := make([]int, len(params))
	for {
		args := make([]Val, len(params))
		name := tm.name
		for i := range params {
			args[i] = sets[i][idx[i]].v
			name += "," + sets[i][idx[i]].name
		}
		do(name, func() *Term { return x.evalSpec(tm.fn, args, st, fr) })
		n++
		if n > 400 {
			return
		}
		i := 0
		for i < len(idx) {
			idx[i]++
			if idx[i] < len(sets[i]) {
				break
			}
			idx[i] = 0
			i++
		}
		if i == len(idx) {
			return
		}
	}
}

func envOf(f *Frame, t types.Type) []cand {
	var out []cand
	for v, val := range f.env {
		if types.Identical(v.Type(), t) {
			out = append(out, cand{f.fn.Name() + "." + v.Name(), val, ""})
		}
	}
	return out
}

func dedupe(cs []cand) []cand {
	sort.Slice(cs, func(i, j int) bool { return cs[i].name < cs[j].name })
	seen := map[string]bool{}
	var out []cand
	for _, c := range cs {
		k := valKey(c.v)
		if !seen[k] {
			seen[k] = true
			out = append(out, c)
		}
	}
	return out
}

func valKey(v Val) string {
	switch v := v.(type) {
	case *Term:
		return fmt.Sprint(v.id)
	case Ptr:
		return fmt.Sprint("p", v.tag.id, ",", v.id.id, ",", v.off.id)
	case Slice:
		return fmt.Sprint("s", v.id.id, ",", v.off.id, ",", v.len.id)
	}
	return fmt.Sprintf("%T%v", v, v)
}

// evalSpec runs a boolean specification function in a state.
func (x *Exec) evalSpec(fn *ssa.Function, args []Val, st *State, parent *Frame) *Term {
	save := x.path
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, parent: parent, key: "spec", spec: true, calls: map[string]int{}}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	v, _ := x.run(fr, st.clone())
	x.path = save
	if v == nil {
		return TT
	}
	return v.(*Term)
}

// variants evaluates the termination measures given for the current loop.
func (x *Exec) variants(fr *Frame, phis []*ssa.Phi, st *State) map[string]map[string]*Term {
	out := map[string]map[string]*Term{}
	for _, tm := range x.p.decs {
		if !applies(tm, fr, x) {
			continue
		}
		m := map[string]*Term{}
		named := true
		for _, pr := range tm.fn.Params {
			if n := pr.Name(); strings.HasPrefix(n, "l_") {
				ok := false
				for _, p := range phis {
					ok = ok || p.Comment == n[2:]
				}
				named = named && ok
			}
		}
		if !named {
			continue
		}
		x.template(fr, tm, phis, st, func(name string, f func() *Term) { m[name] = f() })
		if len(m) > 0 {
			out[tm.name] = m
		}
	}
	return out
}

// decreases: going round the loop makes the measure smaller, and it was not negative.
func (x *Exec) decreases(before, after map[string]map[string]*Term, pos string) {
	for name, m := range before {
		g := FF
		for k, o := range m {
			if n := after[name][k]; n != nil {
				g = Or(g, And(SLe(b64(0), o), SLt(n, o)))
			}
		}
		x.oblige("the loop ends: "+name, pos, g, "")
	}
}

// names that do not change when unrelated statements are added to the function
func loopVar(p *ssa.Phi) string {
	n := 0
	for _, ins := range p.Block().Instrs {
		q, ok := ins.(*ssa.Phi)
		if !ok || q == p {
			break
		}
		if q.Comment == p.Comment {
			n++
		}
	}
	return fmt.Sprintf("%s.%d", p.Comment, n)
}

func boundName(v ssa.Value, i int) string {
	switch v := v.(type) {
	case *ssa.Const:
		return v.String()
	case *ssa.Parameter:
		return v.Name()
	}
	return fmt.Sprintf("bound%d", i)
}

func valueOrder(v ssa.Value) int {
	ins, ok := v.(ssa.Instruction)
	if !ok {
		return -1
	}
	b := ins.Block()
	for i, k := range b.Instrs {
		if k == ins {
			return b.Index<<16 + i
		}
	}
	return -1
}
