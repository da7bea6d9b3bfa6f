package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type tokenPos = token.Pos

func b64(v uint64) *Term { return C(64, v) }

func (x *Exec) safety(fr *Frame, name string, p token.Pos, c *Term) {
	if fr.spec {
		return
	}
	if c == TT {
		return
	}
	x.check(name+" in "+fr.fn.Name(), x.pos(p), c)
}

func (x *Exec) nonnil(fr *Frame, p Ptr, pos token.Pos) {
	if isC(p.id) && p.id.val != 0 {
		return
	}
	x.safety(fr, "nil dereference", pos, Not(Eq(p.id, b64(0))))
}

func elemOf(t types.Type) types.Type {
	switch u := under(t).(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	}
	return nil
}

func toI64(t *Term, ty types.Type) *Term {
	if t.sort.W == 64 {
		return t
	}
	if isSigned(ty) {
		return SExt(64, t)
	}
	return ZExt(64, t)
}

func (x *Exec) instr(fr *Frame, ins ssa.Instruction, st *State) *State {
	set := func(v Val) {
		if val, ok := ins.(ssa.Value); ok {
			fr.env[val] = v
		}
	}
	switch ins := ins.(type) {
	case *ssa.Alloc:
		et := elemOf(ins.Type())
		id := x.alloc(st)
		p := x.objPtr(et, id)
		x.zeroObj(st, p, et)
		if fr.spec && fr.act != nil && !fr.act.called {
			fr.act.cells = append(fr.act.cells, cell{p, et})
		}
		set(p)

	case *ssa.BinOp:
		set(x.binop(fr, ins, x.val(fr, ins.X), x.val(fr, ins.Y)))

	case *ssa.UnOp:
		v := x.val(fr, ins.X)
		switch ins.Op {
		case token.MUL:
			p := v.(Ptr)
			x.nonnil(fr, p, ins.Pos())
			set(x.load(st, Loc{p.tag, p.id, p.off}, ins.Type()))
		case token.NOT:
			set(Not(v.(*Term)))
		case token.SUB:
			set(Neg(v.(*Term)))
		case token.XOR:
			set(BNot(v.(*Term)))
		case token.ARROW:
			nv, nst := x.chanRecv(fr, ins, v, st)
			set(nv)
			return nst
		default:
			x.unsupported("unary %s", ins.Op)
		}

	case *ssa.Store:
		p := x.val(fr, ins.Addr).(Ptr)
		x.nonnil(fr, p, ins.Pos())
		x.store(st, Loc{p.tag, p.id, p.off}, elemOf(ins.Addr.Type()), x.val(fr, ins.Val))

	case *ssa.FieldAddr:
		p := x.val(fr, ins.X).(Ptr)
		x.nonnil(fr, p, ins.Pos())
		s := under(elemOf(ins.X.Type())).(*types.Struct)
		fl := slotLoc(Loc{p.tag, p.id, p.off}, fieldOff(s, ins.Field))
		set(Ptr{tag: fl.tag, id: fl.id, off: fl.off})

	case *ssa.Field:
		v := x.val(fr, ins.X)
		if s, ok := v.(Struct); ok {
			set(s[ins.Field])
		} else {
			set(x.freshVal(st, "field", ins.Type()))
		}

	case *ssa.IndexAddr:
		i := toI64(x.val(fr, ins.Index).(*Term), ins.Index.Type())
		switch u := under(ins.X.Type()).(type) {
		case *types.Slice:
			s := x.val(fr, ins.X).(Slice)
			x.safety(fr, "index in bounds", ins.Pos(), And(ULt(i, s.len)))
			set(x.elemPtr(s, i))
		case *types.Pointer:
			at := under(u.Elem()).(*types.Array)
			p := x.val(fr, ins.X).(Ptr)
			x.nonnil(fr, p, ins.Pos())
			x.safety(fr, "index in bounds", ins.Pos(), ULt(i, b64(uint64(at.Len()))))
			switch {
			case p.tag == arrTag(at.Elem()):
				set(Ptr{tag: p.tag, id: p.id, off: Add(p.off, i), ext: Sub(b64(uint64(at.Len())), i)})
			case isC(i):
				fl := slotLoc(Loc{p.tag, p.id, p.off}, i.val*slotsOf(at.Elem()))
				set(Ptr{tag: fl.tag, id: fl.id, off: fl.off, ext: Sub(b64(uint64(at.Len())), i)})
			case isC(p.tag) && !strings.HasPrefix(tagNames[p.tag.val], "A:"):
				set(Ptr{tag: p.tag, id: p.id, off: Add(p.off, Mul(b64(slotsOf(at.Elem())), i)), ext: Sub(b64(uint64(at.Len())), i)})
			default:
				x.unsupported("variable index into an array inside a slice element")
			}
		default:
			x.unsupported("IndexAddr on %s", ins.X.Type())
		}

	case *ssa.Index:
		i := toI64(x.val(fr, ins.Index).(*Term), ins.Index.Type())
		v := x.val(fr, ins.X)
		if a, ok := v.(Struct); ok {
			x.safety(fr, "index in bounds", ins.Pos(), ULt(i, b64(uint64(len(a)))))
			var r Val
			for k := len(a) - 1; k >= 0; k-- {
				if r == nil {
					r = a[k]
				} else {
					r = x.mergeVal(Eq(i, b64(uint64(k))), a[k], r)
				}
			}
			set(r)
		} else {
			x.unsupported("Index on %s", ins.X.Type())
		}

	case *ssa.Lookup:
		set(x.freshVal(st, "lookup", ins.Type()))

	case *ssa.Slice:
		set(x.slice(fr, ins, st))

	case *ssa.MakeSlice:
		n := toI64(x.val(fr, ins.Len).(*Term), ins.Len.Type())
		c := toI64(x.val(fr, ins.Cap).(*Term), ins.Cap.Type())
		x.safety(fr, "make slice length", ins.Pos(), And(SLe(b64(0), n), SLe(n, c), SLt(c, b64(1<<40))))
		et := elemOf(ins.Type())
		id := x.alloc(st)
		x.zeroArr(st, id, et)
		set(Slice{id: id, off: b64(0), len: n, cap: c, elem: et})

	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range ins.Bindings {
			bs = append(bs, x.val(fr, b))
		}
		set(Closure{fn: ins.Fn.(*ssa.Function), bind: bs})

	case *ssa.MakeInterface:
		id := x.alloc(st)
		set(Opaque{t: id, dyn: x.val(fr, ins.X), typ: ins.X.Type()})

	case *ssa.ChangeInterface:
		set(x.val(fr, ins.X))

	case *ssa.ChangeType:
		set(x.val(fr, ins.X))

	case *ssa.Convert:
		set(x.convert(fr, ins, st))

	case *ssa.TypeAssert:
		v := x.val(fr, ins.X)
		o, _ := v.(Opaque)
		var r Val
		ok := TT
		if o.dyn != nil && types.Identical(o.typ, ins.AssertedType) {
			r = o.dyn
		} else {
			r = x.freshVal(st, "assert", ins.AssertedType)
			if ins.CommaOk {
				ok = x.fresh("assertok", Bool)
			} else if !fr.spec {
				x.oblige("type assertion in "+fr.fn.Name(), x.pos(ins.Pos()), FF, "")
			}
		}
		if ins.CommaOk {
			set(Tuple{r, ok})
		} else {
			set(r)
		}

	case *ssa.Extract:
		t := x.val(fr, ins.Tuple)
		tt, ok := t.(Tuple)
		if !ok {
			x.unsupported("extract from %T", t)
		}
		set(tt[ins.Index])

	case *ssa.Call:
		v, ns := x.call(fr, ins, &ins.Call, st)
		set(v)
		return ns

	case *ssa.Defer:
		c := ins.Call
		cond := x.path
		args := x.callArgs(fr, &c)
		fr.defers = append(fr.defers, func(s *State) *State {
			save := x.path
			// deferred calls run on every path that registered them
			x.path = And(save, cond)
			if x.path == FF {
				x.path = save
				return s
			}
			_, ns := x.callWith(fr, ins, &c, args, s.clone())
			r := x.merge(cond, ns, s)
			x.path = save
			return r
		})

	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			st = fr.defers[i](st)
		}
		return st

	case *ssa.Go:
		if fr.spec {
			x.unsupported("go statement in specification")
		}
		x.assumed["goroutine started in "+fr.fn.Name()+" is verified separately, not interleaved"] = true

	case *ssa.MakeMap, *ssa.MakeChan:
		set(Opaque{t: x.alloc(st), typ: ins.(ssa.Value).Type()})

	case *ssa.MapUpdate:

	case *ssa.Send:
		return x.chanSend(fr, ins, ins.Chan, x.val(fr, ins.X), st)

	case *ssa.Select:
		v, ns := x.selectStmt(fr, ins, st)
		set(v)
		return ns

	case *ssa.Range, *ssa.Next:
		set(x.freshVal(st, "range", ins.(ssa.Value).Type()))

	default:
		x.unsupported("instruction %T", ins)
	}
	return st
}

func (x *Exec) objPtr(et types.Type, id *Term) Ptr {
	if tg, ok := staticTag(et); ok {
		return Ptr{tag: tg, id: id, off: b64(0)}
	}
	if a, ok := under(et).(*types.Array); ok {
		return Ptr{tag: arrTag(a.Elem()), id: id, off: b64(0)}
	}
	return Ptr{tag: tagConst("V"), id: id, off: b64(0)}
}

// zeroArr zeroes a whole array object with elements of type et.
func (x *Exec) zeroArr(st *State, id *Term, et types.Type) {
	for _, lf := range leaves(et, 0, nil) {
		l := slotLoc(Loc{arrTag(et), id, b64(0)}, lf.slot)
		m := x.mem(st, lf.key)
		st.m[lf.key] = newMem(&Mem{kind: mZero, key: lf.key, sort: m.sort, prev: m, loc: l})
		x.noteWrite(LocPat{key: lf.key, tag: l.tag, id: l.id})
	}
}

func (x *Exec) zeroObj(st *State, p Ptr, et types.Type) {
	if a, ok := under(et).(*types.Array); ok {
		x.zeroArr(st, p.id, a.Elem())
		return
	}
	x.zeroKeys(st, Loc{p.tag, p.id, p.off}, et)
}

func (x *Exec) zeroKeys(st *State, l Loc, et types.Type) {
	ks := map[string]bool{}
	keysOf(et, ks)
	for _, k := range sortedKeys(ks) {
		m := x.mem(st, k)
		st.m[k] = newMem(&Mem{kind: mZero, key: k, sort: m.sort, prev: m, loc: l})
		x.noteWrite(LocPat{key: k, tag: l.tag, id: l.id})
	}
}

func (x *Exec) elemPtr(s Slice, i *Term) Ptr {
	off := Add(s.off, i)
	return Ptr{tag: arrTag(s.elem), id: s.id, off: off, ext: Sub(s.len, i)}
}

func (x *Exec) slice(fr *Frame, ins *ssa.Slice, st *State) Val {
	v := x.val(fr, ins.X)
	var lo, hi *Term
	if ins.Low != nil {
		lo = toI64(x.val(fr, ins.Low).(*Term), ins.Low.Type())
	} else {
		lo = b64(0)
	}
	if ins.High != nil {
		hi = toI64(x.val(fr, ins.High).(*Term), ins.High.Type())
	}
	switch s := v.(type) {
	case Slice:
		if hi == nil {
			hi = s.len
			// lo <= len
			x.safety(fr, "slice bounds", ins.Pos(), ULe(lo, s.len))
		} else {
			x.safety(fr, "slice bounds", ins.Pos(), And(ULe(hi, s.cap), ULe(lo, hi)))
		}
		cp := s.cap
		if ins.Max != nil {
			cp = toI64(x.val(fr, ins.Max).(*Term), ins.Max.Type())
			x.safety(fr, "slice bounds", ins.Pos(), And(ULe(hi, cp), ULe(cp, s.cap)))
		}
		return Slice{id: s.id, off: Add(s.off, lo), len: Sub(hi, lo), cap: Sub(cp, lo), elem: s.elem}
	case Ptr:
		at, ok := under(elemOf(ins.X.Type())).(*types.Array)
		if !ok {
			x.unsupported("slice of pointer to %s", ins.X.Type())
		}
		n := b64(uint64(at.Len()))
		if hi == nil {
			hi = n
		}
		if s.tag != arrTag(at.Elem()) {
			x.unsupported("slice of embedded array")
		}
		x.nonnil(fr, s, ins.Pos())
		x.safety(fr, "slice bounds", ins.Pos(), And(ULe(hi, n), ULe(lo, hi)))
		return Slice{id: s.id, off: Add(s.off, lo), len: Sub(hi, lo), cap: Sub(n, lo), elem: at.Elem()}
	case Str:
		l := s.len
		if hi == nil {
			hi = l
		}
		x.safety(fr, "slice bounds", ins.Pos(), And(ULe(hi, l), ULe(lo, hi)))
		return Str{id: x.fresh("substr", BV(64)), len: Sub(hi, lo)}
	}
	x.unsupported("slice of %T", v)
	return nil
}

func (x *Exec) ptrEq(a, b Ptr) *Term {
	return And(Eq(a.id, b.id), Or(Eq(a.id, b64(0)), And(Eq(a.off, b.off), Eq(a.tag, b.tag))))
}

func (x *Exec) eqVal(a, b Val, t types.Type) *Term {
	switch a := a.(type) {
	case *Term:
		if bt, ok := b.(*Term); ok {
			return Eq(a, bt)
		}
	case Ptr:
		if bp, ok := b.(Ptr); ok {
			if _, st := staticTag(elemOf(t)); st {
				return Eq(a.id, bp.id)
			}
			if bp.id == b64(0) {
				return Eq(a.id, bp.id)
			}
			if a.id == b64(0) {
				return Eq(a.id, bp.id)
			}
			return x.ptrEq(a, bp)
		}
	case Slice:
		return Eq(a.id, b.(Slice).id)
	case Str:
		bs := b.(Str)
		if a.lit != nil && bs.lit != nil {
			return CB(*a.lit == *bs.lit)
		}
		return Eq(a.id, bs.id)
	case Opaque:
		if bo, ok := b.(Opaque); ok {
			return Eq(a.t, bo.t)
		}
	case Closure:
		return FF
	case Struct:
		bs := b.(Struct)
		r := TT
		s, ok := under(t).(*types.Struct)
		for i := range a {
			var ft types.Type
			if ok {
				ft = s.Field(i).Type()
			} else {
				ft = elemOf(t)
			}
			r = And(r, x.eqVal(a[i], bs[i], ft))
		}
		return r
	}
	return x.fresh("cmp", Bool)
}

func shiftAmt(y *Term, yt types.Type, w int) *Term {
	y64 := toI64(y, yt)
	if isC(y64) {
		if y64.val >= uint64(w) {
			return C(w, uint64(w))
		}
		return C(w, y64.val)
	}
	if w == 64 {
		return y64
	}
	return Ite(ULt(y64, b64(uint64(w))), Extract(w-1, 0, y64), C(w, uint64(w)))
}

func (x *Exec) binop(fr *Frame, ins *ssa.BinOp, a, b Val) Val {
	t := ins.X.Type()
	switch ins.Op {
	case token.EQL:
		return x.eqVal(a, b, t)
	case token.NEQ:
		return Not(x.eqVal(a, b, t))
	}
	at, ok1 := a.(*Term)
	bt, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		// floats, string concatenation
		if _, ok := under(ins.Type()).(*types.Basic); ok {
			if _, _, isInt := basicKey(under(ins.Type()).(*types.Basic)); isInt {
				return x.freshVal(nil2(x), "op", ins.Type())
			}
		}
		if s, ok := a.(Str); ok {
			l := x.fresh("cat.len", BV(64))
			_ = s
			return Str{id: x.fresh("cat", BV(64)), len: l}
		}
		return Opaque{t: x.fresh("op", BV(64)), typ: ins.Type()}
	}
	sg := isSigned(t)
	switch ins.Op {
	case token.ADD:
		return Add(at, bt)
	case token.SUB:
		return Sub(at, bt)
	case token.MUL:
		return Mul(at, bt)
	case token.QUO, token.REM:
		x.safety(fr, "division by zero", ins.Pos(), Not(Eq(bt, C(bt.sort.W, 0))))
		switch {
		case ins.Op == token.QUO && sg:
			return Bin(OSDiv, at, bt)
		case ins.Op == token.QUO:
			return Bin(OUDiv, at, bt)
		case sg:
			return Bin(OSRem, at, bt)
		}
		return Bin(OURem, at, bt)
	case token.AND:
		if at.sort == Bool {
			return And(at, bt)
		}
		return Bin(OBAnd, at, bt)
	case token.OR:
		return Bin(OBOr, at, bt)
	case token.XOR:
		return Bin(OBXor, at, bt)
	case token.AND_NOT:
		return Bin(OBAnd, at, BNot(bt))
	case token.SHL:
		return Bin(OShl, at, shiftAmt(bt, ins.Y.Type(), at.sort.W))
	case token.SHR:
		if sg {
			n := shiftAmt(bt, ins.Y.Type(), at.sort.W)
			if isC(n) && !at.open {
				// arithmetic shift by constant
				k := int(n.val)
				if k >= at.sort.W {
					k = at.sort.W - 1
				}
				if k == 0 {
					return at
				}
				return SExt(at.sort.W, Extract(at.sort.W-1, k, at))
			}
			return Bin(OAShr, at, n)
		}
		return Bin(OLShr, at, shiftAmt(bt, ins.Y.Type(), at.sort.W))
	case token.LSS:
		if sg {
			return SLt(at, bt)
		}
		return ULt(at, bt)
	case token.LEQ:
		if sg {
			return SLe(at, bt)
		}
		return ULe(at, bt)
	case token.GTR:
		if sg {
			return SLt(bt, at)
		}
		return ULt(bt, at)
	case token.GEQ:
		if sg {
			return SLe(bt, at)
		}
		return ULe(bt, at)
	}
	x.unsupported("binary %s", ins.Op)
	return nil
}

func nil2(x *Exec) *State { return &State{m: map[string]*Mem{}, wm: x.wm0} }

func (x *Exec) convert(fr *Frame, ins *ssa.Convert, st *State) Val {
	v := x.val(fr, ins.X)
	from, to := under(ins.X.Type()), under(ins.Type())
	if fb, ok := from.(*types.Basic); ok {
		if tb, ok := to.(*types.Basic); ok {
			_, fs, o1 := basicKey(fb)
			_, ts, o2 := basicKey(tb)
			if o1 && o2 {
				t := v.(*Term)
				switch {
				case fs.W == ts.W:
					return t
				case fs.W > ts.W:
					return Extract(ts.W-1, 0, t)
				case isSigned(ins.X.Type()):
					return SExt(ts.W, t)
				}
				return ZExt(ts.W, t)
			}
			if tb.Kind() == types.UnsafePointer || fb.Kind() == types.UnsafePointer {
				return v
			}
			return x.freshVal(st, "conv", ins.Type())
		}
		if fb.Kind() == types.UnsafePointer {
			// unsafe.Pointer -> *T
			if o, ok := v.(Opaque); ok {
				if p, ok := o.dyn.(Ptr); ok && types.Identical(o.typ, ins.Type()) {
					return p
				}
			}
			x.unsupported("conversion from unsafe.Pointer to %s", ins.Type())
		}
		if fb.Info()&types.IsString != 0 {
			// string -> []byte
			s := v.(Str)
			r := x.freshVal(st, "bytes", ins.Type()).(Slice)
			x.assume(Eq(r.len, s.len))
			return r
		}
	}
	if tb, ok := to.(*types.Basic); ok && tb.Kind() == types.UnsafePointer {
		if p, ok := v.(Ptr); ok {
			return Opaque{t: p.id, dyn: p, typ: ins.X.Type()}
		}
	}
	if s, ok := v.(Slice); ok {
		if tb, ok := to.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
			return x.bytesToStr(s, st)
		}
	}
	return x.freshVal(st, "conv", ins.Type())
}

// bytesToStr: the string identity is a function of the slice identity and the byte memory version.
func (x *Exec) bytesToStr(s Slice, st *State) Val {
	m := x.mem(st, keyFor("uint8", BV(8)))
	id := App(fmt.Sprintf("strOf%d", m.num), BV(64), s.id, s.off, s.len)
	return Str{id: id, len: s.len}
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}
