package main

// Hash-consed SMT terms over Bool and fixed-width bit-vectors, with a small
// simplifier.  All machine integers of the verified code are bit-vectors of
// their Go width, so wrap-around is modelled exactly.

import (
	"fmt"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

type Sort struct{ W int } // W==0: Bool, otherwise bit-vector of width W

var Bool = Sort{0}

func BV(w int) Sort { return Sort{w} }

func (s Sort) String() string {
	if s.W == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", s.W)
}

type Op int

const (
	OConst Op = iota
	OVar
	OBound
	OApp
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OULt
	OULe
	OSLt
	OSLe
	OExtract // val = hi<<8|lo
	OConcat
	OSExt
	OForall
	OExists
)

var opName = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OMul: "bvmul",
	OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor",
	OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OULt: "bvult", OULe: "bvule", OSLt: "bvslt", OSLe: "bvsle", OConcat: "concat",
}

type Term struct {
	op    Op
	args  []*Term
	sort  Sort
	val   uint64
	name  string
	id    int
	open  bool // contains a free bound variable
	bound []*Term
	pats  [][]*Term
	depth int // loop epoch: highest "mark" of any fresh symbol below (for loop-variance tests)
}

var (
	termTab = map[string]*Term{}
	termCnt int
	nameCnt = map[string]int{}
	ufSigs  = map[string]string{} // UF name -> declaration
	epoch   int                   // current freshness mark
)

func mk(op Op, s Sort, val uint64, name string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(int(op)))
	sb.WriteByte('|')
	sb.WriteString(strconv.Itoa(s.W))
	sb.WriteByte('|')
	sb.WriteString(strconv.FormatUint(val, 16))
	sb.WriteByte('|')
	sb.WriteString(name)
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termCnt++
	t := &Term{op: op, args: args, sort: s, val: val, name: name, id: termCnt}
	for _, a := range args {
		if a.open {
			t.open = true
		}
		if a.depth > t.depth {
			t.depth = a.depth
		}
	}
	if op == OBound {
		t.open = true
	}
	termTab[k] = t
	return t
}

func maskW(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func C(w int, v uint64) *Term { return mk(OConst, BV(w), v&maskW(w), "") }

var TT = mk(OConst, Bool, 1, "")
var FF = mk(OConst, Bool, 0, "")

func CB(b bool) *Term {
	if b {
		return TT
	}
	return FF
}

func Fresh(prefix string, s Sort) *Term {
	nameCnt[prefix]++
	t := mk(OVar, s, 0, fmt.Sprintf("%s!%d", prefix, nameCnt[prefix]))
	t.depth = epoch
	return t
}

func BoundVar(prefix string, s Sort) *Term {
	nameCnt[prefix]++
	return mk(OBound, s, 0, fmt.Sprintf("%s?%d", prefix, nameCnt[prefix]))
}

// ufDepth records the freshness mark of uninterpreted functions introduced by havoc.
var ufDepth = map[string]int{}

func App(name string, s Sort, args ...*Term) *Term {
	if _, ok := ufSigs[name]; !ok {
		var as []string
		for _, a := range args {
			as = append(as, a.sort.String())
		}
		ufSigs[name] = fmt.Sprintf("(declare-fun %s (%s) %s)", q(name), strings.Join(as, " "), s)
	}
	t := mk(OApp, s, 0, name, args...)
	if d := ufDepth[name]; d > t.depth {
		t.depth = d
	}
	return t
}

func isC(t *Term) bool { return t.op == OConst }

func Not(a *Term) *Term {
	switch {
	case a == TT:
		return FF
	case a == FF:
		return TT
	case a.op == ONot:
		return a.args[0]
	}
	return mk(ONot, Bool, 0, "", a)
}

func And(as ...*Term) *Term { return andor(OAnd, TT, FF, as) }
func Or(as ...*Term) *Term  { return andor(OOr, FF, TT, as) }

func andor(op Op, unit, zero *Term, as []*Term) *Term {
	seen := map[*Term]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit || seen[t] {
			return true
		}
		if t == zero || seen[Not(t)] {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	// or(and(g,c), and(g,!c)) = g   (merging of branches)
	if op == OOr && len(out) == 2 {
		a, b := conj(out[0]), conj(out[1])
		if len(a) == len(b) {
			diff := -1
			ok := true
			sa := map[*Term]bool{}
			for _, t := range a {
				sa[t] = true
			}
			var db *Term
			for _, t := range b {
				if !sa[t] {
					if diff >= 0 {
						ok = false
						break
					}
					diff = 1
					db = t
				}
			}
			if ok && diff >= 0 && sa[Not(db)] {
				var rest []*Term
				for _, t := range a {
					if t != Not(db) {
						rest = append(rest, t)
					}
				}
				return And(rest...)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mk(op, Bool, 0, "", out...)
}

func conj(t *Term) []*Term {
	if t.op == OAnd {
		return t.args
	}
	return []*Term{t}
}

func Imp(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if c == TT {
		return a
	}
	if c == FF {
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	if a.sort == Bool {
		switch {
		case a == TT && b == FF:
			return c
		case a == FF && b == TT:
			return Not(c)
		case a == TT:
			return Or(c, b)
		case a == FF:
			return And(Not(c), b)
		case b == TT:
			return Or(Not(c), a)
		case b == FF:
			return And(c, a)
		}
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return mk(OIte, a.sort, 0, "", c, a, b)
}

// linear view: t = sum + const
func linear(t *Term) (map[*Term]uint64, uint64) {
	m := map[*Term]uint64{}
	var c uint64
	w := t.sort.W
	var walk func(t *Term, k uint64)
	walk = func(t *Term, k uint64) {
		switch {
		case isC(t):
			c += k * t.val
		case t.op == OAdd:
			for _, a := range t.args {
				walk(a, k)
			}
		case t.op == ONeg:
			walk(t.args[0], -k)
		case t.op == OMul && isC(t.args[0]):
			walk(t.args[1], k*t.args[0].val)
		default:
			m[t] += k
			if m[t]&maskW(w) == 0 {
				delete(m, t)
			}
		}
	}
	walk(t, 1)
	return m, c & maskW(w)
}

func fromLinear(w int, m map[*Term]uint64, c uint64) *Term {
	var ts []*Term
	for t := range m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var out []*Term
	for _, t := range ts {
		k := m[t] & maskW(w)
		switch k {
		case 0:
		case 1:
			out = append(out, t)
		case maskW(w):
			out = append(out, mk(ONeg, BV(w), 0, "", t))
		default:
			out = append(out, mk(OMul, BV(w), 0, "", C(w, k), t))
		}
	}
	c &= maskW(w)
	if c != 0 || len(out) == 0 {
		out = append(out, C(w, c))
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(OAdd, BV(w), 0, "", out...)
}

func Add(a, b *Term) *Term {
	m, c := linear(a)
	m2, c2 := linear(b)
	for t, k := range m2 {
		m[t] += k
		if m[t]&maskW(a.sort.W) == 0 {
			delete(m, t)
		}
	}
	return fromLinear(a.sort.W, m, c+c2)
}

func Neg(a *Term) *Term {
	m, c := linear(a)
	for t := range m {
		m[t] = -m[t]
	}
	return fromLinear(a.sort.W, m, -c)
}
func Sub(a, b *Term) *Term { return Add(a, Neg(b)) }

func Mul(a, b *Term) *Term {
	if isC(b) {
		a, b = b, a
	}
	if isC(a) {
		m, c := linear(b)
		for t := range m {
			m[t] *= a.val
			if m[t]&maskW(a.sort.W) == 0 {
				delete(m, t)
			}
		}
		return fromLinear(a.sort.W, m, c*a.val)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OMul, a.sort, 0, "", a, b)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return TT
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %v %v: %s / %s", a.sort, b.sort, a.short(), b.short()))
	}
	if a.sort == Bool {
		switch {
		case a == TT:
			return b
		case b == TT:
			return a
		case a == FF:
			return Not(b)
		case b == FF:
			return Not(a)
		}
	}
	if isC(a) && isC(b) {
		return CB(a.val == b.val)
	}
	if isC(a) {
		a, b = b, a
	}
	if isC(b) && a.op == OIte {
		// push equality with constants into ite of constants
		if isC(a.args[1]) || isC(a.args[2]) {
			return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
		}
	}
	if isC(b) && a.op == OConcat {
		hi, lo := a.args[0], a.args[1]
		return And(Eq(hi, C(hi.sort.W, b.val>>uint(lo.sort.W))), Eq(lo, C(lo.sort.W, b.val)))
	}
	if a.sort.W > 0 && (a.op == OAdd || b.op == OAdd) {
		m, c := linear(a)
		m2, c2 := linear(b)
		w := a.sort.W
		for t, k := range m2 {
			m[t] -= k
			if m[t]&maskW(w) == 0 {
				delete(m, t)
			}
		}
		if len(m) == 0 {
			return CB((c-c2)&maskW(w) == 0)
		}
		if len(m) == 1 {
			for t, k := range m {
				if k&maskW(w) == 1 {
					return eqRaw(t, C(w, c2-c))
				}
				if k&maskW(w) == maskW(w) {
					return eqRaw(t, C(w, c-c2))
				}
			}
		}
	}
	return eqRaw(a, b)
}

func eqRaw(a, b *Term) *Term {
	if a == b {
		return TT
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OEq, Bool, 0, "", a, b)
}

func sext(v uint64, w int) int64 {
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

func Cmp(op Op, a, b *Term) *Term {
	if a == b {
		return CB(op == OULe || op == OSLe)
	}
	if a.sort != b.sort {
		panic("Cmp sort mismatch")
	}
	if isC(a) && isC(b) {
		switch op {
		case OULt:
			return CB(a.val < b.val)
		case OULe:
			return CB(a.val <= b.val)
		case OSLt:
			return CB(sext(a.val, a.sort.W) < sext(b.val, b.sort.W))
		case OSLe:
			return CB(sext(a.val, a.sort.W) <= sext(b.val, b.sort.W))
		}
	}
	if op == OULt && isC(b) && b.val == 0 {
		return FF
	}
	if op == OULe && isC(a) && a.val == 0 {
		return TT
	}
	// zero-extended operands against constants
	if isC(b) && a.op == OConcat && isC(a.args[0]) && a.args[0].val == 0 {
		lo := a.args[1]
		m := maskW(lo.sort.W)
		sb := int64(b.val)
		if a.sort.W < 64 {
			sb = sext(b.val, a.sort.W)
		}
		switch op {
		case OSLt, OSLe:
			if sb > int64(m) || (op == OSLe && sb >= int64(m)) {
				return TT
			}
			if sb < 0 {
				return FF
			}
			if op == OSLt {
				return Cmp(OULt, lo, C(lo.sort.W, b.val))
			}
			return Cmp(OULe, lo, C(lo.sort.W, b.val))
		case OULt, OULe:
			if b.val > m || (op == OULe && b.val >= m) {
				return TT
			}
			return Cmp(op, lo, C(lo.sort.W, b.val))
		}
	}
	if isC(a) && b.op == OConcat && isC(b.args[0]) && b.args[0].val == 0 {
		// a < zext(lo)  ==  !(zext(lo) <= a)
		switch op {
		case OULt:
			return Not(Cmp(OULe, b, a))
		case OULe:
			return Not(Cmp(OULt, b, a))
		case OSLt:
			return Not(Cmp(OSLe, b, a))
		case OSLe:
			return Not(Cmp(OSLt, b, a))
		}
	}
	return mk(op, Bool, 0, "", a, b)
}

func ULt(a, b *Term) *Term { return Cmp(OULt, a, b) }
func ULe(a, b *Term) *Term { return Cmp(OULe, a, b) }
func SLt(a, b *Term) *Term { return Cmp(OSLt, a, b) }
func SLe(a, b *Term) *Term { return Cmp(OSLe, a, b) }

func Bin(op Op, a, b *Term) *Term {
	w := a.sort.W
	if isC(a) && isC(b) {
		x, y := a.val, b.val
		switch op {
		case OBAnd:
			return C(w, x&y)
		case OBOr:
			return C(w, x|y)
		case OBXor:
			return C(w, x^y)
		case OShl:
			if y >= uint64(w) {
				return C(w, 0)
			}
			return C(w, x<<y)
		case OLShr:
			if y >= uint64(w) {
				return C(w, 0)
			}
			return C(w, x>>y)
		case OUDiv:
			if y != 0 {
				return C(w, x/y)
			}
		case OURem:
			if y != 0 {
				return C(w, x%y)
			}
		}
	}
	switch op {
	case OBAnd:
		if isC(a) {
			a, b = b, a
		}
		if isC(b) {
			if b.val == 0 {
				return b
			}
			if b.val == maskW(w) {
				return a
			}
			// contiguous low mask: zext(extract)
			if b.val&(b.val+1) == 0 {
				n := bits.Len64(b.val)
				return ZExt(w, Extract(n-1, 0, a))
			}
		}
		if a == b {
			return a
		}
	case OBOr:
		if isC(a) {
			a, b = b, a
		}
		if isC(b) {
			if b.val == 0 {
				return a
			}
			if b.val == maskW(w) {
				return b
			}
		}
		if a == b {
			return a
		}
	case OShl:
		if isC(b) {
			if b.val == 0 {
				return a
			}
			if b.val >= uint64(w) {
				return C(w, 0)
			}
			n := int(b.val)
			return Concat(Extract(w-1-n, 0, a), C(n, 0))
		}
	case OLShr:
		if isC(b) {
			if b.val == 0 {
				return a
			}
			if b.val >= uint64(w) {
				return C(w, 0)
			}
			n := int(b.val)
			return ZExt(w, Extract(w-1, n, a))
		}
	}
	switch op {
	case OBAnd, OBOr, OBXor:
		if a.id > b.id {
			a, b = b, a
		}
		// or of disjoint concat fields: handled by the solver
	}
	return mk(op, a.sort, 0, "", a, b)
}

func BNot(a *Term) *Term {
	if isC(a) {
		return C(a.sort.W, ^a.val)
	}
	return mk(OBNot, a.sort, 0, "", a)
}

func Extract(hi, lo int, a *Term) *Term {
	w := hi - lo + 1
	if w == a.sort.W {
		return a
	}
	switch a.op {
	case OConst:
		return C(w, a.val>>uint(lo))
	case OConcat:
		h, l := a.args[0], a.args[1]
		lw := l.sort.W
		if hi < lw {
			return Extract(hi, lo, l)
		}
		if lo >= lw {
			return Extract(hi-lw, lo-lw, h)
		}
		return Concat(Extract(hi-lw, 0, h), Extract(lw-1, lo, l))
	case OExtract:
		base := int(a.val & 0xff)
		return Extract(hi+base, lo+base, a.args[0])
	case OIte:
		if isC(a.args[1]) || isC(a.args[2]) {
			return Ite(a.args[0], Extract(hi, lo, a.args[1]), Extract(hi, lo, a.args[2]))
		}
	case OBOr, OBAnd, OBXor:
		return Bin(a.op, Extract(hi, lo, a.args[0]), Extract(hi, lo, a.args[1]))
	}
	return mk(OExtract, BV(w), uint64(hi)<<8|uint64(lo), "", a)
}

func Concat(h, l *Term) *Term {
	if isC(h) && isC(l) && h.sort.W+l.sort.W <= 64 {
		return C(h.sort.W+l.sort.W, h.val<<uint(l.sort.W)|l.val)
	}
	if h.op == OExtract && l.op == OExtract && h.args[0] == l.args[0] && int(h.val&0xff) == int(l.val>>8)+1 {
		return Extract(int(h.val>>8), int(l.val&0xff), h.args[0])
	}
	// (concat 0 (concat 0 x)) -> merged zero extension
	if isC(h) && l.op == OConcat && isC(l.args[0]) && h.sort.W+l.args[0].sort.W <= 64 {
		return Concat(C(h.sort.W+l.args[0].sort.W, h.val<<uint(l.args[0].sort.W)|l.args[0].val), l.args[1])
	}
	return mk(OConcat, BV(h.sort.W+l.sort.W), 0, "", h, l)
}

func ZExt(w int, a *Term) *Term {
	if w == a.sort.W {
		return a
	}
	return Concat(C(w-a.sort.W, 0), a)
}

func SExt(w int, a *Term) *Term {
	if w == a.sort.W {
		return a
	}
	if isC(a) {
		return C(w, uint64(sext(a.val, a.sort.W)))
	}
	return mk(OSExt, BV(w), uint64(w-a.sort.W), "", a)
}

func freeBound(t *Term, seen map[*Term]bool, out map[*Term]bool) {
	if !t.open || seen[t] {
		return
	}
	seen[t] = true
	if t.op == OBound {
		out[t] = true
		return
	}
	inner := map[*Term]bool{}
	for _, a := range t.args {
		if len(t.bound) > 0 {
			freeBound(a, map[*Term]bool{}, inner)
		} else {
			freeBound(a, seen, out)
		}
	}
	if len(t.bound) > 0 {
		for _, b := range t.bound {
			delete(inner, b)
		}
		for b := range inner {
			out[b] = true
		}
	}
}

func Quant(op Op, bound []*Term, body *Term, pats [][]*Term) *Term {
	if isC(body) {
		return body
	}
	if op == OForall {
		// forall i. (guard or forall j. b)  =>  forall i j. (guard or b)
		switch {
		case body.op == OForall:
			return Quant(op, append(append([]*Term{}, bound...), body.bound...), body.args[0], append(append([][]*Term{}, pats...), body.pats...))
		case body.op == OOr:
			for k, a := range body.args {
				if a.op == OForall {
					rest := append(append([]*Term{}, body.args[:k]...), body.args[k+1:]...)
					nb := Or(append(rest, a.args[0])...)
					all := append(append([]*Term{}, bound...), a.bound...)
					return Quant(op, all, nb, autoPats(all, nb, nil))
				}
			}
		}
	}
	fb := map[*Term]bool{}
	freeBound(body, map[*Term]bool{}, fb)
	var bs []*Term
	for _, b := range bound {
		if fb[b] {
			bs = append(bs, b)
		}
	}
	if len(bs) == 0 {
		return body
	}
	// keep only patterns that cover all bound variables
	var ps [][]*Term
	for _, p := range pats {
		cov := map[*Term]bool{}
		for _, t := range p {
			freeBound(t, map[*Term]bool{}, cov)
		}
		ok := true
		for _, b := range bs {
			if !cov[b] {
				ok = false
			}
		}
		if ok {
			ps = append(ps, p)
		}
	}
	key := ""
	for _, b := range bs {
		key += b.name + ";"
	}
	for _, p := range ps {
		for _, t := range p {
			key += strconv.Itoa(t.id) + ","
		}
		key += ";"
	}
	t := mk(op, Bool, 0, key, body)
	t.bound = bs
	t.pats = ps
	for _, b := range bs {
		delete(fb, b)
	}
	t.open = len(fb) > 0
	return t
}

// subst replaces terms (used to instantiate quantifiers and re-map symbols).
func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	as := make([]*Term, len(t.args))
	same := true
	for i, a := range t.args {
		as[i] = subst(a, m, memo)
		if as[i] != a {
			same = false
		}
	}
	var r *Term
	if same {
		r = t
	} else {
		r = rebuild(t, as, m, memo)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, as []*Term, m, memo map[*Term]*Term) *Term {
	switch t.op {
	case OApp:
		return App(t.name, t.sort, as...)
	case ONot:
		return Not(as[0])
	case OAnd:
		return And(as...)
	case OOr:
		return Or(as...)
	case OIte:
		return Ite(as[0], as[1], as[2])
	case OEq:
		return idEq(as[0], as[1])
	case OAdd:
		r := as[0]
		for _, a := range as[1:] {
			r = Add(r, a)
		}
		return r
	case OMul:
		return Mul(as[0], as[1])
	case ONeg:
		return Neg(as[0])
	case OBNot:
		return BNot(as[0])
	case OULt, OULe, OSLt, OSLe:
		return Cmp(t.op, as[0], as[1])
	case OExtract:
		return Extract(int(t.val>>8), int(t.val&0xff), as[0])
	case OConcat:
		return Concat(as[0], as[1])
	case OSExt:
		return SExt(t.sort.W, as[0])
	case OForall, OExists:
		var ps [][]*Term
		for _, p := range t.pats {
			var np []*Term
			ok := true
			for _, x := range p {
				y := subst(x, m, memo)
				np = append(np, y)
				if y.op != OApp || !okPattern(y) {
					ok = false
				}
			}
			if ok {
				ps = append(ps, np)
			}
		}
		if len(ps) == 0 {
			ps = autoPats(t.bound, as[0], nil)
		}
		return Quant(t.op, t.bound, as[0], ps)
	default:
		return Bin(t.op, as[0], as[1])
	}
}

func (t *Term) short() string {
	s := t.str(6)
	if len(s) > 400 {
		s = s[:400] + "…"
	}
	return s
}

func (t *Term) str(d int) string {
	switch t.op {
	case OConst:
		if t.sort == Bool {
			return fmt.Sprint(t.val == 1)
		}
		return fmt.Sprintf("%d", t.val)
	case OVar, OBound:
		return t.name
	}
	if d == 0 {
		return "…"
	}
	n := opName[t.op]
	switch t.op {
	case OApp:
		n = t.name
	case OExtract:
		n = fmt.Sprintf("x[%d:%d]", t.val>>8, t.val&0xff)
	case OSExt:
		n = "sext"
	case OForall:
		n = "forall"
	case OExists:
		n = "exists"
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.str(d-1))
	}
	return "(" + n + " " + strings.Join(as, " ") + ")"
}

// ---------------------------------------------------------------- printing

func q(name string) string { return "|" + name + "|" }

type printer struct {
	sb    strings.Builder
	refs  map[*Term]int
	names map[*Term]string
	ufs   map[string]bool
	vars  map[*Term]bool
	body  strings.Builder
	n     int
}

func newPrinter() *printer {
	return &printer{refs: map[*Term]int{}, names: map[*Term]string{}, ufs: map[string]bool{}, vars: map[*Term]bool{}}
}

func (p *printer) count(t *Term) {
	p.refs[t]++
	if p.refs[t] > 1 {
		return
	}
	switch t.op {
	case OVar:
		p.vars[t] = true
	case OApp:
		p.ufs[t.name] = true
	}
	for _, a := range t.args {
		p.count(a)
	}
	for _, pt := range t.pats {
		for _, x := range pt {
			p.count(x)
		}
	}
}

// expr prints t, emitting define-fun for shared closed subterms.
func (p *printer) expr(t *Term, lets map[*Term]string) string {
	if s, ok := p.names[t]; ok {
		return s
	}
	if s, ok := lets[t]; ok {
		return s
	}
	switch t.op {
	case OConst:
		if t.sort == Bool {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		if t.sort.W%4 == 0 {
			return fmt.Sprintf("#x%0*x", t.sort.W/4, t.val)
		}
		return fmt.Sprintf("#b%0*b", t.sort.W, t.val)
	case OVar, OBound:
		return q(t.name)
	}
	var s string
	switch t.op {
	case OForall, OExists:
		s = p.quant(t, lets)
	default:
		var sb strings.Builder
		sb.WriteByte('(')
		switch t.op {
		case OApp:
			sb.WriteString(q(t.name))
		case OExtract:
			fmt.Fprintf(&sb, "(_ extract %d %d)", t.val>>8, t.val&0xff)
		case OSExt:
			fmt.Fprintf(&sb, "(_ sign_extend %d)", t.val)
		default:
			sb.WriteString(opName[t.op])
		}
		if t.op == OApp && len(t.args) == 0 {
			return q(t.name)
		}
		if t.op == OAdd && len(t.args) > 2 {
			// left-assoc binary
			r := p.expr(t.args[0], lets)
			for _, a := range t.args[1:] {
				r = "(bvadd " + r + " " + p.expr(a, lets) + ")"
			}
			s = r
			break
		}
		for _, a := range t.args {
			sb.WriteByte(' ')
			sb.WriteString(p.expr(a, lets))
		}
		sb.WriteByte(')')
		s = sb.String()
	}
	if !t.open && p.refs[t] > 1 {
		p.n++
		nm := fmt.Sprintf("$%d", p.n)
		fmt.Fprintf(&p.body, "(define-fun %s () %s %s)\n", nm, t.sort, s)
		p.names[t] = nm
		return nm
	}
	return s
}

// quant prints a quantifier whose body shares open subterms through nested lets.
func (p *printer) quant(t *Term, lets map[*Term]string) string {
	body := t.args[0]
	// count references of open subterms inside the body
	refs := map[*Term]int{}
	var order []*Term
	inner := map[*Term]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if !x.open {
			return
		}
		refs[x]++
		if refs[x] > 1 {
			return
		}
		if x.op == OForall || x.op == OExists {
			// do not hoist out of nested binders
			inner[x] = true
		} else {
			for _, a := range x.args {
				walk(a)
			}
		}
		order = append(order, x)
	}
	walk(body)
	l2 := map[*Term]string{}
	for k, v := range lets {
		l2[k] = v
	}
	open, close := "", ""
	for _, x := range order {
		if refs[x] > 1 && len(x.args) > 0 && x != body {
			if _, ok := l2[x]; ok {
				continue
			}
			s := p.expr(x, l2)
			p.n++
			nm := fmt.Sprintf("?l%d", p.n)
			open += fmt.Sprintf("(let ((%s %s)) ", nm, s)
			close += ")"
			l2[x] = nm
		}
	}
	bs := p.expr(body, l2)
	var vs []string
	for _, b := range t.bound {
		vs = append(vs, fmt.Sprintf("(%s %s)", q(b.name), b.sort))
	}
	n := "forall"
	if t.op == OExists {
		n = "exists"
	}
	pat := ""
	for _, pt := range t.pats {
		pat += " :pattern ("
		for i, x := range pt {
			if i > 0 {
				pat += " "
			}
			pat += p.expr(x, lets)
		}
		pat += ")"
	}
	if pat != "" {
		return fmt.Sprintf("(%s (%s) (! %s%s%s%s))", n, strings.Join(vs, " "), open, bs, close, pat)
	}
	return fmt.Sprintf("(%s (%s) %s%s%s)", n, strings.Join(vs, " "), open, bs, close)
}

// script prints a query: all of hyps, and the negated goal.
func script(hyps []*Term, goal *Term, named bool) string {
	p := newPrinter()
	for _, h := range hyps {
		p.count(h)
	}
	ng := Not(goal)
	p.count(ng)
	var asserts strings.Builder
	for _, h := range hyps {
		s := p.expr(h, nil)
		p.body.WriteString("(assert " + s + ")\n")
	}
	s := p.expr(ng, nil)
	p.body.WriteString("(assert " + s + ")\n")
	var out strings.Builder
	var us []string
	for u := range p.ufs {
		us = append(us, u)
	}
	sort.Strings(us)
	for _, u := range us {
		out.WriteString(ufSigs[u] + "\n")
	}
	var vs []*Term
	for v := range p.vars {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
	for _, v := range vs {
		fmt.Fprintf(&out, "(declare-fun %s () %s)\n", q(v.name), v.sort)
	}
	out.WriteString(p.body.String())
	out.WriteString(asserts.String())
	return out.String()
}
