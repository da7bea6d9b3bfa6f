package main

// Symbolic memory.  A location is (tag, id, off): tag is the kind of allocated
// object (struct type, backing array of an element type, variable), id the
// object, off a slot inside it (one slot per scalar component).  Memory is
// split by Go scalar type (type-based separation, sound without unsafe
// aliasing), each split being a persistent chain of updates over an
// uninterpreted base function.

import (
	"fmt"
	"go/types"
	"strings"
)

const tagW = 16

type Loc struct{ tag, id, off *Term }

type MemKind int

const (
	mBase MemKind = iota
	mStore
	mZero
	mHavoc
	mMerge
	mCopy
	mPack   // bytes stored into uint64 words (memmove)
	mUnpack // bytes read out of uint64 words (memmove)
	mFill   // a range set to one value
	mSel    // objects older than a watermark from prev, others from m2
)

type LocPat struct {
	key          string // memory key, "" = all
	tag, id, off *Term  // nil = any
	lo, n        *Term  // off range (when off nil and n non-nil)
	minID        *Term  // id >= minID (fresh objects), when id nil
}

func (p LocPat) match(l Loc) *Term {
	c := TT
	if p.tag != nil {
		c = And(c, Eq(p.tag, l.tag))
	}
	if p.id != nil {
		c = And(c, idEq(p.id, l.id))
	}
	if p.minID != nil {
		c = And(c, Not(idBelow(l.id, p.minID)))
	}
	if p.off != nil {
		c = And(c, Eq(p.off, l.off))
	} else if p.n != nil {
		c = And(c, ULt(Sub(l.off, p.lo), p.n))
	}
	return c
}

type Mem struct {
	kind MemKind
	key  string
	sort Sort
	prev *Mem
	loc  Loc
	val  *Term
	cond *Term
	m2   *Mem // merge else / copy source
	src  Loc
	n    *Term
	uf   string
	pats []LocPat
	memo map[Loc]*Term
	num  int
}

var memCnt int

func newMem(m *Mem) *Mem {
	memCnt++
	m.num = memCnt
	m.memo = map[Loc]*Term{}
	return m
}

func (m *Mem) read(l Loc) *Term {
	if r, ok := m.memo[l]; ok {
		return r
	}
	var r *Term
	switch m.kind {
	case mBase:
		r = App(m.uf, m.sort, l.tag, l.id, l.off)
	case mStore:
		c := And(Eq(m.loc.tag, l.tag), idEq(m.loc.id, l.id), Eq(m.loc.off, l.off))
		if c == TT {
			r = m.val
		} else if c == FF {
			r = m.prev.read(l)
		} else {
			r = Ite(c, m.val, m.prev.read(l))
		}
	case mZero:
		c := And(Eq(m.loc.tag, l.tag), idEq(m.loc.id, l.id))
		z := zeroOf(m.sort)
		if c == TT {
			r = z
		} else if c == FF {
			r = m.prev.read(l)
		} else {
			r = Ite(c, z, m.prev.read(l))
		}
	case mFill:
		c := And(Eq(m.loc.tag, l.tag), idEq(m.loc.id, l.id), ULt(Sub(l.off, m.loc.off), m.n))
		if c == FF {
			r = m.prev.read(l)
		} else {
			r = Ite(c, m.val, m.prev.read(l))
		}
	case mHavoc:
		c := FF
		for _, p := range m.pats {
			if p.key == "" || p.key == m.key {
				c = Or(c, p.match(l))
			}
		}
		if c == FF {
			r = m.prev.read(l)
		} else {
			r = Ite(c, App(m.uf, m.sort, l.tag, l.id, l.off), m.prev.read(l))
		}
	case mSel:
		c := idBelow(l.id, m.n)
		if c == TT {
			r = m.prev.read(l)
		} else if c == FF {
			r = m.m2.read(l)
		} else {
			r = Ite(c, m.prev.read(l), m.m2.read(l))
		}
	case mMerge:
		r = Ite(m.cond, m.prev.read(l), m.m2.read(l))
	case mCopy:
		c := And(Eq(m.loc.tag, l.tag), idEq(m.loc.id, l.id), ULt(Sub(l.off, m.loc.off), m.n))
		if c == FF {
			r = m.prev.read(l)
		} else {
			s := m.m2.read(Loc{m.src.tag, m.src.id, Add(m.src.off, Sub(l.off, m.loc.off))})
			r = Ite(c, s, m.prev.read(l))
		}
	case mPack:
		// words [loc.off, loc.off+ceil(n/8)) receive n bytes from src in m2 (uint8 memory), little endian
		j := Sub(l.off, m.loc.off)
		c := And(Eq(m.loc.tag, l.tag), idEq(m.loc.id, l.id), ULt(j, Bin(OLShr, Add(m.n, C(64, 7)), C(64, 3))))
		old := m.prev.read(l)
		if c == FF {
			r = old
		} else {
			var w *Term
			for b := 0; b < 8; b++ {
				idx := Add(Bin(OShl, j, C(64, 3)), C(64, uint64(b)))
				by := Ite(ULt(idx, m.n), m.m2.read(Loc{m.src.tag, m.src.id, Add(m.src.off, idx)}), Extract(b*8+7, b*8, old))
				if w == nil {
					w = by
				} else {
					w = Concat(by, w)
				}
			}
			r = Ite(c, w, old)
		}
	case mUnpack:
		j := Sub(l.off, m.loc.off)
		c := And(Eq(m.loc.tag, l.tag), idEq(m.loc.id, l.id), ULt(j, m.n))
		if c == FF {
			r = m.prev.read(l)
		} else {
			w := m.m2.read(Loc{m.src.tag, m.src.id, Add(m.src.off, Bin(OLShr, j, C(64, 3)))})
			r = Ite(c, byteOfWord(w, j), m.prev.read(l))
		}
	}
	m.memo[l] = r
	return r
}

// byteOfWord returns byte (j mod 8) of word w, little endian.
func byteOfWord(w, j *Term) *Term {
	sel := Extract(2, 0, j)
	r := Extract(63, 56, w)
	for b := 6; b >= 0; b-- {
		r = Ite(Eq(sel, C(3, uint64(b))), Extract(b*8+7, b*8, w), r)
	}
	return r
}

func zeroOf(s Sort) *Term {
	if s == Bool {
		return FF
	}
	return C(s.W, 0)
}

// ---------------------------------------------------------------- state

type State struct {
	m  map[string]*Mem
	wm *Term // allocation watermark: every existing object has id < wm
	// publication: the state in which a declared pointer was first stored to atomically
	snap *State
	pub  *Term // nil: never
}

func (s *State) clone() *State {
	n := &State{m: make(map[string]*Mem, len(s.m)), wm: s.wm, snap: s.snap, pub: s.pub}
	for k, v := range s.m {
		n.m[k] = v
	}
	return n
}

var keySort = map[string]Sort{}

func (x *Exec) mem(s *State, key string) *Mem {
	if m, ok := s.m[key]; ok {
		return m
	}
	m, ok := x.base[key]
	if !ok {
		m = newMem(&Mem{kind: mBase, key: key, sort: keySort[key], uf: x.baseName + key})
		heapClosed(m.uf, key, x.wm0)
		x.base[key] = m
	}
	s.m[key] = m
	return m
}

func (x *Exec) merge(c *Term, a, b *State) *State {
	if a == b {
		return a
	}
	n := &State{m: map[string]*Mem{}, wm: x.mergeWM(a.wm, b.wm)}
	switch {
	case a.snap == nil && b.snap == nil:
	case a.snap == nil:
		n.snap, n.pub = b.snap, And(Not(c), b.pub)
	case b.snap == nil:
		n.snap, n.pub = a.snap, And(c, a.pub)
	default:
		n.snap, n.pub = x.merge(c, a.snap, b.snap), Ite(c, a.pub, b.pub)
	}
	keys := map[string]bool{}
	for k := range a.m {
		keys[k] = true
	}
	for k := range b.m {
		keys[k] = true
	}
	for k := range keys {
		ma, mb := x.mem(a, k), x.mem(b, k)
		if ma == mb {
			n.m[k] = ma
		} else if c == TT {
			n.m[k] = ma
		} else if c == FF {
			n.m[k] = mb
		} else {
			n.m[k] = newMem(&Mem{kind: mMerge, key: k, sort: ma.sort, cond: c, prev: ma, m2: mb})
		}
	}
	return n
}

// ---------------------------------------------------------------- values

type Val interface{}

type Ptr struct {
	tag, id, off *Term
	ext          *Term // elements from here to the end of the slice it was taken from, if known
}
type Slice struct {
	id, off, len, cap *Term
	elem              types.Type
}
type Str struct {
	lit   *string
	id    *Term // opaque identity
	len   *Term
	bytes *Slice // set when converted from a byte slice
	mem   *Mem   // byte memory at the conversion
	mt    Loc
}
type Tuple []Val
type Struct []Val
type Opaque struct {
	t   *Term // BV64, 0 = nil
	dyn Val   // known dynamic value of an interface
	typ types.Type
}
type Closure struct {
	fn   interface{} // *ssa.Function
	bind []Val
}

// scalar component kinds of a type
func under(t types.Type) types.Type { return t.Underlying() }

func basicKey(b *types.Basic) (string, Sort, bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return "bool", Bool, true
	case types.Int, types.UntypedInt:
		return "int", BV(64), true
	case types.Int64:
		return "int64", BV(64), true
	case types.Uint64:
		return "uint64", BV(64), true
	case types.Uint:
		return "uint", BV(64), true
	case types.Uintptr:
		return "uintptr", BV(64), true
	case types.Int32, types.UntypedRune:
		return "int32", BV(32), true
	case types.Uint32:
		return "uint32", BV(32), true
	case types.Int16:
		return "int16", BV(16), true
	case types.Uint16:
		return "uint16", BV(16), true
	case types.Int8:
		return "int8", BV(8), true
	case types.Uint8:
		return "uint8", BV(8), true
	}
	return "", Sort{}, false
}

func isSigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// slots is the flattened size of a type.
var slotMemo = map[string]uint64{}

func slotsOf(t types.Type) uint64 {
	k := typeKey(t)
	if n, ok := slotMemo[k]; ok {
		return n
	}
	var n uint64
	switch u := under(t).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			n += slotsOf(u.Field(i).Type())
		}
	case *types.Array:
		n = uint64(u.Len()) * slotsOf(u.Elem())
	default:
		n = 1
	}
	slotMemo[k] = n
	return n
}

func fieldOff(s *types.Struct, i int) uint64 {
	var n uint64
	for j := 0; j < i; j++ {
		n += slotsOf(s.Field(j).Type())
	}
	return n
}

var tagTab = map[string]uint64{}
var tagNames = []string{""}

func tagConst(name string) *Term {
	v, ok := tagTab[name]
	if !ok {
		v = uint64(len(tagNames))
		tagTab[name] = v
		tagNames = append(tagNames, name)
	}
	return C(tagW, v)
}

func arrTag(elem types.Type) *Term { return tagConst("A:" + typeKey(elem)) }

// slotLoc is the location of slot k of the value at l.  In an array object the
// elements are numbered by offset and the slots of one element by tag (so that
// element i of any slice lives at offset off+i, whatever its size).
func slotLoc(l Loc, k uint64) Loc {
	if k == 0 {
		return l
	}
	if isC(l.tag) {
		n := tagNames[l.tag.val]
		if strings.HasPrefix(n, "A:") {
			base, k0 := n, uint64(0)
			if i := strings.LastIndex(n, "#"); i > 0 {
				base = n[:i]
				fmt.Sscanf(n[i+1:], "%d", &k0)
			}
			return Loc{tagConst(fmt.Sprintf("%s#%d", base, k0+k)), l.id, l.off}
		}
	}
	return Loc{l.tag, l.id, Add(l.off, C(64, k))}
}

// arrLoc is element i of the array value at l.
func arrLoc(l Loc, elem types.Type, i, es uint64) Loc {
	if l.tag == arrTag(elem) {
		return Loc{l.tag, l.id, Add(l.off, C(64, i))}
	}
	return slotLoc(l, i*es)
}

type leaf struct {
	slot uint64
	key  string
}

// leaves lists the scalar components of a type with their slots.
func leaves(t types.Type, slot uint64, out []leaf) []leaf {
	switch u := under(t).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			out = leaves(u.Field(i).Type(), slot+fieldOff(u, i), out)
		}
		return out
	case *types.Array:
		es := slotsOf(u.Elem())
		for i := int64(0); i < u.Len() && i < 4096; i++ {
			out = leaves(u.Elem(), slot+uint64(i)*es, out)
		}
		return out
	}
	ks := map[string]bool{}
	keysOf(t, ks)
	for _, k := range sortedKeys(ks) {
		out = append(out, leaf{slot, k})
	}
	return out
}

// pointee kind: struct pointers have a static tag, scalar pointers a dynamic one
func staticTag(elem types.Type) (*Term, bool) {
	if _, ok := under(elem).(*types.Struct); ok {
		return tagConst("T:" + typeKey(elem)), true
	}
	return nil, false
}

func keyFor(name string, s Sort) string { keySort[name] = s; return name }

// load reads a value of type t at location l.
func (x *Exec) load(st *State, l Loc, t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Basic:
		if k, s, ok := basicKey(u); ok {
			return x.mem(st, keyFor(k, s)).read(l)
		}
		if u.Info()&types.IsString != 0 {
			return Str{id: x.mem(st, keyFor("str.id", BV(64))).read(l), len: x.mem(st, keyFor("str.len", BV(64))).read(l)}
		}
		return Opaque{t: x.mem(st, keyFor("o:"+typeKey(t), BV(64))).read(l), typ: t}
	case *types.Pointer:
		k := "p:" + typeKey(u.Elem())
		id := x.mem(st, keyFor(k+".id", BV(64))).read(l)
		x.idFact(id, st)
		if tg, ok := staticTag(u.Elem()); ok {
			return Ptr{tag: tg, id: id, off: C(64, 0)}
		}
		return Ptr{tag: x.mem(st, keyFor(k+".tag", BV(tagW))).read(l), id: id, off: x.mem(st, keyFor(k+".off", BV(64))).read(l)}
	case *types.Slice:
		k := "s:" + typeKey(u.Elem())
		s := Slice{
			id:   x.mem(st, keyFor(k+".id", BV(64))).read(l),
			off:  x.mem(st, keyFor(k+".off", BV(64))).read(l),
			len:  x.mem(st, keyFor(k+".len", BV(64))).read(l),
			cap:  x.mem(st, keyFor(k+".cap", BV(64))).read(l),
			elem: u.Elem(),
		}
		if n, ok := x.fixedAt(l); ok {
			// always a whole array of n elements (every store is checked)
			s.off, s.len, s.cap = b64(0), b64(n), b64(n)
			x.idFact(s.id, st)
			x.fact(Or(Eq(l.id, b64(0)), Not(Eq(s.id, b64(0)))))
			return s
		}
		x.sliceFact(s, st)
		return s
	case *types.Struct:
		r := make(Struct, u.NumFields())
		for i := range r {
			r[i] = x.load(st, slotLoc(l, fieldOff(u, i)), u.Field(i).Type())
		}
		return r
	case *types.Array:
		n := int(u.Len())
		if n > 64 {
			return Opaque{t: x.fresh("bigarr", BV(64)), typ: t}
		}
		r := make(Struct, n)
		es := slotsOf(u.Elem())
		for i := range r {
			r[i] = x.load(st, arrLoc(l, u.Elem(), uint64(i), es), u.Elem())
		}
		return r
	default:
		o := x.mem(st, keyFor("o:"+typeKey(t), BV(64))).read(l)
		return Opaque{t: o, typ: t}
	}
}

func (x *Exec) fixedAt(l Loc) (uint64, bool) {
	if !isC(l.tag) || !isC(l.off) {
		return 0, false
	}
	n, ok := x.p.fixed[fmt.Sprintf("%s@%d", tagNames[l.tag.val], l.off.val)]
	return n, ok
}

func (x *Exec) put(st *State, key string, s Sort, l Loc, v *Term) {
	if v.sort != s {
		panic(fmt.Sprintf("store sort mismatch at %s: %v vs %v", key, v.sort, s))
	}
	m := x.mem(st, keyFor(key, s))
	st.m[key] = newMem(&Mem{kind: mStore, key: key, sort: s, prev: m, loc: l, val: v})
	x.noteWrite(LocPat{key: key, tag: l.tag, id: l.id, off: l.off})
}

func (x *Exec) store(st *State, l Loc, t types.Type, v Val) {
	switch u := under(t).(type) {
	case *types.Basic:
		if k, s, ok := basicKey(u); ok {
			x.put(st, k, s, l, v.(*Term))
			return
		}
		if u.Info()&types.IsString != 0 {
			s := v.(Str)
			x.put(st, "str.id", BV(64), l, s.id)
			x.put(st, "str.len", BV(64), l, s.len)
			return
		}
		x.put(st, "o:"+typeKey(t), BV(64), l, x.opaqueTerm(v))
	case *types.Pointer:
		k := "p:" + typeKey(u.Elem())
		p := v.(Ptr)
		x.put(st, k+".id", BV(64), l, p.id)
		if tg, ok := staticTag(u.Elem()); ok {
			if p.tag != tg && p.id != C(64, 0) {
				x.unsupported("storing interior struct pointer of type %s", typeKey(t))
			}
			return
		}
		x.put(st, k+".tag", BV(tagW), l, p.tag)
		x.put(st, k+".off", BV(64), l, p.off)
	case *types.Slice:
		k := "s:" + typeKey(u.Elem())
		s := v.(Slice)
		x.put(st, k+".id", BV(64), l, s.id)
		x.put(st, k+".off", BV(64), l, s.off)
		x.put(st, k+".len", BV(64), l, s.len)
		x.put(st, k+".cap", BV(64), l, s.cap)
	case *types.Struct:
		r := v.(Struct)
		for i := range r {
			x.store(st, slotLoc(l, fieldOff(u, i)), u.Field(i).Type(), r[i])
		}
	case *types.Array:
		r, ok := v.(Struct)
		if !ok {
			x.unsupported("store of large array")
			return
		}
		es := slotsOf(u.Elem())
		for i := range r {
			x.store(st, arrLoc(l, u.Elem(), uint64(i), es), u.Elem(), r[i])
		}
	default:
		x.put(st, "o:"+typeKey(t), BV(64), l, x.opaqueTerm(v))
	}
}

func (x *Exec) opaqueTerm(v Val) *Term {
	switch v := v.(type) {
	case Opaque:
		return v.t
	case *Term:
		return v
	}
	return x.fresh("opq", BV(64))
}

// keysOf lists the memory keys a value of type t occupies.
func keysOf(t types.Type, out map[string]bool) {
	switch u := under(t).(type) {
	case *types.Basic:
		if k, s, ok := basicKey(u); ok {
			out[keyFor(k, s)] = true
		} else if u.Info()&types.IsString != 0 {
			out[keyFor("str.id", BV(64))] = true
			out[keyFor("str.len", BV(64))] = true
		} else {
			out[keyFor("o:"+typeKey(t), BV(64))] = true
		}
	case *types.Pointer:
		k := "p:" + typeKey(u.Elem())
		out[keyFor(k+".id", BV(64))] = true
		if _, ok := staticTag(u.Elem()); !ok {
			out[keyFor(k+".tag", BV(tagW))] = true
			out[keyFor(k+".off", BV(64))] = true
		}
	case *types.Slice:
		k := "s:" + typeKey(u.Elem())
		for _, c := range []string{".id", ".off", ".len", ".cap"} {
			out[keyFor(k+c, BV(64))] = true
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			keysOf(u.Field(i).Type(), out)
		}
	case *types.Array:
		keysOf(u.Elem(), out)
	default:
		out[keyFor("o:"+typeKey(t), BV(64))] = true
	}
}

func (x *Exec) zero(t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Basic:
		if _, s, ok := basicKey(u); ok {
			return zeroOf(s)
		}
		if u.Info()&types.IsString != 0 {
			e := ""
			return Str{lit: &e, id: C(64, 0), len: C(64, 0)}
		}
		return Opaque{t: C(64, 0), typ: t}
	case *types.Pointer:
		if tg, ok := staticTag(u.Elem()); ok {
			return Ptr{tag: tg, id: C(64, 0), off: C(64, 0)}
		}
		return Ptr{tag: C(tagW, 0), id: C(64, 0), off: C(64, 0)}
	case *types.Slice:
		z := C(64, 0)
		return Slice{z, z, z, z, u.Elem()}
	case *types.Struct:
		r := make(Struct, u.NumFields())
		for i := range r {
			r[i] = x.zero(u.Field(i).Type())
		}
		return r
	case *types.Array:
		n := int(u.Len())
		if n > 64 {
			return Opaque{t: C(64, 0), typ: t}
		}
		r := make(Struct, n)
		for i := range r {
			r[i] = x.zero(u.Elem())
		}
		return r
	}
	return Opaque{t: C(64, 0), typ: t}
}

func (x *Exec) fresh(p string, s Sort) *Term { return Fresh(p, s) }

// freshVal makes an unconstrained value of type t (well-formed slices, existing objects).
func (x *Exec) freshVal(st *State, p string, t types.Type) Val {
	p = strings.Map(func(r rune) rune {
		if r == '|' || r == '\\' {
			return '_'
		}
		return r
	}, p)
	switch u := under(t).(type) {
	case *types.Basic:
		if _, s, ok := basicKey(u); ok {
			return x.fresh(p, s)
		}
		if u.Info()&types.IsString != 0 {
			l := x.fresh(p+".len", BV(64))
			x.fact(ULt(l, C(64, 1<<40)))
			return Str{id: x.fresh(p+".str", BV(64)), len: l}
		}
		return Opaque{t: x.fresh(p, BV(64)), typ: t}
	case *types.Pointer:
		id := x.fresh(p+".id", BV(64))
		x.idFact(id, st)
		if tg, ok := staticTag(u.Elem()); ok {
			return Ptr{tag: tg, id: id, off: C(64, 0)}
		}
		return Ptr{tag: x.fresh(p+".tag", BV(tagW)), id: id, off: x.fresh(p+".off", BV(64))}
	case *types.Slice:
		s := Slice{x.fresh(p+".id", BV(64)), x.fresh(p+".off", BV(64)), x.fresh(p+".len", BV(64)), x.fresh(p+".cap", BV(64)), u.Elem()}
		x.sliceFact(s, st)
		return s
	case *types.Struct:
		r := make(Struct, u.NumFields())
		for i := range r {
			r[i] = x.freshVal(st, p+"."+u.Field(i).Name(), u.Field(i).Type())
		}
		return r
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = x.freshVal(st, fmt.Sprintf("%s.%d", p, i), u.At(i).Type())
		}
		return r
	case *types.Array:
		n := int(u.Len())
		if n > 64 {
			return Opaque{t: x.fresh(p, BV(64)), typ: t}
		}
		r := make(Struct, n)
		for i := range r {
			r[i] = x.freshVal(st, fmt.Sprintf("%s.%d", p, i), u.Elem())
		}
		return r
	}
	return Opaque{t: x.fresh(p, BV(64)), typ: t}
}

// ufBelow: identities stored in this version of memory are below the watermark
// it was made at (the heap never points to objects that do not exist yet).
var ufBelow = map[string]struct {
	ref wmRef
	wm  *Term
}{}

func heapClosed(uf, key string, wm *Term) {
	if strings.HasSuffix(key, ".id") && (strings.HasPrefix(key, "p:") || strings.HasPrefix(key, "s:")) {
		if b, c := wmBase(wm); b != nil {
			ufBelow[uf] = struct {
				ref wmRef
				wm  *Term
			}{wmRef{b, c}, wm}
		}
	}
}

// heapAxioms states the above for the versions an open term reads.
func (x *Exec) heapAxioms(t *Term, seen map[*Term]bool) {
	if seen[t] || !t.open {
		return
	}
	seen[t] = true
	if t.op == OApp {
		if u, ok := ufBelow[t.name]; ok {
			b := []*Term{BoundVar("t", BV(tagW)), BoundVar("o", BV(64)), BoundVar("f", BV(64))}
			if !x.heapDone[t.name] {
				x.heapDone[t.name] = true
				a := App(t.name, BV(64), b...)
				x.facts = append(x.facts, Quant(OForall, b, ULt(a, u.wm), [][]*Term{{a}}))
			}
		}
	}
	for _, a := range t.args {
		x.heapAxioms(a, seen)
	}
}

func (x *Exec) idFact(id *Term, st *State) {
	if isC(id) {
		return
	}
	if id.open {
		x.heapAxioms(id, map[*Term]bool{})
		return
	}
	noteBelow(id, st.wm)
	x.fact(ULt(id, st.wm))
}

// ---- watermark reasoning: which object identities are certainly different

type wmRef struct {
	base *Term
	off  uint64
}

var (
	wmParents = map[*Term][]wmRef{} // watermark variable -> values it is known to be >= of
	belowTab  = map[*Term][]wmRef{}
)

func noteBelow(id, wm *Term) {
	b, c := wmBase(wm)
	if b != nil {
		belowTab[id] = append(belowTab[id], wmRef{b, c})
	}
}

// wmGE: base+off >= ref for sure
func wmGE(base *Term, off uint64, ref wmRef, depth int) bool {
	if base == ref.base {
		return off >= ref.off
	}
	if depth > 40 {
		return false
	}
	for _, p := range wmParents[base] {
		if wmGE(p.base, p.off, ref, depth+1) {
			return true
		}
	}
	return false
}

// certainlyBelow: id < base+off
func certainlyBelow(id *Term, base *Term, off uint64, depth int) bool {
	if isC(id) {
		return id.val < 100000
	}
	if id.op == OIte && depth < 12 {
		return certainlyBelow(id.args[1], base, off, depth+1) && certainlyBelow(id.args[2], base, off, depth+1)
	}
	if id.op == OApp {
		if u, ok := ufBelow[id.name]; ok && wmGE(base, off, u.ref, 0) {
			return true
		}
	}
	for _, r := range belowTab[id] {
		if wmGE(base, off, r, 0) {
			return true
		}
	}
	// an allocated identity b+c is below everything >= b+c+1
	b, c := wmBase(id)
	if b != nil && isWM[b] {
		return wmGE(base, off, wmRef{b, c + 1}, 0)
	}
	return false
}

var isWM = map[*Term]bool{}

func idEq(a, b *Term) *Term {
	e := Eq(a, b)
	if isC(e) {
		return e
	}
	if x, c := wmBase(b); x != nil && isWM[x] && certainlyBelow(a, x, c, 0) {
		return FF
	}
	if x, c := wmBase(a); x != nil && isWM[x] && certainlyBelow(b, x, c, 0) {
		return FF
	}
	return e
}

func idBelow(id, wm *Term) *Term {
	b, c := wmBase(wm)
	if b != nil && certainlyBelow(id, b, c, 0) {
		return TT
	}
	if x, o := wmBase(id); x != nil && isWM[x] && b != nil && wmGE(x, o, wmRef{b, c}, 0) {
		return FF
	}
	return ULt(id, wm)
}

func (x *Exec) mergeWM(a, b *Term) *Term {
	if a == b {
		return a
	}
	ab, ac := wmBase(a)
	bb, bc := wmBase(b)
	if ab == bb {
		if ac > bc {
			return a
		}
		return b
	}
	if wmGE(ab, ac, wmRef{bb, bc}, 0) {
		return a
	}
	if wmGE(bb, bc, wmRef{ab, ac}, 0) {
		return b
	}
	w := x.fresh("wm", BV(64))
	isWM[w] = true
	wmParents[w] = []wmRef{{ab, ac}, {bb, bc}}
	x.fact(And(ULe(a, w), ULe(b, w), ULt(w, C(64, 1<<60))))
	return w
}

func (x *Exec) sliceFact(s Slice, st *State) {
	if s.id.open || s.len.open || s.off.open {
		if s.id.open {
			x.idFact(s.id, st)
		}
		return
	}
	lim := C(64, 1<<40)
	x.fact(And(ULe(s.len, s.cap), ULt(s.cap, lim), ULt(s.off, lim)))
	// only the nil slice has no backing object
	x.fact(Or(Eq(s.cap, C(64, 0)), Not(Eq(s.id, C(64, 0)))))
	x.idFact(s.id, st)
}

// mergeVal = c ? a : b
func (x *Exec) mergeVal(c *Term, a, b Val) Val {
	if c == TT {
		return a
	}
	if c == FF {
		return b
	}
	switch a := a.(type) {
	case *Term:
		return Ite(c, a, b.(*Term))
	case Ptr:
		b := b.(Ptr)
		return Ptr{tag: Ite(c, a.tag, b.tag), id: Ite(c, a.id, b.id), off: Ite(c, a.off, b.off)}
	case Slice:
		b := b.(Slice)
		return Slice{Ite(c, a.id, b.id), Ite(c, a.off, b.off), Ite(c, a.len, b.len), Ite(c, a.cap, b.cap), a.elem}
	case Str:
		b := b.(Str)
		if a.lit != nil && b.lit != nil && *a.lit == *b.lit {
			return a
		}
		return Str{id: Ite(c, a.id, b.id), len: Ite(c, a.len, b.len)}
	case Struct:
		b := b.(Struct)
		r := make(Struct, len(a))
		for i := range r {
			r[i] = x.mergeVal(c, a[i], b[i])
		}
		return r
	case Tuple:
		b := b.(Tuple)
		r := make(Tuple, len(a))
		for i := range r {
			r[i] = x.mergeVal(c, a[i], b[i])
		}
		return r
	case Opaque:
		bo, ok := b.(Opaque)
		if !ok {
			return Opaque{t: Ite(c, a.t, x.opaqueTerm(b)), typ: a.typ}
		}
		return Opaque{t: Ite(c, a.t, bo.t), typ: a.typ}
	case Closure:
		if bc, ok := b.(Closure); !ok || bc.fn != a.fn || len(bc.bind) > 0 {
			x.unsupported("function value depends on the path")
		}
		return a
	case nil:
		return b
	}
	panic(fmt.Sprintf("mergeVal %T", a))
}
