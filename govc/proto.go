package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Assumed contract of the protobuf runtime: Marshal is a function of the message's fields,
// Unmarshal of a marshalled message of the same type restores exactly those fields, Unmarshal of
// other bytes fails or yields fields that are functions of the bytes, and never reaches into
// existing objects.

type pbKind int

const (
	pbScalar pbKind = iota // pointer to scalar
	pbBytes
	pbMsg
	pbRep
	pbPlain // proto3 scalar stored by value
	pbOther
)

type pbField struct {
	idx  int
	name string
	typ  types.Type
	kind pbKind
	elem types.Type
	p3   bool // proto3: no presence for scalars and bytes
}

func pbFields(t types.Type) []pbField {
	s, ok := under(t).(*types.Struct)
	if !ok {
		panic(unsupported("protobuf of %s", typeKey(t)))
	}
	var out []pbField
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Exported() || strings.HasPrefix(f.Name(), "XXX_") {
			continue
		}
		pf := pbField{idx: i, name: f.Name(), typ: f.Type(), p3: strings.Contains(s.Tag(i), "proto3")}
		switch u := under(f.Type()).(type) {
		case *types.Pointer:
			if isAgg(u.Elem()) {
				pf.kind, pf.elem = pbMsg, u.Elem()
			} else {
				pf.kind, pf.elem = pbScalar, u.Elem()
			}
		case *types.Slice:
			if isByteType(u.Elem()) {
				pf.kind = pbBytes
			} else {
				pf.kind, pf.elem = pbRep, u.Elem()
			}
		case *types.Basic:
			pf.kind = pbPlain
		default:
			pf.kind = pbOther
		}
		out = append(out, pf)
	}
	return out
}

// pbMayFail says whether marshalling a message of this type can fail: when it has required fields,
// strings (which may be invalid UTF-8) or fields of other shapes, in it or in what it refers to.
func pbMayFail(t types.Type, seen map[string]bool) bool {
	if seen[typeKey(t)] {
		return false
	}
	seen[typeKey(t)] = true
	s, ok := under(t).(*types.Struct)
	if !ok {
		return true
	}
	for i := 0; i < s.NumFields(); i++ {
		if f := s.Field(i); f.Exported() && strings.Contains(s.Tag(i), ",req,") {
			return true
		}
	}
	for _, f := range pbFields(t) {
		switch f.kind {
		case pbMsg:
			if pbMayFail(f.elem, seen) {
				return true
			}
		case pbRep:
			if p, ok := under(f.elem).(*types.Pointer); ok {
				if pbMayFail(p.Elem(), seen) {
					return true
				}
			} else if b, ok := under(f.elem).(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return true
			}
		case pbScalar:
			if b, ok := under(f.elem).(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return true
			}
		case pbPlain:
			if b, ok := under(f.typ).(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return true
			}
		case pbOther:
			return true
		}
	}
	return false
}

type pbEnc struct {
	typ    types.Type
	absent bool
	vals   []pbVal
}
type pbVal struct {
	has *Term
	val *Term
	sub *pbEnc
	rep []pbVal
	raw Val // repeated field of symbolic length, shared
}

// present says whether any field is encoded; nil: not known.
func (e *pbEnc) present() *Term {
	var ps []*Term
	for k, f := range pbFields(e.typ) {
		v := e.vals[k]
		switch {
		case f.kind == pbOther:
			return nil
		case v.raw != nil:
			ps = append(ps, Gt(v.raw.(Slice).Len, Int(0)))
		case f.kind == pbRep:
			ps = append(ps, BoolT(len(v.rep) > 0))
		case f.kind == pbPlain:
			switch v.val.sort {
			case "Bool":
				ps = append(ps, v.val)
			case "B":
				ps = append(ps, Gt(Blen(v.val), Int(0)))
			case "Int":
				ps = append(ps, Ne(v.val, Int(0)))
			default:
				return nil
			}
		default:
			ps = append(ps, v.has)
		}
	}
	return Or(ps...)
}

var pbEncs = map[*Term]*pbEnc{}

func shortType(t types.Type) string {
	s := typeKey(t)
	if i := strings.LastIndex(s, "."); i >= 0 {
		s = s[i+1:]
	}
	return s
}

// pbSnapshot reads the fields of message p; forks on the presence of nested messages.
func (x *Exec) pbSnapshot(st *State, p Ptr, t types.Type, shape *strings.Builder, args *[]*Term, depth int) *pbEnc {
	if depth > 6 {
		panic(unsupported("protobuf nesting"))
	}
	e := &pbEnc{typ: t}
	fs := pbFields(t)
	for _, f := range fs {
		fp, ft := fieldPtr(p.Ref, t, f.idx)
		v := st.Load(fp, ft)
		pv := x.pbSnapVal(st, v, f, shape, args, depth)
		e.vals = append(e.vals, pv)
	}
	return e
}

func (x *Exec) pbSnapVal(st *State, v Val, f pbField, shape *strings.Builder, args *[]*Term, depth int) pbVal {
	switch f.kind {
	case pbPlain:
		t := v.(*Term)
		*args = append(*args, t)
		return pbVal{has: TTrue, val: t}
	case pbScalar:
		r := v.(Ptr).Ref
		has := Ne(r, Int(0))
		if !x.decide(st, has) {
			shape.WriteByte('0')
			return pbVal{has: TFalse}
		}
		shape.WriteByte('1')
		val := st.Load(v.(Ptr), f.elem).(*Term)
		*args = append(*args, val)
		return pbVal{has: TTrue, val: val}
	case pbBytes:
		s := v.(Slice)
		has := Ne(s.Ref, Int(0))
		if f.p3 {
			has = Gt(s.Len, Int(0))
		}
		c := st.content(s)
		if has == TFalse {
			shape.WriteByte('0')
			return pbVal{has: has, val: TEmpty}
		}
		if has == TTrue || st.facts[has.id] {
			shape.WriteByte('1')
			has = TTrue
		} else {
			shape.WriteByte('?')
			*args = append(*args, has)
		}
		*args = append(*args, c)
		return pbVal{has: has, val: c}
	case pbMsg:
		r := v.(Ptr).Ref
		if !x.decide(st, Ne(r, Int(0))) {
			shape.WriteByte('0')
			return pbVal{has: TFalse}
		}
		shape.WriteString("(")
		sub := x.pbSnapshot(st, v.(Ptr), f.elem, shape, args, depth+1)
		shape.WriteString(")")
		return pbVal{has: TTrue, sub: sub}
	case pbRep:
		s := v.(Slice)
		if !s.Len.isConst() {
			// a repeated field of unknown length: opaque but recoverable
			tok := Fresh("pbrep", "Int")
			*args = append(*args, tok, s.Len)
			shape.WriteString("*")
			return pbVal{raw: s}
		}
		n := s.Len.k.Int64()
		fmt.Fprintf(shape, "[%d", n)
		pv := pbVal{has: TTrue}
		ef := repElem(f)
		for k := int64(0); k < n; k++ {
			ev := st.Load(elemPtr(s.Ref, Add(s.Off, Int(k)), f.elem), f.elem)
			pv.rep = append(pv.rep, x.pbSnapVal(st, ev, ef, shape, args, depth))
		}
		shape.WriteString("]")
		return pv
	}
	// oneof and other shapes: opaque
	tok := Fresh("pbopaque", "Int")
	*args = append(*args, tok)
	return pbVal{raw: v}
}

func repElem(f pbField) pbField {
	ef := pbField{name: f.name, typ: f.elem}
	switch u := under(f.elem).(type) {
	case *types.Pointer:
		ef.kind, ef.elem = pbMsg, u.Elem()
	case *types.Slice:
		ef.kind = pbBytes
	default:
		ef.kind = pbPlain
	}
	return ef
}

func (x *Exec) pbMarshalCall(st *State, fr *Frame, res ssa.Value, args []Val) ([]*State, bool) {
	v := st.resolve(args[0].(Iface))
	if v.Typ == nil {
		panic(unsupported("marshal of unknown message"))
	}
	pt, ok := under(v.Typ).(*types.Pointer)
	if !ok {
		panic(unsupported("marshal of %s", typeKey(v.Typ)))
	}
	p := v.V.(Ptr)
	var shape strings.Builder
	var as []*Term
	var e *pbEnc
	if x.decide(st, Eq(p.Ref, Int(0))) {
		fr.env[res] = st.newBytesStr(TEmpty)
		return nil, true
	}
	e = x.pbSnapshot(st, p, pt.Elem(), &shape, &as, 0)
	t := UF("pbenc_"+shortType(pt.Elem())+"_"+shape.String(), "B", as...)
	pbEncs[t] = e
	// nothing is encoded exactly when nothing is present
	if pr := e.present(); pr != nil {
		st.assume(Eq(Not(Eq(Blen(t), Int(0))), pr))
	}
	x.assumed["protobuf: Marshal is injective on fields, Unmarshal inverts it"]++
	if res != nil {
		fr.env[res] = st.newBytes(t)
	}
	return nil, true
}

func (st *State) newBytesStr(t *Term) Slice { return st.newBytes(t) }

// pbUnmarshalCall(b []byte, m proto.Message) bool: whether decoding succeeded.
func (x *Exec) pbUnmarshalCall(st *State, fr *Frame, res ssa.Value, args []Val) ([]*State, bool) {
	b := st.content(args[0].(Slice))
	v := st.resolve(args[1].(Iface))
	if v.Typ == nil {
		panic(unsupported("unmarshal into unknown message"))
	}
	pt := under(v.Typ).(*types.Pointer)
	p := v.V.(Ptr)
	if e := pbEncs[b]; e != nil && types.Identical(e.typ, pt.Elem()) {
		x.pbRestore(st, p, pt.Elem(), e)
		fr.env[res] = TTrue
		return nil, true
	}
	if b == TEmpty {
		st.Store(p, pt.Elem(), zero(pt.Elem()))
		fr.env[res] = TTrue
		return nil, true
	}
	okT := UF("pbok_"+shortType(pt.Elem()), "Bool", b)
	if !x.decide(st, okT) {
		x.havocObj(st, p, pt.Elem())
		fr.env[res] = TFalse
		return nil, true
	}
	x.assumed["protobuf: Unmarshal yields fields that depend on the bytes only"]++
	x.pbDecode(st, p, pt.Elem(), shortType(pt.Elem()), b, 0)
	fr.env[res] = TTrue
	return nil, true
}

func (x *Exec) pbRestore(st *State, p Ptr, t types.Type, e *pbEnc) {
	st.Store(p, t, zero(t))
	for k, f := range pbFields(t) {
		fp, ft := fieldPtr(p.Ref, t, f.idx)
		st.Store(fp, ft, x.pbRestoreVal(st, e.vals[k], f))
	}
}

func (x *Exec) pbRestoreVal(st *State, pv pbVal, f pbField) Val {
	if pv.raw != nil {
		if s, ok := pv.raw.(Slice); ok {
			x.assumedNote("protobuf: repeated field of unknown length shares its elements with the message it was decoded from")
			return s
		}
		return st.symbolic("pbopaque", f.typ)
	}
	switch f.kind {
	case pbPlain:
		return pv.val
	case pbScalar:
		if pv.has == TFalse {
			return Ptr{Ref: Int(0)}
		}
		r := st.alloc()
		st.Store(Ptr{Ref: r}, f.elem, pv.val)
		return Ptr{Ref: r}
	case pbBytes:
		if pv.has == TFalse {
			return zero(f.typ)
		}
		r := st.alloc()
		st.setBytes(r, pv.val)
		l := Blen(pv.val)
		ref := r
		if pv.has != TTrue {
			ref = Ite(pv.has, r, Int(0))
			st.assume(Or(pv.has, Eq(l, Int(0))))
		}
		return Slice{ref, Int(0), l, l}
	case pbMsg:
		if pv.has == TFalse {
			return Ptr{Ref: Int(0)}
		}
		r := st.alloc()
		x.pbRestore(st, Ptr{Ref: r}, f.elem, pv.sub)
		return Ptr{Ref: r}
	case pbRep:
		n := int64(len(pv.rep))
		if n == 0 {
			return zero(f.typ)
		}
		r := st.alloc()
		ef := repElem(f)
		for k := int64(0); k < n; k++ {
			st.Store(elemPtr(r, Int(k), f.elem), f.elem, x.pbRestoreVal(st, pv.rep[k], ef))
		}
		return Slice{r, Int(0), Int(n), Int(n)}
	}
	return st.symbolic("pbopaque", f.typ)
}

// pbDecode fills message p with fields that are functions of the bytes b.
func (x *Exec) pbDecode(st *State, p Ptr, t types.Type, path string, b *Term, depth int) {
	if depth > 6 {
		panic(unsupported("protobuf nesting"))
	}
	st.Store(p, t, zero(t))
	for _, f := range pbFields(t) {
		fp, ft := fieldPtr(p.Ref, t, f.idx)
		n := path + "." + f.name
		switch f.kind {
		case pbPlain:
			st.Store(fp, ft, x.pbUF(n, f.typ, b))
		case pbScalar:
			has := UF("pbhas_"+n, "Bool", b)
			r := st.alloc()
			st.Store(Ptr{Ref: r}, f.elem, x.pbUF(n, f.elem, b))
			st.Store(fp, ft, Ptr{Ref: Ite(has, r, Int(0))})
		case pbBytes:
			has := UF("pbhas_"+n, "Bool", b)
			r := st.alloc()
			v := UF("pbval_"+n, "B", b)
			st.setBytes(r, v)
			st.assume(Or(has, Eq(Blen(v), Int(0))))
			st.assume(Le(Blen(v), Blen(b)))
			st.Store(fp, ft, Slice{Ite(has, r, Int(0)), Int(0), Blen(v), Blen(v)})
		case pbMsg:
			has := UF("pbhas_"+n, "Bool", b)
			r := st.alloc()
			if depth >= pbDepth {
				// deeper messages: arbitrary new object
				st.Store(fp, ft, Ptr{Ref: Ite(has, r, Int(0))})
				x.pbHavocNew(st, Ptr{Ref: r}, f.elem)
				continue
			}
			x.pbDecode(st, Ptr{Ref: r}, f.elem, n, b, depth+1)
			st.Store(fp, ft, Ptr{Ref: Ite(has, r, Int(0))})
		case pbRep:
			l := UF("pbrep_"+n, "Int", b)
			if l.op == OUF && l.lo == nil {
				l.lo, l.hi = bigZero, maxLen
			}
			st.assume(Ge(l, Int(0)))
			old := st.curTop()
			st.top = FreshInt("top", old.lo, nil)
			st.allocN = 0
			st.assume(Ge(st.top, Add(old, Int(2))))
			r := old // the backing array itself
			ref := Ite(Gt(l, Int(0)), r, Int(0))
			if _, ok := under(f.elem).(*types.Pointer); ok {
				o := oracle
				oracle = nil
				q := BoundVar(nil, nil)
				in, _ := x.inner(st, r, f.elem, 0)
				x.pbElem(st, []*Term{q}, And(Le(Int(0), q), Lt(q, l)), Select(in, q), nil, old, under(f.elem).(*types.Pointer).Elem(), r, q, 0)
				oracle = o
			}
			st.Store(fp, ft, Slice{ref, Int(0), l, l})
		default:
			st.Store(fp, ft, st.symbolic("pbopaque", f.typ))
		}
	}
}

var pbDepth = 3

func (x *Exec) pbHavocNew(st *State, p Ptr, t types.Type) {
	// fields of a newly allocated object that is never written are arbitrary already
}

func (x *Exec) pbUF(n string, t types.Type, b *Term) *Term {
	switch {
	case isBool(t):
		return UF("pbval_"+n, "Bool", b)
	case isString(t):
		return UF("pbval_"+n, "B", b)
	}
	r := UF("pbval_"+n, "Int", b)
	return x.rng(r, t)
}

// pbClone deep-copies message p.
func (x *Exec) pbClone(st *State, p Ptr, ptr types.Type, depth int) Val {
	pt := under(ptr).(*types.Pointer)
	if !x.decide(st, Ne(p.Ref, Int(0))) {
		return Ptr{Ref: Int(0)}
	}
	return Ptr{Ref: x.pbCopy(st, p, pt.Elem(), depth)}
}

func (x *Exec) pbCopy(st *State, p Ptr, t types.Type, depth int) *Term {
	if depth > 6 {
		panic(unsupported("protobuf nesting"))
	}
	n := st.alloc()
	st.Store(Ptr{Ref: n}, t, zero(t))
	for _, f := range pbFields(t) {
		fp, ft := fieldPtr(p.Ref, t, f.idx)
		np, _ := fieldPtr(n, t, f.idx)
		v := st.Load(fp, ft)
		switch f.kind {
		case pbPlain, pbOther:
			st.Store(np, ft, v)
		case pbScalar:
			r := v.(Ptr).Ref
			if Eq(r, Int(0)) == TTrue {
				continue
			}
			c := st.alloc()
			st.Store(Ptr{Ref: c}, f.elem, st.Load(v.(Ptr), f.elem))
			st.Store(np, ft, Ptr{Ref: Ite(Ne(r, Int(0)), c, Int(0))})
		case pbBytes:
			s := v.(Slice)
			if s.Ref == Int(0) {
				continue
			}
			c := st.alloc()
			b := st.content(s)
			st.setBytes(c, b)
			st.Store(np, ft, Slice{Ite(Ne(s.Ref, Int(0)), c, Int(0)), Int(0), s.Len, s.Len})
		case pbMsg:
			if !x.decide(st, Ne(v.(Ptr).Ref, Int(0))) {
				continue
			}
			st.Store(np, ft, Ptr{Ref: x.pbCopy(st, v.(Ptr), f.elem, depth+1)})
		case pbRep:
			s := v.(Slice)
			if s.Len.isConst() {
				k := s.Len.k.Int64()
				if k == 0 {
					continue
				}
				r := st.alloc()
				for j := int64(0); j < k; j++ {
					ep := elemPtr(s.Ref, Add(s.Off, Int(j)), f.elem)
					ev := st.Load(ep, f.elem)
					switch {
					case isByteSlice(f.elem):
						ev = st.newBytes(st.content(ev.(Slice)))
					default:
						if pt, ok := under(f.elem).(*types.Pointer); ok {
							ev = Ptr{Ref: x.pbCopy(st, ev.(Ptr), pt.Elem(), depth+1)}
						}
					}
					st.Store(elemPtr(r, Int(j), f.elem), f.elem, ev)
				}
				st.Store(np, ft, Slice{r, Int(0), Int(k), Int(k)})
				continue
			}
			st.Store(np, ft, x.pbCopyRep(st, s, f.elem))
		}
	}
	return n
}

// pbCopyRep copies a repeated field of symbolic length: a new backing array whose message elements
// are new objects; one level of their scalar contents is copied by quantified facts.
func (x *Exec) pbCopyRep(st *State, s Slice, et types.Type) Val {
	old := st.curTop()
	oldMem := map[string]*Term{}
	for k, v := range st.mem {
		oldMem[k] = v
	}
	st.top = FreshInt("top", old.lo, nil)
	st.allocN = 0
	st.assume(Ge(st.top, Add(old, Int(2))))
	r := old
	ref := Ite(Gt(s.Len, Int(0)), r, Int(0))
	ns := Slice{ref, Int(0), s.Len, s.Len}
	pt, ok := under(et).(*types.Pointer)
	if !ok {
		for c := range compSorts(et) {
			si, _ := x.inner(st, s.Ref, et, c)
			x.setInner(st, r, et, c, copyInner(st, Fresh("arr", si.sort), Int(0), si, s.Off, s.Len))
		}
		return ns
	}
	in, _ := x.inner(st, r, et, 0)
	src, _ := x.inner(st, s.Ref, et, 0)
	o := oracle
	oracle = nil
	defer func() { oracle = o }()
	q := BoundVar(nil, nil)
	x.pbElem(st, []*Term{q}, And(Le(Int(0), q), Lt(q, s.Len)), Select(in, q), Select(src, Add(s.Off, q)), old, pt.Elem(), r, q, 0)
	return ns
}

// pbElem states, for all values of vars in range rng, that message e is a new object owned by
// own at index ix and, if s is given, that its fields have the values of s's fields. The memory maps
// are unchanged: new references were never written, so facts about their initial contents may
// simply be assumed. Owner and index make distinct positions distinct objects.
func (x *Exec) pbElem(st *State, vars []*Term, rng, e, s, old *Term, t types.Type, own, ix *Term, depth int) {
	c := And(x.pbNew(st, e, old, own, ix), Ne(e, Int(0)))
	if s != nil { // nil elements are not representable
		c = And(c, Ne(s, Int(0)))
	}
	st.assume(forallPN(vars, Implies(rng, c), e))
	x.pbFacts(st, vars, rng, e, s, old, t, depth)
}

func (x *Exec) pbNew(st *State, a, old, own, ix *Term) *Term {
	return And(Gt(Root(a), old), Lt(Root(a), st.top), Eq(Root(a), a), Eq(UF("pbown", "Int", a), own), Eq(UF("pbix", "Int", a), ix))
}

func (x *Exec) pbFacts(st *State, vars []*Term, rng, e, s, old *Term, t types.Type, depth int) {
	asm := func(c *Term, p *Term) { st.assume(forallPN(vars, Implies(rng, c), p)) }
	ld := func(key, srt string, r *Term) *Term { return Select(st.m(key, srt), r) }
	same := func(keys, sorts []string, i int, fe, fs *Term) *Term {
		if s == nil {
			return TTrue
		}
		return Eq(ld(keys[i], sorts[i], fe), ld(keys[i], sorts[i], fs))
	}
	for _, f := range pbFields(t) {
		fp, ft := fieldPtr(e, t, f.idx)
		var sr *Term
		if s != nil {
			sp, _ := fieldPtr(s, t, f.idx)
			sr = sp.Ref
		}
		id := Int(int64(-1 - f.idx))
		keys, sorts := leafKeys(fp, ft)
		switch f.kind {
		case pbPlain, pbOther:
			if s == nil {
				continue
			}
			for i := range keys {
				asm(same(keys, sorts, i, fp.Ref, sr), ld(keys[i], sorts[i], fp.Ref))
			}
		case pbScalar, pbMsg:
			a := ld(keys[0], sorts[0], fp.Ref)
			nn := Ne(a, Int(0))
			c := Implies(nn, x.pbNew(st, a, old, e, id))
			var b *Term
			if s != nil {
				b = ld(keys[0], sorts[0], sr)
				c = And(c, Eq(Eq(a, Int(0)), Eq(b, Int(0))))
			}
			if f.kind == pbScalar && s != nil {
				ck, cs := leafKeys(Ptr{Ref: a}, f.elem)
				c = And(c, Implies(nn, Eq(ld(ck[0], cs[0], a), ld(ck[0], cs[0], b))))
			}
			asm(c, a)
			if f.kind == pbMsg && depth < 3 {
				x.pbFacts(st, vars, And(rng, nn), a, b, old, f.elem, depth+1)
			}
		case pbBytes:
			ar, ao, al, ac := ld(keys[0], sorts[0], fp.Ref), ld(keys[1], sorts[1], fp.Ref), ld(keys[2], sorts[2], fp.Ref), ld(keys[3], sorts[3], fp.Ref)
			c := And(Eq(ao, Int(0)), Eq(al, ac), Ge(al, Int(0)), Implies(Ne(ar, Int(0)), And(x.pbNew(st, ar, old, e, id), Eq(Blen(ld(keyB, sortB, ar)), al))), Implies(Eq(ar, Int(0)), Eq(al, Int(0))))
			if s != nil {
				br, bo, bl := ld(keys[0], sorts[0], sr), ld(keys[1], sorts[1], sr), ld(keys[2], sorts[2], sr)
				c = And(c, Eq(Eq(ar, Int(0)), Eq(br, Int(0))), Eq(al, bl), Implies(Ne(ar, Int(0)), Eq(ld(keyB, sortB, ar), mk(OSub, "B", "", nil, nil, ld(keyB, sortB, br), bo, Add(bo, bl)))))
			}
			asm(c, ar)
		case pbRep:
			ar, ao, al, ac := ld(keys[0], sorts[0], fp.Ref), ld(keys[1], sorts[1], fp.Ref), ld(keys[2], sorts[2], fp.Ref), ld(keys[3], sorts[3], fp.Ref)
			c := And(Eq(ao, Int(0)), Eq(al, ac), Ge(al, Int(0)), Le(al, IntBig(maxLen)), Implies(Ne(ar, Int(0)), x.pbNew(st, ar, old, e, id)), Implies(Eq(ar, Int(0)), Eq(al, Int(0))))
			if s != nil {
				c = And(c, same(keys, sorts, 2, fp.Ref, sr))
			}
			asm(c, ar)
			pt, ok := under(f.elem).(*types.Pointer)
			if !ok || depth >= 3 {
				continue
			}
			q := BoundVar(nil, nil)
			in, _ := x.inner(st, ar, f.elem, 0)
			var se *Term
			if s != nil {
				src, _ := x.inner(st, ld(keys[0], sorts[0], sr), f.elem, 0)
				se = Select(src, Add(ld(keys[1], sorts[1], sr), q))
			}
			nv := append(append([]*Term{}, vars...), q)
			x.pbElem(st, nv, And(rng, Le(Int(0), q), Lt(q, al)), Select(in, q), se, old, pt.Elem(), ar, q, depth+1)
		}
	}
}
