package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- values ----

type Val interface{}

// scalars (ints, bools, strings, floats, byte arrays) are *Term

type PtrKind uint8

const (
	PObj   PtrKind = iota // reference to an object
	PField                // leaf field of a struct object
	PElem                 // element of a non-byte, non-aggregate backing array
	PByte                 // byte inside a byte object
)

type Ptr struct {
	Ref  *Term
	Kind PtrKind
	Key  string
	Idx  *Term
}

type Slice struct{ Ref, Off, Len, Cap *Term }

type Iface struct {
	Tag, Pay *Term
	Typ      types.Type // dynamic type when known
	V        Val
}

type Struct struct{ F []Val }
type Arr struct{ E []Val }
type Tuple []Val
type MapV struct{ Ref *Term }
type FuncV struct {
	Fn    *ssa.Function
	Binds []Val
	ID    *Term
	Recv  Val // bound method receiver value (interface method values)
}
type RangeIter struct {
	M    Val
	Str  bool
	Done *Term
	Pos  *Term
	Cell *Term // reference of an allocated iteration counter
}

// ---- state ----

type deferred struct {
	fn   *ssa.Function
	call *ssa.CallCommon
	args []Val
	fv   Val
}

type Frame struct {
	fn       *ssa.Function
	env      map[ssa.Value]Val
	block    *ssa.BasicBlock
	prev     *ssa.BasicBlock
	ip       int
	defers   []deferred
	call     ssa.Value // call instruction in caller that receives the result (nil: discard)
	mode     string    // "", "assume" (contract used at a call site), "pure"
	contract *contractCtx
	loops    map[*ssa.BasicBlock]*loopCtx
	runDef   bool
	after    func(st *State, res Val) []*State
	unroll   map[*ssa.BasicBlock]int
	depth    int
}

type contractCtx struct {
	target *ssa.Function
	done   bool
	pre    map[string]*Term // memory before the call (assume mode)
	preTop *Term
	args   []Val
}

type State struct {
	frames  []*Frame
	pc      []*Term
	mem     map[string]*Term
	top     *Term
	allocN  int64
	wf      map[int]bool
	facts   map[int]bool
	branch  []*Term // branch decisions only (subset of pc)
	trace   []string
	globals map[*ssa.Global]bool
	ghost   map[string]Val
	dead    bool
	qborn   int // >0: inside a quantified formula whose bound symbol was made at this stamp
	steps   int
	init    map[string]*Term // memory at wrapper entry
	logN    int
	logI    int // index of the interference / havoc log
}

func (st *State) clone() *State {
	n := &State{qborn: st.qborn, pc: st.pc[:len(st.pc):len(st.pc)], top: st.top, allocN: st.allocN, branch: st.branch[:len(st.branch):len(st.branch)],
		trace: st.trace[:len(st.trace):len(st.trace)], steps: st.steps, init: st.init}
	n.mem = make(map[string]*Term, len(st.mem))
	for k, v := range st.mem {
		n.mem[k] = v
	}
	n.wf = make(map[int]bool, len(st.wf))
	for k := range st.wf {
		n.wf[k] = true
	}
	n.facts = make(map[int]bool, len(st.facts))
	for k := range st.facts {
		n.facts[k] = true
	}
	n.globals = make(map[*ssa.Global]bool, len(st.globals))
	for k := range st.globals {
		n.globals[k] = true
	}
	n.ghost = make(map[string]Val, len(st.ghost))
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	for _, f := range st.frames {
		g := *f
		g.env = make(map[ssa.Value]Val, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]deferred{}, f.defers...)
		g.loops = map[*ssa.BasicBlock]*loopCtx{}
		for k, v := range f.loops {
			g.loops[k] = v
		}
		g.unroll = map[*ssa.BasicBlock]int{}
		for k, v := range f.unroll {
			g.unroll[k] = v
		}
		n.frames = append(n.frames, &g)
	}
	return n
}

func (st *State) top1() *Frame { return st.frames[len(st.frames)-1] }

// assume adds a fact to the path condition.
func (st *State) assume(t *Term) {
	if t == TTrue || st.facts[t.id] {
		return
	}
	if t == TFalse {
		st.dead = true
	}
	if t.op == OAnd {
		for _, a := range t.args {
			st.assume(a)
		}
		return
	}
	st.facts[t.id] = true
	st.pc = append(st.pc, t)
}

func (st *State) assumeBranch(t *Term) {
	if t == TTrue {
		return
	}
	st.branch = append(st.branch, t)
	st.assume(t)
}

func (st *State) alloc() *Term {
	r := Add(st.top, Int(st.allocN))
	st.allocN++
	return r
}

// curTop is a bound above every reference allocated so far.
func (st *State) curTop() *Term { return Add(st.top, Int(st.allocN)) }

// ---- types ----

func under(t types.Type) types.Type { return t.Underlying() }

func isByteType(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

func isByteSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	return ok && isByteType(s.Elem())
}

func isByteArray(t types.Type) bool {
	s, ok := under(t).(*types.Array)
	return ok && isByteType(s.Elem())
}

// aggregate: stored at its own reference rather than as a leaf
func isAgg(t types.Type) bool {
	switch under(t).(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

var typeKeyCache = map[types.Type]string{}

var aliasWords = regexp.MustCompile(`\b(any|byte|rune)\b`)

func typeKey(t types.Type) string {
	if s, ok := typeKeyCache[t]; ok {
		return s
	}
	s := types.TypeString(types.Unalias(t), nil)
	s = aliasWords.ReplaceAllStringFunc(s, func(w string) string {
		switch w {
		case "any":
			return "interface{}"
		case "byte":
			return "uint8"
		}
		return "int32"
	})
	typeKeyCache[t] = s
	return s
}

func structKey(t types.Type) string { return typeKey(t) }

var typeIDs = map[string]int{}
var typeByID = map[int]types.Type{}

func typeID(t types.Type) int {
	k := typeKey(t)
	if id, ok := typeIDs[k]; ok {
		return id
	}
	id := len(typeIDs) + 1
	typeIDs[k] = id
	typeByID[id] = t
	return id
}

var fldIDs = map[string]int{}

func fldID(k string) int {
	if id, ok := fldIDs[k]; ok {
		return id
	}
	id := len(fldIDs) + 1
	fldIDs[k] = id
	return id
}

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb {
		return nil, nil, false
	}
	p := func(n uint) *big.Int { return new(big.Int).Lsh(bigOne, n) }
	s := func(n uint) (*big.Int, *big.Int, bool) {
		return new(big.Int).Neg(p(n - 1)), new(big.Int).Sub(p(n-1), bigOne), true
	}
	u := func(n uint) (*big.Int, *big.Int, bool) { return bigZero, new(big.Int).Sub(p(n), bigOne), true }
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return s(64)
	case types.Int8:
		return s(8)
	case types.Int16:
		return s(16)
	case types.Int32, types.UntypedRune:
		return s(32)
	case types.Uint, types.Uint64, types.Uintptr:
		return u(64)
	case types.Uint8:
		return u(8)
	case types.Uint16:
		return u(16)
	case types.Uint32:
		return u(32)
	}
	return nil, nil, false
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// compSorts lists the SMT components of a leaf type.
func compSorts(t types.Type) []string {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return []string{"Bool"}
		}
		if u.Info()&types.IsString != 0 {
			return []string{"B"}
		}
		return []string{"Int"}
	case *types.Slice:
		return []string{"Int", "Int", "Int", "Int"}
	case *types.Interface:
		return []string{"Int", "Int"}
	case *types.Array:
		if isByteArray(t) {
			return []string{"B"}
		}
	}
	if isAgg(t) {
		panic(unsupported("component of aggregate %s", typeKey(t)))
	}
	return []string{"Int"}
}

type unsupportedErr struct{ msg string }

func unsupported(f string, a ...interface{}) unsupportedErr {
	if len(a) == 0 {
		return unsupportedErr{f}
	}
	return unsupportedErr{fmt.Sprintf(f, a...)}
}

// ---- memory ----

// memory maps by name; created on demand.
func (st *State) m(key, srt string) *Term {
	if t, ok := st.mem[key]; ok {
		return t
	}
	t := NamedVar("M0:"+key, srt)
	st.mem[key] = t
	return t
}

func leafMapSort(kind PtrKind, comp string) string {
	if kind == PElem {
		return ArrSort("Int", ArrSort("Int", comp))
	}
	return ArrSort("Int", comp)
}

func leafKeys(p Ptr, t types.Type) (keys []string, sorts []string) {
	cs := compSorts(t)
	base := ""
	switch p.Kind {
	case PField:
		base = "F:" + p.Key
	case PElem:
		base = "E:" + typeKey(t)
	default:
		base = "C:" + typeKey(t)
	}
	for i, c := range cs {
		k := base
		if len(cs) > 1 {
			k = fmt.Sprintf("%s#%d", base, i)
		}
		if i == 0 && isRefKind(t) {
			refKeys[sanitize(k)] = true
		}
		keys = append(keys, k)
		sorts = append(sorts, leafMapSort(p.Kind, c))
	}
	return
}

// refKeys: memory maps that hold references.
var refKeys = map[string]bool{}

// mapKeyOf: the map key of an arbitrary memory ("M0..." and havocked ones).
func mapKeyOf(m *Term) string {
	n := m.name
	if strings.HasPrefix(n, "M0~3a~") {
		n = n[6:]
	} else if strings.HasPrefix(n, "H~3a~") {
		n = n[5:]
		if i := strings.LastIndexByte(n, '!'); i >= 0 {
			n = n[:i]
		}
	} else {
		return ""
	}
	return n
}

func refMap(m *Term) bool {
	if m.op != OVar {
		return false
	}
	k := mapKeyOf(m)
	if k == "" {
		return false
	}
	return refKeys[k]
}

func isRefKind(t types.Type) bool {
	switch under(t).(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan:
		return true
	}
	return false
}

func memTop(m *Term) *Term {
	if strings.HasPrefix(m.name, "M0~3a~") {
		return Int(initTop)
	}
	return mapTop[m]
}

const keyB = "B"

var sortB = ArrSort("Int", "B")

// bytesAt is the contents of a byte object.
func (st *State) bytesAt(ref *Term) *Term { return Select(st.m(keyB, sortB), ref) }
func (st *State) setBytes(ref, v *Term) {
	st.mem[keyB] = Store(st.m(keyB, sortB), ref, v)
}

// fieldPtr gives the address of field i of the struct of type t at ref.
func fieldPtr(ref *Term, t types.Type, i int) (Ptr, types.Type) {
	s := under(t).(*types.Struct)
	f := s.Field(i)
	key := fmt.Sprintf("%s.%s", structKey(t), f.Name())
	if f.Name() == "_" {
		key = fmt.Sprintf("%s._%d", structKey(t), i)
	}
	if isAgg(f.Type()) {
		if i == 0 && f.Embedded() {
			// still its own reference: fld is injective
		}
		return Ptr{Ref: Fld(fldID(key), ref)}, f.Type()
	}
	return Ptr{Ref: ref, Kind: PField, Key: key}, f.Type()
}

// elemPtr gives the address of element idx (absolute index) of a backing array with element type t.
func elemPtr(ref, idx *Term, t types.Type) Ptr {
	if isByteType(t) {
		return Ptr{Ref: ref, Kind: PByte, Idx: idx}
	}
	if isAgg(t) {
		return Ptr{Ref: Elem(ref, idx)}
	}
	return Ptr{Ref: ref, Kind: PElem, Idx: idx}
}

func (st *State) Load(p Ptr, t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Struct:
		s := Struct{F: make([]Val, u.NumFields())}
		for i := range s.F {
			fp, ft := fieldPtr(p.Ref, t, i)
			s.F[i] = st.Load(fp, ft)
		}
		return s
	case *types.Array:
		if isByteArray(t) {
			v := st.bytesAt(p.Ref)
			if v.op == OSelect {
				st.assume(Eq(Blen(v), Int(u.Len())))
			}
			return v
		}
		if u.Len() > 128 {
			panic(unsupported("large array load"))
		}
		a := Arr{E: make([]Val, u.Len())}
		for i := range a.E {
			a.E[i] = st.Load(elemPtr(p.Ref, Int(int64(i)), u.Elem()), u.Elem())
		}
		return a
	}
	if p.Kind == PByte {
		return Bat(st.bytesAt(p.Ref), p.Idx)
	}
	keys, sorts := leafKeys(p, t)
	comps := make([]*Term, len(keys))
	for i := range keys {
		m := st.m(keys[i], sorts[i])
		if p.Kind == PElem {
			comps[i] = Select(Select(m, p.Ref), p.Idx)
		} else {
			comps[i] = Select(m, p.Ref)
		}
	}
	v := unflat(comps, t)
	st.wellFormed(v, t)
	return v
}

func (st *State) Store(p Ptr, t types.Type, v Val) {
	switch u := under(t).(type) {
	case *types.Struct:
		s := v.(Struct)
		for i := range s.F {
			fp, ft := fieldPtr(p.Ref, t, i)
			st.Store(fp, ft, s.F[i])
		}
		return
	case *types.Array:
		if isByteArray(t) {
			st.setBytes(p.Ref, v.(*Term))
			return
		}
		for i, e := range v.(Arr).E {
			st.Store(elemPtr(p.Ref, Int(int64(i)), u.Elem()), u.Elem(), e)
		}
		return
	}
	if p.Kind == PByte {
		b := st.bytesAt(p.Ref)
		st.setBytes(p.Ref, Cat(SubB(b, Int(0), p.Idx), Unit(v.(*Term)), SubB(b, Add(p.Idx, Int(1)), Blen(b))))
		return
	}
	comps := st.flat(v, t)
	keys, sorts := leafKeys(p, t)
	if len(keys) != len(comps) {
		panic(unsupported("store of a %T as %s", v, t))
	}
	for i := range keys {
		m := st.m(keys[i], sorts[i])
		if p.Kind == PElem {
			st.mem[keys[i]] = Store(m, p.Ref, Store(Select(m, p.Ref), p.Idx, comps[i]))
		} else {
			st.mem[keys[i]] = Store(m, p.Ref, comps[i])
		}
	}
}

var funcTab []FuncV

// flat turns a leaf value into its components.
func (st *State) flat(v Val, t types.Type) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case Ptr:
		if x.Kind != PObj {
			if x.Kind == PElem {
				// address of a leaf array element escaping to memory
			}
			panic(unsupported("interior pointer stored to memory (%s %s)", x.Key, typeKey(t)))
		}
		return []*Term{x.Ref}
	case Slice:
		return []*Term{x.Ref, x.Off, x.Len, x.Cap}
	case MapV:
		return []*Term{x.Ref}
	case FuncV:
		if x.Fn == nil && x.ID != nil {
			return []*Term{x.ID}
		}
		if x.Fn == nil {
			return []*Term{Int(0)}
		}
		for i, f := range funcTab {
			if f.Fn == x.Fn && sameVals(f.Binds, x.Binds) {
				return []*Term{Int(int64(i + 1))}
			}
		}
		funcTab = append(funcTab, x)
		return []*Term{Int(int64(len(funcTab)))}
	case Iface:
		return []*Term{x.Tag, st.payload(x)}
	}
	panic(unsupported("flat %T", v))
}

func sameVals(a, b []Val) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if fmt.Sprintf("%v", a[i]) != fmt.Sprintf("%v", b[i]) {
			return false
		}
	}
	return true
}

// payload boxes the dynamic value of an interface.
func (st *State) payload(x Iface) *Term {
	if x.Pay != nil {
		return x.Pay
	}
	if p, ok := x.V.(Ptr); ok {
		if p.Kind == PObj {
			return p.Ref
		}
	}
	switch v := x.V.(type) {
	case MapV:
		return v.Ref
	case *Term:
		// boxed scalars: value-functional so that equal values are equal
		switch v.sort {
		case "Int":
			return UF("boxI", "Int", v)
		case "B":
			return UF("boxB", "Int", v)
		case "Bool":
			return Ite(v, Int(1), Int(0))
		}
	}
	r := st.alloc()
	st.Store(Ptr{Ref: r}, x.Typ, x.V)
	return r
}

func init() {
	// boxes are injective; encoded by inverse functions
	extraAxioms["boxI"] = "(declare-fun unboxI (Int) Int)\n(assert (forall ((x Int)) (! (= (unboxI (|boxI| x)) x) :pattern ((|boxI| x)))))"
	extraAxioms["boxB"] = "(declare-fun unboxB (Int) B)\n(assert (forall ((x B)) (! (= (unboxB (|boxB| x)) x) :pattern ((|boxB| x)))))"
	ufSimp["unboxI"] = func(a []*Term) *Term {
		if a[0].op == OUF && a[0].name == "boxI" {
			return a[0].args[0]
		}
		return nil
	}
	ufSimp["unboxB"] = func(a []*Term) *Term {
		if a[0].op == OUF && a[0].name == "boxB" {
			return a[0].args[0]
		}
		return nil
	}
	predeclared["unboxI"] = true
	predeclared["unboxB"] = true
}

func unflat(c []*Term, t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Basic:
		if lo, hi, ok := intRange(t); ok && c[0].lo == nil && c[0].hi == nil {
			c[0].lo, c[0].hi = lo, hi
		}
		return c[0]
	case *types.Slice:
		return Slice{c[0], c[1], c[2], c[3]}
	case *types.Pointer, *types.Chan:
		return Ptr{Ref: c[0]}
	case *types.Map:
		return MapV{c[0]}
	case *types.Signature:
		_ = u
		if c[0].isConst() {
			k := c[0].k.Int64()
			if k == 0 {
				return FuncV{}
			}
			if int(k) <= len(funcTab) {
				return funcTab[k-1]
			}
		}
		return FuncV{ID: c[0]}
	case *types.Interface:
		i := Iface{Tag: c[0], Pay: c[1]}
		return i
	case *types.Array:
		return c[0]
	}
	panic(unsupported("unflat %s", typeKey(t)))
}

// resolve fills in the dynamic type of an interface with a constant tag.
func (st *State) resolve(i Iface) Iface {
	if i.Typ != nil || !i.Tag.isConst() || i.Tag.k.Sign() == 0 {
		return i
	}
	t := typeByID[int(i.Tag.k.Int64())]
	if t == nil {
		return i
	}
	i.Typ = t
	i.V = st.unbox(i.Pay, t)
	return i
}

func (st *State) unbox(pay *Term, t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Pointer, *types.Chan:
		return Ptr{Ref: pay}
	case *types.Map:
		return MapV{pay}
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return Eq(pay, Int(1))
		}
		if u.Info()&types.IsString != 0 {
			return UF("unboxB", "B", pay)
		}
		r := UF("unboxI", "Int", pay)
		if lo, hi, ok := intRange(t); ok && r.lo == nil && r.hi == nil {
			r.lo, r.hi = lo, hi
		}
		return r
	}
	return st.Load(Ptr{Ref: pay}, t)
}

// wellFormed adds the type invariants of a value read from memory or received as input.
func (st *State) wellFormed(v Val, t types.Type) {
	switch x := v.(type) {
	case *Term:
		if x.op == OSelect || x.op == OVar {
			if x.sort == "B" {
				if a, ok := under(t).(*types.Array); ok {
					st.assume(Eq(Blen(x), Int(a.Len())))
				}
			}
		}
	case Ptr:
		st.wfRef(x.Ref)
	case MapV:
		st.wfRef(x.Ref)
	case Iface:
		if !x.Tag.isConst() {
			if st.wf[x.Tag.id] {
				return
			}
			st.wf[x.Tag.id] = true
			st.assume(Ge(x.Tag, Int(0)))
			st.assume(Implies(Eq(x.Tag, Int(0)), Eq(x.Pay, Int(0))))
			st.assume(Lt(Root(x.Pay), st.curTop()))
		}
	case Slice:
		if x.Len.isConst() && x.Cap.isConst() && x.Off.isConst() {
			return
		}
		if st.wf[x.Len.id] && st.wf[x.Cap.id] {
			return
		}
		st.wf[x.Len.id] = true
		st.wf[x.Cap.id] = true
		if st.qborn > 0 && x.Ref.born >= st.qborn && x.Ref.op == OSelect {
			m := x.Ref
			for m.op == OSelect {
				m = m.args[0]
			}
			if refMap(m) {
				setRange(x.Len, bigZero, maxLen)
				setRange(x.Cap, bigZero, maxLen)
				setRange(x.Off, bigZero, maxLen)
				return // the axioms of the map cover it
			}
		}
		setRange(x.Len, bigZero, maxLen)
		setRange(x.Cap, bigZero, maxLen)
		setRange(x.Off, bigZero, maxLen)
		st.wfRef(x.Ref)
		st.assume(Ge(x.Len, Int(0)))
		st.assume(Le(x.Len, x.Cap))
		st.assume(Ge(x.Off, Int(0)))
		z := Eq(x.Ref, Int(0))
		st.assume(Implies(z, And(Eq(x.Len, Int(0)), Eq(x.Cap, Int(0)), Eq(x.Off, Int(0)))))
		if isByteSlice(t) {
			st.assume(Implies(Not(z), Le(Add(x.Off, x.Cap), Blen(st.bytesAt(x.Ref)))))
		}
	}
}

func setRange(t *Term, lo, hi *big.Int) {
	if t.isConst() || t.op == OLin || t.op == OUF {
		return
	}
	if t.lo == nil && t.hi == nil {
		t.lo, t.hi = lo, hi
	}
}

// mapTop: allocation bound at the time an arbitrary memory was introduced.
var mapTop = map[*Term]*Term{}

func (st *State) wfRef(r *Term) {
	if isAllocBase(r) || r.isConst() || st.wf[r.id] {
		return
	}
	if r.op == OUF {
		return
	}
	st.wf[r.id] = true
	// interior pointers are below -2*10^9, initialisation-time objects between that and zero
	top := st.curTop()
	// what a memory held when it was made is older than that
	if m := r; m.op == OSelect {
		for m.op == OSelect {
			m = m.args[0]
		}
		if m.op == OVar {
			if t := memTop(m); t != nil {
				if (r.bound || st.qborn > 0 && r.born >= st.qborn) && refMap(m) {
					return // the well-formedness axiom of the map says it
				}
				top = t
			}
		}
	}
	if top.isConst() && r.op != OLin {
		hi := new(big.Int).Sub(top.k, bigOne)
		if r.hi == nil || r.hi.Cmp(hi) > 0 {
			r.hi = hi
		}
		if rt := Root(r); rt != r && (rt.hi == nil || rt.hi.Cmp(hi) > 0) {
			rt.hi = hi
		}
	} else {
		st.assume(Lt(r, top))
	}
	st.assume(Or(Ge(r, Int(0)), Lt(r, Int(-2000000000))))
	st.assume(Lt(Root(r), top))
	st.assume(Ge(Root(r), Int(0)))
	st.assume(Eq(Eq(Root(r), Int(0)), Eq(r, Int(0))))
}

// zero value of a type
func zero(t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return TFalse
		}
		if u.Info()&types.IsString != 0 {
			return TEmpty
		}
		if u.Kind() == types.UntypedNil {
			return Ptr{Ref: Int(0)}
		}
		return Int(0)
	case *types.Pointer, *types.Chan:
		return Ptr{Ref: Int(0)}
	case *types.Slice:
		return Slice{Int(0), Int(0), Int(0), Int(0)}
	case *types.Map:
		return MapV{Int(0)}
	case *types.Signature:
		return FuncV{}
	case *types.Interface:
		return Iface{Tag: Int(0), Pay: Int(0)}
	case *types.Struct:
		s := Struct{F: make([]Val, u.NumFields())}
		for i := range s.F {
			s.F[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if isByteArray(t) {
			return Rep(Int(0), Int(u.Len()))
		}
		if u.Len() > 4096 {
			panic(unsupported("large array"))
		}
		a := Arr{E: make([]Val, u.Len())}
		for i := range a.E {
			a.E[i] = zero(u.Elem())
		}
		return a
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = zero(u.At(i).Type())
		}
		return tp
	}
	panic(unsupported("zero %s", typeKey(t)))
}

// symbolic makes an arbitrary value of a type; existing heap only.
func (st *State) symbolic(name string, t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Struct:
		s := Struct{F: make([]Val, u.NumFields())}
		for i := range s.F {
			s.F[i] = st.symbolic(name+"."+u.Field(i).Name(), u.Field(i).Type())
		}
		return s
	case *types.Array:
		if isByteArray(t) {
			b := Fresh(name, "B")
			st.assume(Eq(Blen(b), Int(u.Len())))
			return b
		}
		a := Arr{E: make([]Val, u.Len())}
		for i := range a.E {
			a.E[i] = st.symbolic(fmt.Sprintf("%s.%d", name, i), u.Elem())
		}
		return a
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = st.symbolic(fmt.Sprintf("%s.%d", name, i), u.At(i).Type())
		}
		return tp
	}
	cs := compSorts(t)
	comps := make([]*Term, len(cs))
	nm := []string{"", "off", "len", "cap"}
	for i, s := range cs {
		n := name
		if len(cs) > 1 && i > 0 {
			n = name + "." + nm[i]
		}
		comps[i] = Fresh(n, s)
	}
	if lo, hi, ok := intRange(t); ok {
		comps[0].lo, comps[0].hi = lo, hi
	}
	v := unflat(comps, t)
	st.wellFormed(v, t)
	return v
}

// contents of a byte slice value
func (st *State) content(s Slice) *Term {
	if s.Len.isConst() && s.Len.k.Sign() == 0 {
		return TEmpty
	}
	r := s.Ref
	if r.op == OIte && r.args[2].isConst() && r.args[2].k.Sign() == 0 {
		r = r.args[1] // nil otherwise, and then empty
	}
	return SubB(st.bytesAt(r), s.Off, Add(s.Off, s.Len))
}

// newBytes allocates a byte object holding v and returns a slice over it.
func (st *State) newBytes(v *Term) Slice {
	r := st.alloc()
	st.setBytes(r, v)
	l := Blen(v)
	return Slice{r, Int(0), l, l}
}

func memKeys(m map[string]*Term) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func trimPkg(s string) string {
	return strings.ReplaceAll(s, modPath+"/", "")
}
