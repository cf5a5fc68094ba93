package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Obligation aggregates the verification conditions generated under one name.
type Obligation struct {
	Name       string
	Kind       string
	VCs        int
	Discharged int
	By         map[string]int
	Failed     []*Failure
	Reached    bool
}

type Failure struct {
	Obl    string
	Where  string
	Answer string // sat / unknown
	Trace  []string
	Goal   string
	PC     []string
	Inputs map[string]string
	Reason string
	raw    map[*Term]string
}

type Exec struct {
	P             *Program
	S             *Solver
	wrapper       *ssa.Function
	target        *ssa.Function
	obls          map[string]*Obligation
	oblOrder      []string
	quiet         int
	modular       map[*ssa.Function]*ssa.Function // target -> contract wrapper usable at call sites
	unrolls       map[string]int
	invs          map[string]*ssa.Function
	inputs        []inputVar
	assumed       map[string]int // assumptions relied on (models, unknown externals, ...)
	inlined       map[string]int
	contracts     map[string]int // callee contracts used at call sites
	paths         int
	maxPaths      int
	limits        []string // tool limits hit
	deadline      time.Time
	loopInfo      map[*ssa.Function]map[*ssa.BasicBlock]*loopT
	covers        map[string]bool
	hardTime      time.Duration
	cexDone       bool
	mutable       map[*ssa.Global]bool
	bounded       []string
	verbose       bool
	loopsCut      map[string]int
	loopsUnrolled map[string]int
	pureDepth     int
	replayed      bool
	wframe        *Frame
	failFast      bool
}

type inputVar struct {
	name string
	t    types.Type
	v    Val
}

type loopT struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	ord    int
}

func (x *Exec) loops(fn *ssa.Function) map[*ssa.BasicBlock]*loopT {
	if l, ok := x.loopInfo[fn]; ok {
		return l
	}
	res := map[*ssa.BasicBlock]*loopT{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := res[s]
				if l == nil {
					l = &loopT{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					res[s] = l
				}
				var st []*ssa.BasicBlock
				if !l.body[b] {
					l.body[b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					c := st[len(st)-1]
					st = st[:len(st)-1]
					for _, p := range c.Preds {
						if !l.body[p] {
							l.body[p] = true
							st = append(st, p)
						}
					}
				}
			}
		}
	}
	var hs []*ssa.BasicBlock
	for h := range res {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Index < hs[j].Index })
	for i, h := range hs {
		res[h].ord = i
	}
	x.loopInfo[fn] = res
	return res
}

// ---- obligations ----

func (x *Exec) obl(name, kind string) *Obligation {
	o := x.obls[name]
	if o == nil {
		o = &Obligation{Name: name, Kind: kind, By: map[string]int{}}
		x.obls[name] = o
		x.oblOrder = append(x.oblOrder, name)
	}
	return o
}

func (x *Exec) valid(st *State, t *Term, ms int) bool {
	if t == TTrue {
		return true
	}
	if st.facts[t.id] {
		return true
	}
	if st.facts[Not(t).id] {
		return false
	}
	return x.query(st, []*Term{Not(t)}, ms) == "unsat"
}

func (x *Exec) query(st *State, extra []*Term, ms int) string {
	for _, e := range extra {
		if e == TFalse {
			return "unsat"
		}
	}
	o := oracle
	oracle = nil
	defer func() { oracle = o }()
	return x.S.Check(st.pc, extra, ms)
}

// withOracle lets the term constructors decide side conditions under st's path condition.
func (x *Exec) withOracle(st *State) {
	cache := map[int]bool{}
	n := len(st.pc)
	oracle = func(t *Term) bool {
		if st.facts[t.id] {
			return true
		}
		if len(st.pc) != n {
			n = len(st.pc)
			for k, v := range cache {
				if !v {
					delete(cache, k)
				}
			}
		}
		if r, ok := cache[t.id]; ok {
			return r
		}
		r := x.query(st, []*Term{Not(t)}, 400) == "unsat"
		cache[t.id] = r
		return r
	}
}

var dumpN int

// oblige records and checks a proof obligation; afterwards the condition is assumed.
func (x *Exec) oblige(st *State, name, kind string, cond *Term, where string) {
	if x.quiet > 0 {
		st.assume(cond)
		if cond != TTrue && x.query(st, nil, 300) == "unsat" {
			st.dead = true
		}
		return
	}
	o := x.obl(name, kind)
	o.VCs++
	if cond == TTrue || st.facts[cond.id] {
		o.Discharged++
		o.By["simplifier"]++
		return
	}
	neg := Not(cond)
	extra := []*Term{neg}
	extra = append(extra, extFacts(neg, relatedLits(cond, st.pc)...)...)
	res := "unknown"
	by := ""
	reason := ""
	if cond != TFalse || true {
		t0 := time.Now()
		res = x.query(st, extra, 3000)
		reason = x.S.Reason
		by = "z3-new (incremental)"
		if res == "unknown" && cond.op == OAnd && len(cond.args) > 1 {
			// a conjunction the solver cannot settle at once is settled part by part
			o.VCs--
			for _, c := range cond.args {
				x.oblige(st, name, kind, c, where)
				if st.dead {
					break
				}
			}
			return
		}
		if res != "unsat" && !(res == "sat") && len(o.Failed) < 2 {
			// check plain feasibility of the path first: dead paths need no proof
			save := oracle
			oracle = nil
			r2, b2 := Portfolio(st.pc, extra, x.hardTime)
			oracle = save
			if r2 == "unsat" {
				res, by = r2, b2
			} else if r2 == "sat" {
				res = "sat"
			}
		}
		if x.verbose && time.Since(t0) > 2*time.Second {
			fmt.Fprintf(os.Stderr, "  slow obligation %s: %v %s\n", name, time.Since(t0).Round(time.Millisecond), res)
		}
	}
	if res == "unsat" {
		o.Discharged++
		o.By[by]++
		st.assume(cond)
		return
	}
	if d := os.Getenv("GOVC_DUMP"); d != "" {
		dumpN++
		os.WriteFile(fmt.Sprintf("%s/%03d.smt2", d, dumpN), []byte("; "+name+" at "+where+"\n"+script(st.pc, extra, false)), 0o644)
	}
	f := &Failure{Reason: reason, Obl: name, Where: where, Answer: res, Goal: cond.String(), Trace: append([]string{}, st.trace...)}
	for _, b := range st.branch {
		f.PC = append(f.PC, b.String())
	}
	if len(o.Failed) < 4 {
		x.model(st, extra, f)
	}
	o.Failed = append(o.Failed, f)
	st.assume(cond)
	if x.query(st, nil, 500) == "unsat" {
		st.dead = true
	}
}

// extFacts: extensionality instances for byte-string equalities inside a refuted goal.
// relatedLits: path facts that are applications of the boolean function the goal applies.
func relatedLits(c *Term, pc []*Term) []*Term {
	lit := func(t *Term) *Term {
		if t.op == ONot {
			t = t.args[0]
		}
		if t.op == OUF && t.sort == "Bool" && !predeclared[t.name] {
			return t
		}
		return nil
	}
	g := lit(c)
	if g == nil {
		return nil
	}
	var out []*Term
	for _, f := range pc {
		if l := lit(f); l != nil && l.name == g.name && l != g && len(out) < 4 {
			out = append(out, l)
		}
	}
	return out
}

func extFacts(t *Term, more ...*Term) []*Term {
	var out []*Term
	seen := map[int]bool{}
	done := map[[2]int]bool{}
	apps := map[string][]*Term{}
	var pair func(a, b *Term)
	pair = func(a, b *Term) {
		if a == b || a.bound || b.bound {
			return
		}
		if a.id > b.id {
			a, b = b, a
		}
		if done[[2]int{a.id, b.id}] || len(out) > 40 {
			return
		}
		done[[2]int{a.id, b.id}] = true
		save := oracle
		oracle = nil
		eq := Eq(a, b)
		if eq != TFalse && eq != TTrue {
			k := FreshInt("ext", nil, nil)
			out = append(out, Or(eq, Ne(Blen(a), Blen(b)), And(Le(Int(0), k), Lt(k, Blen(a)), Ne(mkbat(a, k), mkbat(b, k)))))
		}
		if eq != TFalse && !(eq.op == OEq && eq.args[0] == a || eq.op == OEq && eq.args[0] == b) {
			// equality settled part by part is equality of the whole (for congruence)
			out = append(out, Or(Not(eq), mk(OEq, "Bool", "", nil, nil, a, b)))
		}
		oracle = save
		if a.op == OUF && b.op == OUF && a.name == b.name {
			for i := range a.args {
				if a.args[i].sort == "B" {
					pair(a.args[i], b.args[i])
				}
			}
		}
	}
	var rec func(*Term)
	rec = func(u *Term) {
		if seen[u.id] || u.bound {
			return
		}
		seen[u.id] = true
		if u.op == OEq && u.args[0].sort == "B" {
			pair(u.args[0], u.args[1])
		}
		if u.op == OUF && !predeclared[u.name] {
			for _, w := range apps[u.name] {
				for i := range u.args {
					if u.args[i].sort == "B" && len(out) < 24 {
						pair(u.args[i], w.args[i])
					}
				}
			}
			apps[u.name] = append(apps[u.name], u)
		}
		for _, a := range u.args {
			rec(a)
		}
	}
	for _, m := range more {
		rec(m)
	}
	rec(t)
	return out
}

func mkbat(x, i *Term) *Term { return Bat(x, i) }

// ---- running ----

type stopFn func(st *State) bool

// explore runs states to completion, depth first. stop is asked at block entries.
func (x *Exec) explore(start []*State, onEnd func(st *State)) {
	work := append([]*State{}, start...)
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		if st.dead {
			continue
		}
		if time.Now().After(x.deadline) {
			x.limit("time budget exhausted in " + x.wname())
			return
		}
		if x.paths > x.maxPaths {
			x.limit("path budget exhausted in " + x.wname())
			return
		}
		next := x.safeRun(st)
		for i := len(next) - 1; i >= 0; i-- {
			n := next[i]
			if n.dead {
				continue
			}
			if len(n.frames) == 0 {
				x.paths++
				if onEnd != nil {
					onEnd(n)
				}
				continue
			}
			work = append(work, n)
		}
	}
}

func (x *Exec) wname() string {
	if x.wrapper == nil {
		return "?"
	}
	return x.wrapper.Name()
}

func (x *Exec) limit(s string) {
	for _, l := range x.limits {
		if l == s {
			return
		}
	}
	x.limits = append(x.limits, s)
}

func (x *Exec) safeRun(st *State) (next []*State) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				fr := st.top1()
				x.limit(fmt.Sprintf("unsupported: %s in %s", u.msg, trimPkg(fr.fn.String())))
				next = nil
				return
			}
			panic(r)
		}
	}()
	x.withOracle(st)
	return x.runUntilFork(st)
}

// runUntilFork executes st until it ends or forks.
func (x *Exec) runUntilFork(st *State) []*State {
	for {
		if st.dead {
			return nil
		}
		if len(st.frames) == 0 {
			return []*State{st}
		}
		st.steps++
		if st.steps > 400000 {
			panic(unsupported("step budget"))
		}
		fr := st.top1()
		if fr.ip >= len(fr.block.Instrs) {
			panic("fell off block")
		}
		ins := fr.block.Instrs[fr.ip]
		fr.ip++
		next := x.step(st, fr, ins)
		if next != nil {
			if len(next) == 1 && next[0] == st {
				continue
			}
			return next
		}
		if st.dead {
			return nil
		}
	}
}

var endPath = []*State{}

func pos(ins ssa.Instruction) string {
	p := ins.Parent().Prog.Fset.Position(ins.Pos())
	if !p.IsValid() {
		return trimPkg(ins.Parent().String())
	}
	f := p.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

// get evaluates an SSA operand.
func (x *Exec) get(st *State, fr *Frame, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return constVal(c)
	case *ssa.Function:
		return FuncV{Fn: c}
	case *ssa.Global:
		x.initGlobal(st, c)
		return Ptr{Ref: globalRef(c)}
	case *ssa.Builtin:
		return c
	}
	r, ok := fr.env[v]
	if !ok {
		panic(unsupported("value %s undefined", v.Name()))
	}
	return r
}

func constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	switch {
	case isBool(t):
		return BoolT(constant.BoolVal(c.Value))
	case isString(t):
		return Lit(constant.StringVal(c.Value))
	}
	switch c.Value.Kind() {
	case constant.Int:
		if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return UF("flt_"+c.Value.ExactString(), "Int")
		}
		k, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
		if ok {
			return IntBig(k)
		}
	case constant.Float:
		if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			i, _ := constant.Int64Val(constant.ToInt(c.Value))
			return Int(i)
		}
		return UF("flt_"+sanitize(c.Value.ExactString()), "Int")
	}
	panic(unsupported("constant %s", c))
}

var globalRefs = map[*ssa.Global]*Term{}

func globalRef(g *ssa.Global) *Term {
	if r, ok := globalRefs[g]; ok {
		return r
	}
	r := Int(int64(-1000 - len(globalRefs)))
	globalRefs[g] = r
	return r
}

func (x *Exec) set(fr *Frame, v ssa.Value, val Val) { fr.env[v] = val }

// branch splits a state on a condition; returns feasible sides (either may be nil).
func (x *Exec) branch(st *State, c *Term, what string) (yes, no *State) {
	if c == TTrue || st.facts[c.id] {
		return st, nil
	}
	if c == TFalse || st.facts[Not(c).id] {
		return nil, st
	}
	ry := x.query(st, []*Term{c}, 1500)
	if ry == "unsat" {
		st.assume(Not(c))
		return nil, st
	}
	rn := x.query(st, []*Term{Not(c)}, 1500)
	if rn == "unsat" {
		st.assume(c)
		return st, nil
	}
	n := st.clone()
	n.assumeBranch(Not(c))
	st.assumeBranch(c)
	if what != "" {
		st.trace = append(st.trace, what+":T")
		n.trace = append(n.trace, what+":F")
	}
	return st, n
}

// choose forks so that c becomes decided; used inside instruction semantics. It re-executes
// the current instruction in both children.
type needFork struct{ c *Term }

func (x *Exec) decide(st *State, c *Term) bool {
	if c == TTrue || st.facts[c.id] {
		return true
	}
	if c == TFalse || st.facts[Not(c).id] {
		return false
	}
	if x.query(st, []*Term{Not(c)}, 1500) == "unsat" {
		st.assume(c)
		return true
	}
	if x.query(st, []*Term{c}, 1500) == "unsat" {
		st.assume(Not(c))
		return false
	}
	panic(needFork{c})
}

func (x *Exec) step(st *State, fr *Frame, ins ssa.Instruction) (res []*State) {
	var saveMem map[string]*Term
	saveN := st.allocN
	needSave := false
	switch ins.(type) {
	case *ssa.Call, *ssa.Slice, *ssa.BinOp, *ssa.MakeSlice, *ssa.Convert, *ssa.TypeAssert, *ssa.Lookup, *ssa.UnOp, *ssa.IndexAddr, *ssa.Index, *ssa.Defer:
		needSave = true
	}
	if needSave {
		saveMem = make(map[string]*Term, len(st.mem))
		for k, v := range st.mem {
			saveMem[k] = v
		}
	}
	nfr := len(st.frames)
	defer func() {
		if r := recover(); r != nil {
			nf, ok := r.(needFork)
			if !ok {
				panic(r)
			}
			if !needSave || len(st.frames) != nfr {
				panic(unsupported("fork inside %T", ins))
			}
			st.mem = saveMem
			st.allocN = saveN
			fr.ip--
			n := st.clone()
			n.assumeBranch(Not(nf.c))
			st.assumeBranch(nf.c)
			w := pos(ins) + "?"
			st.trace = append(st.trace, w+"T")
			n.trace = append(n.trace, w+"F")
			res = []*State{st, n}
		}
	}()
	return x.step1(st, fr, ins)
}

func (x *Exec) step1(st *State, fr *Frame, ins ssa.Instruction) []*State {
	switch i := ins.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Phi:
		return nil // handled at block entry
	case *ssa.Alloc:
		t := i.Type().(*types.Pointer).Elem()
		r := st.alloc()
		if a, ok := under(t).(*types.Array); ok && !isByteType(a.Elem()) {
			x.zeroArr(st, r, a)
		} else {
			st.Store(Ptr{Ref: r}, t, zero(t))
		}
		x.set(fr, i, Ptr{Ref: r})
	case *ssa.BinOp:
		x.set(fr, i, x.binop(st, i, i.Op, x.get(st, fr, i.X), x.get(st, fr, i.Y), i.X.Type(), i.Y.Type(), i.Type()))
	case *ssa.UnOp:
		return x.unop(st, fr, i)
	case *ssa.ChangeType:
		x.set(fr, i, x.get(st, fr, i.X))
	case *ssa.ChangeInterface:
		x.set(fr, i, x.get(st, fr, i.X))
	case *ssa.MakeInterface:
		x.set(fr, i, x.mkIface(x.get(st, fr, i.X), i.X.Type()))
	case *ssa.MakeClosure:
		f := FuncV{Fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			f.Binds = append(f.Binds, x.get(st, fr, b))
		}
		x.set(fr, i, f)
	case *ssa.MakeMap:
		r := st.alloc()
		mt := under(i.Type()).(*types.Map)
		x.mapInit(st, r, mt)
		x.set(fr, i, MapV{r})
	case *ssa.MakeChan:
		x.set(fr, i, Ptr{Ref: st.alloc()})
	case *ssa.MakeSlice:
		n := x.get(st, fr, i.Len).(*Term)
		c := x.get(st, fr, i.Cap).(*Term)
		x.panicCheck(st, ins, "makeslice: len out of range", And(Ge(n, Int(0)), Le(n, c)))
		if st.dead {
			return endPath
		}
		r := st.alloc()
		et := under(i.Type()).(*types.Slice).Elem()
		if isByteType(et) {
			st.setBytes(r, Rep(Int(0), c))
		} else {
			x.zeroBacking(st, r, et, c)
		}
		x.set(fr, i, Slice{r, Int(0), n, c})
	case *ssa.Slice:
		x.set(fr, i, x.sliceOp(st, fr, i))
		if st.dead {
			return endPath
		}
	case *ssa.FieldAddr:
		p := x.get(st, fr, i.X).(Ptr)
		t := i.X.Type().Underlying().(*types.Pointer).Elem()
		x.nilCheck(st, ins, p.Ref)
		if st.dead {
			return endPath
		}
		fp, _ := fieldPtr(p.Ref, t, i.Field)
		x.set(fr, i, fp)
	case *ssa.Field:
		x.set(fr, i, x.get(st, fr, i.X).(Struct).F[i.Field])
	case *ssa.IndexAddr:
		idx := x.get(st, fr, i.Index).(*Term)
		switch v := x.get(st, fr, i.X).(type) {
		case Slice:
			x.panicCheck(st, ins, "index out of range", And(Ge(idx, Int(0)), Lt(idx, v.Len)))
			if st.dead {
				return endPath
			}
			et := under(i.X.Type()).(*types.Slice).Elem()
			x.set(fr, i, elemPtr(v.Ref, Add(v.Off, idx), et))
		case Ptr:
			at := under(under(i.X.Type()).(*types.Pointer).Elem()).(*types.Array)
			x.nilCheck(st, ins, v.Ref)
			x.panicCheck(st, ins, "index out of range", And(Ge(idx, Int(0)), Lt(idx, Int(at.Len()))))
			if st.dead {
				return endPath
			}
			x.set(fr, i, elemPtr(v.Ref, idx, at.Elem()))
		default:
			panic(unsupported("IndexAddr %T", v))
		}
	case *ssa.Index:
		idx := x.get(st, fr, i.Index).(*Term)
		switch v := x.get(st, fr, i.X).(type) {
		case *Term: // string or byte array
			x.panicCheck(st, ins, "index out of range", And(Ge(idx, Int(0)), Lt(idx, Blen(v))))
			if st.dead {
				return endPath
			}
			x.set(fr, i, Bat(v, idx))
		case Arr:
			if idx.isConst() {
				x.set(fr, i, v.E[idx.k.Int64()])
			} else {
				panic(unsupported("symbolic array index"))
			}
		default:
			panic(unsupported("Index %T", v))
		}
	case *ssa.Lookup:
		x.lookup(st, fr, i)
		if st.dead {
			return endPath
		}
	case *ssa.Range:
		v := x.get(st, fr, i.X)
		cell := st.alloc()
		st.Store(Ptr{Ref: cell}, types.Typ[types.Int], Int(0))
		x.set(fr, i, RangeIter{M: v, Str: isString(i.X.Type()), Cell: cell})
	case *ssa.Next:
		x.next(st, fr, i)
	case *ssa.Extract:
		x.set(fr, i, x.get(st, fr, i.Tuple).(Tuple)[i.Index])
	case *ssa.TypeAssert:
		x.typeAssert(st, fr, i)
		if st.dead {
			return endPath
		}
	case *ssa.Convert:
		x.set(fr, i, x.convert(st, x.get(st, fr, i.X), i.X.Type(), i.Type()))
	case *ssa.SliceToArrayPointer:
		s := x.get(st, fr, i.X).(Slice)
		at := under(i.Type().(*types.Pointer).Elem()).(*types.Array)
		x.panicCheck(st, ins, "slice to array", Ge(s.Len, Int(at.Len())))
		if !s.Off.isConst() || s.Off.k.Sign() != 0 {
			panic(unsupported("slice to array pointer at offset"))
		}
		x.set(fr, i, Ptr{Ref: s.Ref})
	case *ssa.Store:
		p := x.get(st, fr, i.Addr).(Ptr)
		x.nilCheck(st, ins, p.Ref)
		if st.dead {
			return endPath
		}
		st.Store(p, i.Val.Type(), x.get(st, fr, i.Val))
	case *ssa.MapUpdate:
		m := x.get(st, fr, i.Map).(MapV)
		x.panicCheck(st, ins, "assignment to entry in nil map", Ne(m.Ref, Int(0)))
		if st.dead {
			return endPath
		}
		x.mapStore(st, m, under(i.Map.Type()).(*types.Map), x.get(st, fr, i.Key), x.get(st, fr, i.Value))
	case *ssa.Send:
		x.assumedNote("channel send treated as no effect")
	case *ssa.Go:
		x.assumedNote("goroutine bodies started with go are not executed by the verifier")
	case *ssa.Select:
		return x.selectStmt(st, fr, i)
	case *ssa.Defer:
		d := deferred{call: &i.Call}
		d.fn = i.Call.StaticCallee()
		if d.fn == nil || i.Call.IsInvoke() {
			d.fv = x.get(st, fr, i.Call.Value)
		} else if _, ok := i.Call.Value.(*ssa.MakeClosure); ok {
			d.fv = x.get(st, fr, i.Call.Value)
		}
		for _, a := range i.Call.Args {
			d.args = append(d.args, x.get(st, fr, a))
		}
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			fr.ip-- // run again until none left
			return x.dispatch(st, fr, ins, nil, d.call, d.fn, d.fv, d.args)
		}
	case *ssa.Call:
		var args []Val
		for _, a := range i.Call.Args {
			args = append(args, x.get(st, fr, a))
		}
		var fv Val
		if i.Call.IsInvoke() || i.Call.StaticCallee() == nil {
			fv = x.get(st, fr, i.Call.Value)
		} else if _, ok := i.Call.Value.(*ssa.MakeClosure); ok {
			fv = x.get(st, fr, i.Call.Value)
		}
		return x.dispatch(st, fr, ins, i, &i.Call, i.Call.StaticCallee(), fv, args)
	case *ssa.Panic:
		x.panicCheck(st, ins, "explicit panic", TFalse)
		return endPath
	case *ssa.Jump:
		return x.enter(st, fr, fr.block.Succs[0])
	case *ssa.If:
		c := x.get(st, fr, i.Cond).(*Term)
		y, n := x.branch(st, c, pos(lastPos(ins)))
		var out []*State
		b := fr.block
		if y != nil {
			if !y.dead {
				f := y.top1()
				if r := x.enter(y, f, b.Succs[0]); r == nil {
					out = append(out, y)
				} else {
					out = append(out, r...)
				}
			}
		}
		if n != nil {
			if !n.dead {
				f := n.top1()
				if r := x.enter(n, f, b.Succs[1]); r == nil {
					out = append(out, n)
				} else {
					out = append(out, r...)
				}
			}
		}
		if len(out) == 1 && out[0] == st {
			return nil
		}
		if out == nil {
			out = endPath
		}
		return out
	case *ssa.Return:
		var v Val
		switch len(i.Results) {
		case 0:
		case 1:
			v = x.get(st, fr, i.Results[0])
		default:
			t := make(Tuple, len(i.Results))
			for k, r := range i.Results {
				t[k] = x.get(st, fr, r)
			}
			v = t
		}
		return x.ret(st, v)
	default:
		panic(unsupported("instruction %T", ins))
	}
	return nil
}

func lastPos(ins ssa.Instruction) ssa.Instruction {
	b := ins.Block()
	for k := len(b.Instrs) - 1; k >= 0; k-- {
		if b.Instrs[k].Pos().IsValid() {
			return b.Instrs[k]
		}
	}
	return ins
}

func (x *Exec) assumedNote(s string) { x.assumed[s]++ }

// ret pops a frame.
func (x *Exec) ret(st *State, v Val) []*State {
	fr := st.top1()
	for _, c := range fr.loops {
		if c.probe != nil { // analysis run of a loop body: a return leaves the loop
			return endPath
		}
	}
	st.frames = st.frames[:len(st.frames)-1]
	if fr.contract != nil && fr.mode == "assume" {
		v = fr.contract.result()
		if fr.contract.target != nil && !fr.contract.done {
			panic(unsupported("contract %s did not call its target", fr.fn.Name()))
		}
	}
	if fr.after != nil {
		return fr.after(st, v)
	}
	if len(st.frames) == 0 {
		st.ghost["ret"] = v
		return []*State{st}
	}
	if fr.call != nil {
		st.top1().env[fr.call] = v
	}
	return nil
}

func (c *contractCtx) result() Val {
	if len(c.args) == 0 {
		return nil
	}
	return c.args[0]
}

// push enters a function body.
func (x *Exec) push(st *State, fn *ssa.Function, args []Val, binds []Val, call ssa.Value) *Frame {
	if len(st.frames) > 80 {
		panic(unsupported("call depth"))
	}
	rec := 0
	for _, f := range st.frames {
		if f.fn == fn {
			rec++
		}
	}
	if rec > 12 {
		panic(unsupported("recursion in %s", trimPkg(fn.String())))
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, call: call, loops: map[*ssa.BasicBlock]*loopCtx{}, unroll: map[*ssa.BasicBlock]int{}}
	if len(args) != len(fn.Params) {
		panic(unsupported("arity of %s", fn))
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = binds[i]
	}
	fr.block = fn.Blocks[0]
	st.frames = append(st.frames, fr)
	return fr
}

// ---- panics ----

func (x *Exec) mayPanic(st *State) bool {
	_, ok := st.ghost["maypanic"]
	return ok
}

func (x *Exec) panicCheck(st *State, ins ssa.Instruction, what string, ok *Term) {
	if ok == TTrue || st.facts[ok.id] {
		if x.quiet == 0 && !x.mayPanic(st) {
			o := x.obl("no-panic", "safety")
			o.VCs++
			o.Discharged++
			o.By["simplifier"]++
		}
		return
	}
	fn := trimPkg(ins.Parent().String())
	if x.mayPanic(st) || strings.Contains(fn, "zzspec") {
		st.assume(ok)
		if ok == TFalse || x.query(st, nil, 500) == "unsat" {
			st.dead = true
		}
		return
	}
	// contract code may use index expressions only where they are defined; keep them as obligations too
	x.oblige(st, "no-panic", "safety", ok, fmt.Sprintf("%s in %s at %s", what, fn, pos(ins)))
	if ok == TFalse {
		st.dead = true
	}
}

func (x *Exec) nilCheck(st *State, ins ssa.Instruction, ref *Term) {
	if ref.op == OConst && ref.k.Sign() != 0 {
		return
	}
	x.panicCheck(st, ins, "nil dereference", Ne(ref, Int(0)))
}

// ---- operators ----

func (x *Exec) wrap(st *State, t *Term, ty types.Type) *Term {
	lo, hi, ok := intRange(ty)
	if !ok {
		return t
	}
	if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
		return t
	}
	inr := And(Ge(t, IntBig(lo)), Le(t, IntBig(hi)))
	if inr == TTrue {
		return t
	}
	if inr != TFalse && x.valid(st, inr, 1000) {
		return t
	}
	m := new(big.Int).Add(new(big.Int).Sub(hi, lo), bigOne)
	if lo.Sign() == 0 {
		return ModT(t, IntBig(m))
	}
	return Add(ModT(Sub(t, IntBig(lo)), IntBig(m)), IntBig(lo))
}

func (x *Exec) binop(st *State, ins ssa.Instruction, op token.Token, a, b Val, at, bt, rt types.Type) Val {
	switch op {
	case token.EQL, token.NEQ:
		e := x.equal(st, a, b, at, bt)
		if op == token.NEQ {
			return Not(e)
		}
		return e
	}
	ta, ok1 := a.(*Term)
	tb, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		panic(unsupported("binop %s on %T", op, a))
	}
	if ta.sort == "B" {
		switch op {
		case token.ADD:
			return Cat(ta, tb)
		case token.LSS:
			return UF("strlt", "Bool", ta, tb)
		case token.GTR:
			return UF("strlt", "Bool", tb, ta)
		case token.LEQ:
			return Not(UF("strlt", "Bool", tb, ta))
		case token.GEQ:
			return Not(UF("strlt", "Bool", ta, tb))
		}
	}
	if bb, ok := under(at).(*types.Basic); ok && bb.Info()&types.IsFloat != 0 {
		if rt != nil && isBool(rt) {
			return UF("fcmp_"+op.String(), "Bool", ta, tb)
		}
		return UF("fop_"+op.String(), "Int", ta, tb)
	}
	switch op {
	case token.ADD:
		if b, ok := ins.(*ssa.BinOp); ok && tb == Int(1) {
			if p, ok := b.X.(*ssa.Phi); ok && p.Comment == "rangeindex" {
				return Add(ta, tb) // the index of a range statement stays within the length
			}
		}
		return x.wrap(st, Add(ta, tb), rt)
	case token.SUB:
		return x.wrap(st, Sub(ta, tb), rt)
	case token.MUL:
		return x.wrap(st, Mul(ta, tb), rt)
	case token.LSS:
		return Lt(ta, tb)
	case token.LEQ:
		return Le(ta, tb)
	case token.GTR:
		return Gt(ta, tb)
	case token.GEQ:
		return Ge(ta, tb)
	case token.QUO, token.REM:
		if ins != nil {
			x.panicCheck(st, ins, "division by zero", Ne(tb, Int(0)))
		}
		if ta.isConst() && tb.isConst() && tb.k.Sign() != 0 {
			if op == token.QUO {
				return x.wrap(st, IntBig(new(big.Int).Quo(ta.k, tb.k)), rt)
			}
			return IntBig(new(big.Int).Rem(ta.k, tb.k))
		}
		pos := (tb.lo != nil && tb.lo.Sign() > 0) || x.valid(st, Gt(tb, Int(0)), 500)
		if !pos {
			return UF("sdiv_"+op.String(), "Int", ta, tb)
		}
		nonneg := (ta.lo != nil && ta.lo.Sign() >= 0) || x.valid(st, Ge(ta, Int(0)), 500)
		if nonneg {
			if op == token.QUO {
				return DivT(ta, tb)
			}
			return ModT(ta, tb)
		}
		q := Ite(Ge(ta, Int(0)), DivT(ta, tb), Neg(DivT(Neg(ta), tb)))
		if op == token.QUO {
			return q
		}
		return Sub(ta, Mul(q, tb))
	case token.SHL:
		if tb.isConst() && tb.k.IsInt64() && tb.k.Int64() < 64 {
			return x.wrap(st, MulC(new(big.Int).Lsh(bigOne, uint(tb.k.Int64())), ta), rt)
		}
		return x.rng(UF("shl", "Int", ta, tb), rt)
	case token.SHR:
		if tb.isConst() && tb.k.IsInt64() && tb.k.Int64() < 64 {
			return DivT(ta, IntBig(new(big.Int).Lsh(bigOne, uint(tb.k.Int64()))))
		}
		return x.rng(UF("shr", "Int", ta, tb), rt)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return x.bitop(st, op, ta, tb, rt)
	}
	panic(unsupported("binop %s", op))
}

func (x *Exec) rng(t *Term, ty types.Type) *Term {
	if lo, hi, ok := intRange(ty); ok && t.op == OUF && t.lo == nil {
		t.lo, t.hi = lo, hi
	}
	return t
}

func andConst(a *Term, c *big.Int) *Term {
	// sum over runs of set bits of c
	r := Int(0)
	n := c.BitLen()
	i := 0
	for i < n {
		if c.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n && c.Bit(j) == 1 {
			j++
		}
		sh := new(big.Int).Lsh(bigOne, uint(i))
		ln := new(big.Int).Lsh(bigOne, uint(j-i))
		r = Add(r, MulC(sh, ModT(DivT(a, IntBig(sh)), IntBig(ln))))
		i = j
	}
	return r
}

func (x *Exec) bitop(st *State, op token.Token, a, b *Term, rt types.Type) *Term {
	if a.isConst() && b.isConst() && a.k.Sign() >= 0 && b.k.Sign() >= 0 {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(a.k, b.k)
		case token.OR:
			r.Or(a.k, b.k)
		case token.XOR:
			r.Xor(a.k, b.k)
		case token.AND_NOT:
			r.AndNot(a.k, b.k)
		}
		return IntBig(r)
	}
	if a.isConst() && op != token.AND_NOT {
		a, b = b, a
	}
	if b.isConst() && b.k.Sign() >= 0 && (a.lo != nil && a.lo.Sign() >= 0 || op == token.AND) {
		ac := andConst(a, b.k)
		switch op {
		case token.AND:
			return ac
		case token.OR:
			return Add(a, Sub(b, ac))
		case token.XOR:
			return Sub(Add(a, b), MulC(bi(2), ac))
		case token.AND_NOT:
			return Sub(a, ac)
		}
	}
	if op == token.OR || op == token.XOR {
		// disjoint bit ranges
		if r := disjoint(a, b); r != nil {
			return r
		}
		if r := disjoint(b, a); r != nil {
			return r
		}
	}
	for i := 0; i < 2; i++ {
		// one of them is 0 or a single bit
		if a.lo != nil && a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() == 0 && b.hi != nil && b.hi.Sign() > 0 && b.hi.TrailingZeroBits() == uint(b.hi.BitLen()-1) && singleBit(b, b.hi) {
			bit := andConst(a, b.hi)
			switch op {
			case token.OR:
				return Ite(Eq(b, Int(0)), a, Add(a, Sub(IntBig(b.hi), bit)))
			case token.AND:
				return Ite(Eq(b, Int(0)), Int(0), bit)
			}
		}
		if op == token.AND_NOT {
			break
		}
		a, b = b, a
	}
	if a.id > b.id && op != token.AND_NOT {
		a, b = b, a
	}
	if op == token.XOR && a == b {
		return Int(0)
	}
	if (op == token.AND || op == token.OR) && a == b {
		return a
	}
	return x.rng(UF(map[token.Token]string{token.AND: "bvand", token.OR: "bvor", token.XOR: "bvxor", token.AND_NOT: "bvandnot"}[op]+typeKey(rt), "Int", a, b), rt)
}

// singleBit: b is a multiple of m.
func singleBit(b *Term, m *big.Int) bool {
	kk, cs, _ := toLin(b)
	if _, r := floorDiv(kk, m); r.Sign() != 0 {
		return false
	}
	for _, c := range cs {
		if _, r := floorDiv(c, m); r.Sign() != 0 {
			return false
		}
	}
	return true
}

// disjoint: a < 2^k and b a nonnegative multiple of 2^k
func disjoint(a, b *Term) *Term {
	if a.lo == nil || a.hi == nil || a.lo.Sign() < 0 || b.lo == nil || b.lo.Sign() < 0 {
		return nil
	}
	k := uint(a.hi.BitLen())
	m := new(big.Int).Lsh(bigOne, k)
	kk, cs, _ := toLin(b)
	if _, r := floorDiv(kk, m); r.Sign() != 0 {
		return nil
	}
	for _, c := range cs {
		if _, r := floorDiv(c, m); r.Sign() != 0 {
			return nil
		}
	}
	return Add(a, b)
}

func (x *Exec) equal(st *State, a, b Val, at, bt types.Type) *Term {
	switch u := a.(type) {
	case *Term:
		if v, ok := b.(*Term); ok {
			return Eq(u, v)
		}
	case Ptr:
		if v, ok := b.(Ptr); ok {
			if u.Kind != v.Kind {
				return TFalse
			}
			e := Eq(u.Ref, v.Ref)
			if u.Kind == PField && u.Key != v.Key {
				return TFalse
			}
			if u.Idx != nil && v.Idx != nil {
				e = And(e, Eq(u.Idx, v.Idx))
			}
			return e
		}
	case Slice: // only comparable with nil
		return Eq(u.Ref, b.(Slice).Ref)
	case MapV:
		return Eq(u.Ref, b.(MapV).Ref)
	case FuncV:
		v := b.(FuncV)
		if u.Fn == nil && v.Fn == nil {
			f := func(w FuncV) *Term {
				if w.ID != nil {
					return w.ID
				}
				return Int(0)
			}
			return Eq(f(u), f(v))
		}
		return BoolT(u.Fn == v.Fn)
	case Iface:
		v, ok := b.(Iface)
		if !ok {
			v = x.mkIface(b, bt).(Iface)
		}
		if u.Tag.isConst() && u.Tag.k.Sign() == 0 || v.Tag.isConst() && v.Tag.k.Sign() == 0 {
			return Eq(u.Tag, v.Tag)
		}
		if Eq(u.Tag, v.Tag) == TFalse {
			return TFalse
		}
		if u.Typ != nil && v.Typ != nil && types.Identical(u.Typ, v.Typ) && u.V != nil && v.V != nil {
			return x.equal(st, u.V, v.V, u.Typ, v.Typ)
		}
		return And(Eq(u.Tag, v.Tag), Eq(st.payload(u), st.payload(v)))
	case Struct:
		v := b.(Struct)
		s := under(at).(*types.Struct)
		r := TTrue
		for i := range u.F {
			if s.Field(i).Name() == "_" {
				continue
			}
			r = And(r, x.equal(st, u.F[i], v.F[i], s.Field(i).Type(), s.Field(i).Type()))
		}
		return r
	case Arr:
		v := b.(Arr)
		r := TTrue
		et := under(at).(*types.Array).Elem()
		for i := range u.E {
			r = And(r, x.equal(st, u.E[i], v.E[i], et, et))
		}
		return r
	}
	if i, ok := b.(Iface); ok {
		return x.equal(st, x.mkIface(a, at), i, bt, bt)
	}
	panic(unsupported("comparison %T %T", a, b))
}

func (x *Exec) mkIface(v Val, t types.Type) Val {
	if i, ok := v.(Iface); ok {
		return i
	}
	return Iface{Tag: Int(int64(typeID(t))), Typ: t, V: v}
}

func (x *Exec) unop(st *State, fr *Frame, i *ssa.UnOp) []*State {
	v := x.get(st, fr, i.X)
	switch i.Op {
	case token.MUL:
		p := v.(Ptr)
		x.nilCheck(st, i, p.Ref)
		if st.dead {
			return endPath
		}
		x.set(fr, i, st.Load(p, i.Type()))
	case token.NOT:
		x.set(fr, i, Not(v.(*Term)))
	case token.SUB:
		if b, ok := under(i.Type()).(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			x.set(fr, i, UF("fneg", "Int", v.(*Term)))
		} else {
			x.set(fr, i, x.wrap(st, Neg(v.(*Term)), i.Type()))
		}
	case token.XOR:
		lo, hi, _ := intRange(i.Type())
		if lo.Sign() == 0 {
			x.set(fr, i, Sub(IntBig(hi), v.(*Term)))
		} else {
			x.set(fr, i, Sub(Int(-1), v.(*Term)))
		}
	case token.ARROW:
		x.assumedNote("channel receive yields an arbitrary value")
		t := i.X.Type().Underlying().(*types.Chan).Elem()
		r := st.symbolic("recv", t)
		if i.CommaOk {
			x.set(fr, i, Tuple{r, Fresh("recvok", "Bool")})
		} else {
			x.set(fr, i, r)
		}
	default:
		panic(unsupported("unop %s", i.Op))
	}
	return nil
}

func (x *Exec) sliceOp(st *State, fr *Frame, i *ssa.Slice) Val {
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return x.get(st, fr, v).(*Term)
	}
	lo, hi, max := opt(i.Low), opt(i.High), opt(i.Max)
	if lo == nil {
		lo = Int(0)
	}
	switch v := x.get(st, fr, i.X).(type) {
	case *Term: // string
		l := Blen(v)
		if hi == nil {
			hi = l
		}
		x.panicCheck(st, i, "slice bounds out of range", And(Ge(lo, Int(0)), Le(lo, hi), Le(hi, l)))
		if st.dead {
			return TEmpty
		}
		return SubB(v, lo, hi)
	case Slice:
		if hi == nil {
			hi = v.Len
		}
		c := v.Cap
		if max != nil {
			c = max
		}
		x.panicCheck(st, i, "slice bounds out of range", And(Ge(lo, Int(0)), Le(lo, hi), Le(hi, c), Le(c, v.Cap)))
		if st.dead {
			return v
		}
		return Slice{v.Ref, Add(v.Off, lo), Sub(hi, lo), Sub(c, lo)}
	case Ptr:
		at := under(under(i.X.Type()).(*types.Pointer).Elem()).(*types.Array)
		n := Int(at.Len())
		if hi == nil {
			hi = n
		}
		c := n
		if max != nil {
			c = max
		}
		x.nilCheck(st, i, v.Ref)
		x.panicCheck(st, i, "slice bounds out of range", And(Ge(lo, Int(0)), Le(lo, hi), Le(hi, c), Le(c, n)))
		if isByteType(at.Elem()) {
			b := st.bytesAt(v.Ref)
			if b.op == OSelect {
				st.assume(Eq(Blen(b), n))
			}
		}
		return Slice{v.Ref, lo, Sub(hi, lo), Sub(c, lo)}
	default:
		panic(unsupported("slice of %T", v))
	}
}

func (x *Exec) convert(st *State, v Val, from, to types.Type) Val {
	fb, fok := under(from).(*types.Basic)
	tb, tok := under(to).(*types.Basic)
	if t, ok := v.(*Term); ok && t.sort == "B" {
		if tok && tb.Info()&types.IsString != 0 {
			return t
		}
		if isByteSlice(to) {
			s := st.newBytes(t)
			return s
		}
		if _, ok := under(to).(*types.Slice); ok { // []rune
			x.assumedNote("[]rune conversion yields an arbitrary slice")
			return st.symbolic("runes", to)
		}
	}
	if s, ok := v.(Slice); ok && tok && tb.Info()&types.IsString != 0 {
		if isByteSlice(from) {
			return st.content(s)
		}
		return st.symbolic("runestr", to)
	}
	if fok && tok {
		t := v.(*Term)
		if tb.Info()&types.IsString != 0 { // string(rune)
			if t.hi != nil && t.hi.Cmp(bi(127)) <= 0 && t.lo != nil && t.lo.Sign() >= 0 {
				return Unit(t)
			}
			return UF("runestr", "B", t)
		}
		ff, tf := fb.Info()&types.IsFloat != 0, tb.Info()&types.IsFloat != 0
		switch {
		case ff && tf:
			return t
		case ff:
			return x.rng(UF("f2i_"+tb.String(), "Int", t), to)
		case tf:
			return UF("i2f", "Int", t)
		}
		if tb.Kind() == types.UnsafePointer || fb.Kind() == types.UnsafePointer {
			return t
		}
		return x.wrap(st, t, to)
	}
	return v
}

func (x *Exec) typeAssert(st *State, fr *Frame, i *ssa.TypeAssert) {
	v := st.resolve(x.get(st, fr, i.X).(Iface))
	if _, isI := under(i.AssertedType).(*types.Interface); isI {
		var ok *Term
		if v.Typ != nil {
			ok = BoolT(types.Implements(v.Typ, under(i.AssertedType).(*types.Interface)))
		} else if v.Tag.isConst() && v.Tag.k.Sign() == 0 {
			ok = TFalse
		} else {
			ok = UF("implements_"+typeKey(i.AssertedType), "Bool", v.Tag)
		}
		if i.CommaOk {
			if !x.decide(st, ok) {
				x.set(fr, i, Tuple{zero(i.AssertedType), TFalse})
				return
			}
			x.set(fr, i, Tuple{v, TTrue})
			return
		}
		x.panicCheck(st, i, "interface conversion", ok)
		x.set(fr, i, v)
		return
	}
	id := Int(int64(typeID(i.AssertedType)))
	is := Eq(v.Tag, id)
	if i.CommaOk {
		if !x.decide(st, is) {
			x.set(fr, i, Tuple{zero(i.AssertedType), TFalse})
			return
		}
	} else {
		x.panicCheck(st, i, "interface conversion", is)
		if st.dead {
			return
		}
	}
	var r Val
	if v.Typ != nil {
		r = v.V
	} else {
		r = st.unbox(v.Pay, i.AssertedType)
		st.wellFormed(r, i.AssertedType)
	}
	if i.CommaOk {
		x.set(fr, i, Tuple{r, TTrue})
	} else {
		x.set(fr, i, r)
	}
}

// ---- non-byte backing arrays ----

func (x *Exec) zeroArr(st *State, r *Term, a *types.Array) {
	x.zeroBacking(st, r, a.Elem(), Int(a.Len()))
}

func (x *Exec) zeroBacking(st *State, r *Term, et types.Type, n *Term) {
	if isAgg(et) {
		if n.isConst() && n.k.Cmp(bi(64)) <= 0 {
			for k := int64(0); k < n.k.Int64(); k++ {
				p := elemPtr(r, Int(k), et)
				if a, ok := under(et).(*types.Array); ok && !isByteType(a.Elem()) {
					x.zeroArr(st, p.Ref, a)
				} else {
					st.Store(p, et, zero(et))
				}
			}
			return
		}
		x.zeroAggs(st, r, et)
		return
	}
	comps := st.flat(zero(et), et)
	keys, sorts := leafKeys(Ptr{Ref: r, Kind: PElem, Idx: Int(0)}, et)
	for i := range keys {
		_, inner := arrSorts(sorts[i])
		st.mem[keys[i]] = Store(st.m(keys[i], sorts[i]), r, ConstArr(inner, comps[i]))
	}
}

// zeroAggs: elements of a fresh array of structs are zero (quantified fact about fresh memory).
func (x *Exec) zeroAggs(st *State, r *Term, et types.Type) {
	panic(unsupported("symbolic-length slice of %s", typeKey(et)))
}

// inner gives the element array (index -> value) of component c of backing r.
func (x *Exec) inner(st *State, r *Term, et types.Type, c int) (*Term, string) {
	keys, sorts := leafKeys(Ptr{Ref: r, Kind: PElem, Idx: Int(0)}, et)
	return Select(st.m(keys[c], sorts[c]), r), keys[c]
}
func (x *Exec) setInner(st *State, r *Term, et types.Type, c int, a *Term) {
	keys, sorts := leafKeys(Ptr{Ref: r, Kind: PElem, Idx: Int(0)}, et)
	st.mem[keys[c]] = Store(st.m(keys[c], sorts[c]), r, a)
}

// copyInner writes src[so:so+n] over dst[do:do+n] and returns the new element array.
func copyInner(st *State, dst *Term, do *Term, src *Term, so, n *Term) *Term {
	if n.isConst() && n.k.Cmp(bi(24)) <= 0 {
		r := dst
		vals := []*Term{}
		for k := int64(0); k < n.k.Int64(); k++ {
			vals = append(vals, Select(src, Add(so, Int(k))))
		}
		for k, v := range vals {
			r = Store(r, Add(do, Int(int64(k))), v)
		}
		return r
	}
	a := Fresh("arr", dst.sort)
	j := BoundVar(nil, nil)
	o := oracle
	oracle = nil
	in := And(Le(do, j), Lt(j, Add(do, n)))
	f := forallP(j, And(Implies(in, Eq(Select(a, j), Select(src, Add(so, Sub(j, do))))), Implies(Not(in), Eq(Select(a, j), Select(dst, j)))), Select(a, j))
	var g *Term
	if src.op != OStore && src.op != OIte && src != dst {
		i := BoundVar(nil, nil)
		if s := Select(src, i); s.op == OSelect {
			g = forallP(i, Implies(And(Le(so, i), Lt(i, Add(so, n))), Eq(s, Select(a, Add(do, Sub(i, so))))), s)
		}
	}
	oracle = o
	st.assume(f)
	if g != nil {
		st.assume(g)
	}
	return a
}

// ---- maps ----

func mapKeySort(mt *types.Map) string { return compSorts(mt.Key())[0] }

func mapNames(mt *types.Map) (dom string, domS string, vals []string, valS []string) {
	ks := mapKeySort(mt)
	n := typeKey(mt)
	dom = "MD:" + n
	domS = ArrSort("Int", ArrSort(ks, "Bool"))
	if !isAgg(mt.Elem()) {
		for i, s := range compSorts(mt.Elem()) {
			vals = append(vals, fmt.Sprintf("MV:%s#%d", n, i))
			valS = append(valS, ArrSort("Int", ArrSort(ks, s)))
		}
	} else { // aggregates are boxed
		vals = []string{fmt.Sprintf("MV:%s#0", n)}
		valS = []string{ArrSort("Int", ArrSort(ks, "Int"))}
	}
	return
}

func (x *Exec) mapInit(st *State, r *Term, mt *types.Map) {
	d, ds, _, _ := mapNames(mt)
	_, in := arrSorts(ds)
	st.mem[d] = Store(st.m(d, ds), r, ConstArr(in, TFalse))
	st.mem["ML"] = Store(st.m("ML", ArrSort("Int", "Int")), r, Int(0))
}

func (x *Exec) mapKey(st *State, mt *types.Map, k Val) *Term {
	if isAgg(mt.Key()) && !isByteArray(mt.Key()) {
		panic(unsupported("map key %s", typeKey(mt.Key())))
	}
	if i, ok := k.(Iface); ok {
		return st.payload(i)
	}
	return st.flat(k, mt.Key())[0]
}

func (x *Exec) mapLen(st *State, m MapV) *Term {
	t := Select(st.m("ML", ArrSort("Int", "Int")), m.Ref)
	setRange(t, bigZero, maxLen)
	st.assume(Ge(t, Int(0)))
	if m.Ref != Int(0) {
		return Ite(Eq(m.Ref, Int(0)), Int(0), t)
	}
	return Int(0)
}

func (x *Exec) mapStore(st *State, m MapV, mt *types.Map, k, v Val) {
	d, ds, vs, vss := mapNames(mt)
	kt := x.mapKey(st, mt, k)
	dm := st.m(d, ds)
	had := Select(Select(dm, m.Ref), kt)
	ml := st.m("ML", ArrSort("Int", "Int"))
	st.mem["ML"] = Store(ml, m.Ref, Add(Select(ml, m.Ref), Ite(had, Int(0), Int(1))))
	st.mem[d] = Store(dm, m.Ref, Store(Select(dm, m.Ref), kt, TTrue))
	var comps []*Term
	if isAgg(mt.Elem()) {
		r := st.alloc()
		st.Store(Ptr{Ref: r}, mt.Elem(), v)
		comps = []*Term{r}
	} else {
		comps = st.flat(v, mt.Elem())
	}
	for i := range vs {
		vm := st.m(vs[i], vss[i])
		st.mem[vs[i]] = Store(vm, m.Ref, Store(Select(vm, m.Ref), kt, comps[i]))
	}
}

func (x *Exec) mapDelete(st *State, m MapV, mt *types.Map, k Val) {
	d, ds, _, _ := mapNames(mt)
	kt := x.mapKey(st, mt, k)
	dm := st.m(d, ds)
	had := Select(Select(dm, m.Ref), kt)
	ml := st.m("ML", ArrSort("Int", "Int"))
	st.mem["ML"] = Store(ml, m.Ref, Sub(Select(ml, m.Ref), Ite(had, Int(1), Int(0))))
	st.mem[d] = Store(dm, m.Ref, Store(Select(dm, m.Ref), kt, TFalse))
}

func (x *Exec) mapGet(st *State, m MapV, mt *types.Map, k Val) (Val, *Term) {
	d, ds, vs, vss := mapNames(mt)
	kt := x.mapKey(st, mt, k)
	has := And(Ne(m.Ref, Int(0)), Select(Select(st.m(d, ds), m.Ref), kt))
	comps := make([]*Term, len(vs))
	for i := range vs {
		comps[i] = Select(Select(st.m(vs[i], vss[i]), m.Ref), kt)
	}
	if isAgg(mt.Elem()) {
		if !x.decide(st, has) {
			return zero(mt.Elem()), TFalse
		}
		return st.Load(Ptr{Ref: comps[0]}, mt.Elem()), TTrue
	}
	z := st.flat(zero(mt.Elem()), mt.Elem())
	v := unflat(comps, mt.Elem())
	st.wellFormed(v, mt.Elem())
	if has == TTrue {
		return v, has
	}
	if len(comps) > 1 || !(under(mt.Elem()) == types.Typ[types.Int]) {
		if !x.decide(st, has) {
			return zero(mt.Elem()), TFalse
		}
		return v, TTrue
	}
	out := make([]*Term, len(comps))
	for i := range comps {
		out[i] = Ite(has, comps[i], z[i])
	}
	return unflat(out, mt.Elem()), has
}

func (x *Exec) lookup(st *State, fr *Frame, i *ssa.Lookup) {
	v := x.get(st, fr, i.X)
	if s, ok := v.(*Term); ok { // string index
		idx := x.get(st, fr, i.Index).(*Term)
		x.panicCheck(st, i, "index out of range", And(Ge(idx, Int(0)), Lt(idx, Blen(s))))
		if st.dead {
			return
		}
		x.set(fr, i, Bat(s, idx))
		return
	}
	mt := under(i.X.Type()).(*types.Map)
	r, has := x.mapGet(st, v.(MapV), mt, x.get(st, fr, i.Index))
	if i.CommaOk {
		x.set(fr, i, Tuple{r, has})
	} else {
		x.set(fr, i, r)
	}
}

func (x *Exec) next(st *State, fr *Frame, i *ssa.Next) {
	it := x.get(st, fr, i.Iter).(RangeIter)
	tt := i.Type().(*types.Tuple)
	ok := Fresh("more", "Bool")
	if i.IsString {
		s := it.M.(*Term)
		posv := st.Load(Ptr{Ref: it.Cell}, types.Typ[types.Int]).(*Term)
		r := FreshInt("rune", bigZero, bi(0x10FFFF))
		w := FreshInt("runew", bigOne, bi(4))
		setRange(posv, bigZero, maxLen)
		st.assume(Eq(ok, Lt(posv, Blen(s))))
		st.assume(Implies(ok, And(Le(Add(posv, w), Blen(s)), Ge(posv, Int(0)))))
		b := Bat(s, posv)
		st.assume(Implies(ok, And(Implies(Lt(b, Int(128)), And(Eq(w, Int(1)), Eq(r, b))), Implies(Ge(b, Int(128)), Ge(r, Int(128))))))
		st.Store(Ptr{Ref: it.Cell}, types.Typ[types.Int], Ite(ok, Add(posv, w), posv))
		x.set(fr, i, Tuple{ok, posv, r})
		return
	}
	m := it.M.(MapV)
	_ = tt
	var mt *types.Map
	if rg, isr := i.Iter.(*ssa.Range); isr {
		mt = under(rg.X.Type()).(*types.Map)
	} else {
		panic(unsupported("range iterator"))
	}
	x.assumedNote("map iteration: each entry visited at most once is not tracked")
	k := st.symbolic("mapkey", mt.Key())
	d, ds, vs, vss := mapNames(mt)
	kt := x.mapKey(st, mt, k)
	st.assume(Implies(ok, And(Ne(m.Ref, Int(0)), Select(Select(st.m(d, ds), m.Ref), kt))))
	comps := make([]*Term, len(vs))
	for c := range vs {
		comps[c] = Select(Select(st.m(vs[c], vss[c]), m.Ref), kt)
	}
	var v Val
	if isAgg(mt.Elem()) {
		v = st.Load(Ptr{Ref: comps[0]}, mt.Elem())
	} else {
		v = unflat(comps, mt.Elem())
		st.wellFormed(v, mt.Elem())
	}
	x.set(fr, i, Tuple{ok, k, v})
}

func (x *Exec) selectStmt(st *State, fr *Frame, i *ssa.Select) []*State {
	x.assumedNote("select: any ready case may fire, received values arbitrary")
	tt := i.Type().(*types.Tuple)
	n := len(i.States)
	lo := int64(0)
	if !i.Blocking {
		lo = -1
	}
	idx := FreshInt("selidx", bi(lo), bi(int64(n-1)))
	st.assume(And(Ge(idx, Int(lo)), Lt(idx, Int(int64(n)))))
	tp := Tuple{idx, Fresh("selok", "Bool")}
	for k := 2; k < tt.Len(); k++ {
		tp = append(tp, st.symbolic("selrecv", tt.At(k).Type()))
	}
	x.set(fr, i, tp)
	return nil
}
