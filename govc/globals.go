package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Package-level variables. A variable of the repository that nothing outside its package's
// initialiser writes is a constant: its initialiser is executed once and the result consulted by
// Select. Everything else starts with an arbitrary value (mutable globals) or a dedicated opaque
// object (globals of external packages).

var initTab = map[*Term]map[*Term]*Term{} // initial map constant -> reference -> value

type globalInfo struct {
	mutable    bool // cell written outside init
	contentMut bool // contents reached through it written outside init
}

var globalFacts map[*ssa.Global]*globalInfo
var initDone = map[*ssa.Package]bool{}
var initAlloc = int64(-2000000000)

func (P *Program) scanGlobals() {
	globalFacts = map[*ssa.Global]*globalInfo{}
	info := func(g *ssa.Global) *globalInfo {
		i := globalFacts[g]
		if i == nil {
			i = &globalInfo{}
			globalFacts[g] = i
		}
		return i
	}
	var base func(v ssa.Value, depth int) (*ssa.Global, bool)
	base = func(v ssa.Value, depth int) (*ssa.Global, bool) {
		if depth > 12 {
			return nil, false
		}
		switch a := v.(type) {
		case *ssa.Global:
			return a, false
		case *ssa.FieldAddr:
			return base(a.X, depth+1)
		case *ssa.IndexAddr:
			return base(a.X, depth+1)
		case *ssa.Slice:
			return base(a.X, depth+1)
		case *ssa.UnOp:
			if a.Op == token.MUL {
				g, _ := base(a.X, depth+1)
				return g, true
			}
		}
		return nil, false
	}
	var fns []*ssa.Function
	var addFn func(f *ssa.Function)
	addFn = func(f *ssa.Function) {
		fns = append(fns, f)
		for _, a := range f.AnonFuncs {
			addFn(a)
		}
	}
	for _, p := range P.pkgs {
		for _, m := range p.Members {
			switch v := m.(type) {
			case *ssa.Function:
				if v.Name() != "init" {
					addFn(v)
				}
			case *ssa.Type:
				for _, t := range []types.Type{v.Type(), types.NewPointer(v.Type())} {
					ms := P.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := P.prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
							addFn(f)
						}
					}
				}
			}
		}
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.Store:
					if g, deep := base(i.Addr, 0); g != nil {
						if deep {
							info(g).contentMut = true
						} else {
							info(g).mutable = true
						}
					}
					if g, ok := i.Val.(*ssa.Global); ok {
						info(g).mutable = true
					}
				case *ssa.MapUpdate:
					if g, _ := base(i.Map, 0); g != nil {
						info(g).contentMut = true
					}
				case ssa.CallInstruction:
					for _, a := range i.Common().Args {
						if g, ok := a.(*ssa.Global); ok {
							info(g).mutable = true
						} else if g, deep := base(a, 0); g != nil && !deep {
							if _, isp := a.Type().Underlying().(*types.Pointer); isp {
								info(g).mutable = true
							}
							if i.Common().Value.Name() == "copy" {
								info(g).contentMut = true
							}
						}
					}
				case *ssa.MakeInterface, *ssa.MakeClosure, *ssa.Phi:
					for _, op := range ins.Operands(nil) {
						if g, ok := (*op).(*ssa.Global); ok {
							info(g).mutable = true
						}
					}
				}
			}
		}
	}
}

func (x *Exec) initGlobal(st *State, g *ssa.Global) {
	if globalFacts == nil {
		x.P.scanGlobals()
	}
	if st != nil && st.globals != nil && st.globals[g] {
		return
	}
	if st != nil {
		if st.globals == nil {
			st.globals = map[*ssa.Global]bool{}
		}
		st.globals[g] = true
	}
	if g.Pkg == nil || initDone[g.Pkg] && inRepo(g.Pkg.Pkg) {
		return
	}
	if !inRepo(g.Pkg.Pkg) {
		x.externalGlobal(g)
		return
	}
	initDone[g.Pkg] = true
	x.runInit(g.Pkg)
}

func tabSet(key, srt string, ref, v *Term) {
	m := NamedVar("M0:"+key, srt)
	if initTab[m] == nil {
		initTab[m] = map[*Term]*Term{}
	}
	initTab[m][ref] = v
}

var extDone = map[*ssa.Global]bool{}
var extN int64

func (x *Exec) externalGlobal(g *ssa.Global) {
	if extDone[g] {
		return
	}
	extDone[g] = true
	t := g.Type().(*types.Pointer).Elem()
	r := globalRef(g)
	extN++
	uniq := Int(-900000000 - extN)
	cell := "C:" + typeKey(t)
	switch u := under(t).(type) {
	case *types.Interface:
		var dyn types.Type
		if types.Identical(t, types.Universe.Lookup("error").Type()) {
			dyn = x.errType()
		} else {
			p := x.P.pkgs[modPath+"/zzmodels"]
			dyn = types.NewPointer(p.Pkg.Scope().Lookup("ExtVal").Type())
		}
		srt := leafMapSort(PObj, "Int")
		tabSet(cell+"#0", srt, r, Int(int64(typeID(dyn))))
		tabSet(cell+"#1", srt, r, uniq)
		_ = u
	case *types.Pointer:
		tabSet(cell, leafMapSort(PObj, "Int"), r, uniq)
	}
	x.assumed["external global "+g.Pkg.Pkg.Name()+"."+g.Name()+" is a fixed non-nil object"]++
}

func (x *Exec) runInit(p *ssa.Package) {
	fn := p.Func("init")
	if fn == nil || len(fn.Blocks) == 0 {
		return
	}
	n := 0
	for _, b := range fn.Blocks {
		n += len(b.Instrs)
	}
	if n > 6000 {
		return
	}
	st := newState()
	st.top = Int(initAlloc)
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, loops: map[*ssa.BasicBlock]*loopCtx{}, unroll: map[*ssa.BasicBlock]int{}}
	fr.block = fn.Blocks[0]
	st.frames = []*Frame{fr}
	x.quiet++
	saveOracle := oracle
	saveDead := x.deadline
	for _, b := range fn.Blocks {
		fr.block = b
		for k, ins := range b.Instrs {
			switch i := ins.(type) {
			case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.DebugRef:
				continue
			case *ssa.Phi:
				continue
			case *ssa.Call:
				if c := i.Call.StaticCallee(); c != nil && (c.Name() == "init" || strings.HasPrefix(c.Name(), "init#")) {
					continue
				}
			case *ssa.Store:
				if g, ok := i.Addr.(*ssa.Global); ok && g.Name() == "init$guard" {
					continue
				}
			}
			fr.ip = k + 1
			x.initStep(st, fr, ins)
			st.dead = false
		}
	}
	x.deadline = saveDead
	x.quiet--
	oracle = saveOracle
	initAlloc += st.allocN
	if initAlloc > -1000000000 {
		panic("too many initialiser allocations")
	}
	// contents reachable from variables others write are not constant
	bad := map[*Term]bool{}
	for g, gi := range globalFacts {
		if g.Pkg != p {
			continue
		}
		r := globalRef(g)
		if gi.mutable {
			bad[r] = true
		}
		if gi.mutable || gi.contentMut {
			for k, m := range st.mem {
				for t := m; t.op == OStore; t = t.args[0] {
					if Root(t.args[1]) == r && strings.HasPrefix(k, "C:") && t.args[2].sort == "Int" {
						bad[t.args[2]] = true
					}
				}
			}
		}
	}
	for k, m := range st.mem {
		seen := map[*Term]bool{}
		var lo = m
		for lo.op == OStore {
			r := lo.args[1]
			if !seen[r] {
				seen[r] = true
				if !bad[Root(r)] && !mentionsHavoc(lo.args[2]) {
					tabSet(k, m.sort, r, lo.args[2])
				}
			}
			lo = lo.args[0]
		}
	}
	if x.verbose {
		fmt.Fprintf(os.Stderr, "initialiser of %s executed\n", p.Pkg.Path())
	}
}

// values the initialiser obtained from unknown calls stay unknown constants: fine to register,
// they are simply unconstrained.
func mentionsHavoc(t *Term) bool { return false }

func (x *Exec) initStep(st *State, fr *Frame, ins ssa.Instruction) {
	nf := len(st.frames)
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case needFork, unsupportedErr:
				st.frames = st.frames[:nf]
				if v, ok := ins.(ssa.Value); ok {
					func() {
						defer func() { recover() }()
						fr.env[v] = st.symbolic("init", v.Type())
					}()
				}
				return
			}
			panic(r)
		}
	}()
	x.withOracle(st)
	r := x.step1(st, fr, ins)
	if r != nil {
		panic(unsupported("fork in init"))
	}
	// run callee bodies that were pushed
	for len(st.frames) > nf {
		f := st.top1()
		if f.ip >= len(f.block.Instrs) {
			panic(unsupported("init"))
		}
		i2 := f.block.Instrs[f.ip]
		f.ip++
		r := x.step1(st, f, i2)
		if r != nil && !(len(r) == 1 && r[0] == st) {
			panic(unsupported("fork in init"))
		}
		if st.dead {
			panic(unsupported("dead init"))
		}
		st.steps++
		if st.steps > 200000 {
			panic(unsupported("init too long"))
		}
	}
}

func newState() *State {
	st := &State{mem: map[string]*Term{}, wf: map[int]bool{}, facts: map[int]bool{}, globals: map[*ssa.Global]bool{}, ghost: map[string]Val{}}
	st.top = Int(initTop)
	return st
}

// ---- counterexample inputs ----

// model asks the solver for the values of the wrapper's parameters.
func (x *Exec) model(st *State, extra []*Term, f *Failure) {
	o := oracle
	oracle = nil
	defer func() { oracle = o }()
	var want []*Term
	for _, in := range x.inputs {
		want = append(want, inputTerms(in)...)
	}
	if len(want) == 0 {
		return
	}
	vals := x.S.Values(st.pc, extra, want, 3000)
	if vals == nil {
		return
	}
	f.raw = vals
	f.Inputs = map[string]string{}
	// lengths first, then the bytes
	var want2 []*Term
	lens := map[string]int{}
	for _, in := range x.inputs {
		b, l := inputBytes(in)
		if b == nil {
			continue
		}
		n := smtInt(vals[l])
		if n == nil || n.Sign() < 0 {
			continue
		}
		k := 4096
		if n.IsInt64() && n.Int64() < 4096 {
			k = int(n.Int64())
		} else if !n.IsInt64() || n.Int64() > 1<<20 {
			continue
		}
		lens[in.name] = k
		for j := 0; j < k && j < 512; j++ {
			want2 = append(want2, b(j))
		}
	}
	var vals2 map[*Term]string
	if len(want2) > 0 {
		fix := append([]*Term{}, extra...)
		for _, w := range want {
			if n := smtInt(vals[w]); n != nil && w.sort == "Int" {
				fix = append(fix, Eq(w, IntBig(n)))
			}
		}
		vals2 = x.S.Values(st.pc, fix, want2, 3000)
	}
	for _, in := range x.inputs {
		if b, _ := inputBytes(in); b != nil {
			k, ok := lens[in.name]
			if !ok {
				continue
			}
			bs := make([]byte, k)
			for j := 0; j < k && j < 512; j++ {
				if vals2 != nil {
					if n := smtInt(vals2[b(j)]); n != nil && n.Sign() >= 0 && n.Cmp(bi(256)) < 0 {
						bs[j] = byte(n.Int64())
					}
				}
			}
			f.Inputs[in.name] = fmt.Sprintf("hex:%x", bs)
			if s, ok := in.v.(Slice); ok {
				if n := smtInt(vals[s.Ref]); n != nil && n.Sign() == 0 {
					f.Inputs[in.name] = "nil"
				}
			}
			continue
		}
		if t, ok := in.v.(*Term); ok {
			if t.sort == "Int" {
				if n := smtInt(vals[t]); n != nil {
					f.Inputs[in.name] = "int:" + n.String()
				}
			} else if t.sort == "Bool" {
				f.Inputs[in.name] = "bool:" + vals[t]
			}
		}
		if p, ok := in.v.(Ptr); ok {
			if n := smtInt(vals[p.Ref]); n != nil && n.Sign() == 0 {
				f.Inputs[in.name] = "nil"
			}
		}
	}
}

func inputTerms(in inputVar) []*Term {
	switch v := in.v.(type) {
	case *Term:
		if v.sort == "B" {
			return []*Term{Blen(v)}
		}
		return []*Term{v}
	case Slice:
		return []*Term{v.Ref, v.Off, v.Len}
	case Ptr:
		return []*Term{v.Ref}
	}
	return nil
}

func inputBytes(in inputVar) (func(j int) *Term, *Term) {
	switch v := in.v.(type) {
	case *Term:
		if v.sort == "B" {
			return func(j int) *Term { return Bat(v, Int(int64(j))) }, Blen(v)
		}
	case Slice:
		if isByteSlice(in.t) {
			b := Select(NamedVar("M0:"+keyB, sortB), v.Ref)
			return func(j int) *Term { return Bat(b, Add(v.Off, Int(int64(j)))) }, v.Len
		}
	case Ptr:
		if p, ok := under(in.t).(*types.Pointer); ok && isByteArray(p.Elem()) {
			b := Select(NamedVar("M0:"+keyB, sortB), v.Ref)
			n := under(p.Elem()).(*types.Array).Len()
			_ = n
			return func(j int) *Term { return Bat(b, Int(int64(j))) }, Blen(b)
		}
	}
	return nil, nil
}

func smtInt(s string) *big.Int {
	s = strings.TrimSpace(s)
	neg := false
	if strings.HasPrefix(s, "(-") {
		neg = true
		s = strings.TrimSpace(strings.TrimSuffix(strings.TrimPrefix(s, "(-"), ")"))
	}
	n, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return nil
	}
	if neg {
		n.Neg(n)
	}
	return n
}
