package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// dispatch executes a call. nil means: continue with st (result, if any, stored).
func (x *Exec) dispatch(st *State, fr *Frame, ins ssa.Instruction, res ssa.Value, cc *ssa.CallCommon, fn *ssa.Function, fv Val, args []Val) []*State {
	setRes := func(v Val) []*State {
		if res != nil {
			fr.env[res] = v
		}
		return nil
	}
	if cc.IsInvoke() {
		recv, ok := fv.(Iface)
		if !ok {
			panic(unsupported("invoke on %T", fv))
		}
		recv = st.resolve(recv)
		x.panicCheck(st, ins, "call on nil interface", Ne(recv.Tag, Int(0)))
		if st.dead {
			return endPath
		}
		if recv.Typ == nil {
			// try deciding the dynamic type by known facts
			return setRes(x.unknownInvoke(st, cc, recv, args))
		}
		m := x.P.prog.LookupMethod(recv.Typ, cc.Method.Pkg(), cc.Method.Name())
		if m == nil {
			panic(unsupported("method %s of %s", cc.Method.Name(), recv.Typ))
		}
		return x.callFn(st, fr, ins, res, m, append([]Val{recv.V}, args...), nil)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return setRes(x.builtin(st, ins, b.Name(), cc, args, res))
	}
	var binds []Val
	if f, ok := fv.(FuncV); ok {
		fn = f.Fn
		binds = f.Binds
		if fn == nil {
			if f.ID != nil {
				x.panicCheck(st, ins, "call of nil function", Ne(f.ID, Int(0)))
			} else {
				x.panicCheck(st, ins, "call of nil function", TFalse)
				return endPath
			}
			x.assumedNote("call through an unknown function value: arbitrary result, no effect on tracked state")
			x.logUnknown(st, "funcvalue", args)
			return setRes(st.symbolicRes("fv", cc.Signature().Results()))
		}
	}
	if fn == nil {
		panic(unsupported("dynamic call"))
	}
	return x.callFn(st, fr, ins, res, fn, args, binds)
}

func (st *State) symbolicRes(name string, r *types.Tuple) Val {
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return st.symbolic(name, r.At(0).Type())
	}
	return st.symbolic(name, r)
}

func (x *Exec) logUnknown(st *State, name string, args []Val) {}

func (x *Exec) unknownInvoke(st *State, cc *ssa.CallCommon, recv Iface, args []Val) Val {
	n := cc.Method.Name()
	if n == "Error" || n == "String" {
		return UF("iface_"+n, "B", recv.Tag, st.payload(recv))
	}
	x.assumedNote(fmt.Sprintf("interface method %s on an unknown implementation: arbitrary result", n))
	x.havocArgs(st, cc.Signature().Params(), args, 0)
	return st.symbolicRes("inv_"+n, cc.Signature().Results())
}

// callFn calls a known function.
func (x *Exec) callFn(st *State, fr *Frame, ins ssa.Instruction, res ssa.Value, fn *ssa.Function, args []Val, binds []Val) []*State {
	setRes := func(v Val) []*State {
		if res != nil {
			fr.env[res] = v
		}
		return nil
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Path()
	}
	if pkg == modPath+"/zzspec" {
		if out, done := x.specCall(st, fr, ins, res, fn, args); done {
			return out
		}
	}
	if pkg == modPath+"/zzmodels" {
		if out, done := x.modelIntrinsic(st, fr, ins, res, fn, args); done {
			return out
		}
	}
	// target of an enclosing contract used at a call site?
	for k := len(st.frames) - 1; k >= 0; k-- {
		f := st.frames[k]
		if f.contract == nil {
			continue
		}
		if f.mode == "assume" && f.contract.target == fn && !f.contract.done {
			c := *f.contract
			c.done = true
			c.preTop = st.curTop()
			// room for whatever the callee allocates
			st.top = Add(st.curTop(), Int(1<<40))
			st.allocN = 0
			r := st.symbolicRes("res_"+fn.Name(), fn.Signature.Results())
			c.args = []Val{r}
			f.contract = &c
			return setRes(r)
		}
		if f.mode == "verify" && f.contract.target == fn && f.contract.preTop == nil {
			c := *f.contract
			c.preTop = st.curTop()
			f.contract = &c
		}
		break
	}
	if w := x.modular[fn]; w != nil && !x.verifying(st, fn) {
		x.contracts[trimPkg(fn.String())]++
		f := x.push(st, w, args, nil, res)
		f.mode = "assume"
		f.contract = &contractCtx{target: fn}
		return nil
	}
	if len(fn.Blocks) > 0 && (inRepo(pkgOf(fn)) || fn.Synthetic != "") {
		if m := x.P.models[mangle(fn.String())]; m != nil {
			x.assumed["model "+trimPkg(fn.String())]++
			x.push(st, m, args, nil, res)
			return nil
		}
		if x.quiet == 0 {
			x.inlined[trimPkg(fn.String())]++
		}
		x.push(st, fn, args, binds, res)
		return nil
	}
	name := fn.String()
	if h := nativeModels[name]; h != nil {
		x.assumed["model "+name]++
		return setRes(h(x, st, fr, ins, fn, args))
	}
	if m := x.P.models[mangle(name)]; m != nil {
		x.assumed["model "+name]++
		if len(m.Params) != len(args) {
			panic(unsupported("model %s arity", name))
		}
		x.push(st, m, args, nil, res)
		return nil
	}
	// external without a model
	if strings.Contains(name, "sirupsen/logrus") || strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "(*log.") {
		if strings.Contains(name, "Fatal") || strings.Contains(name, "Panic") {
			x.panicCheck(st, ins, "process exit ("+name+")", TFalse)
			return endPath
		}
		x.assumed["logging has no effect"]++
		return setRes(st.symbolicRes("log", fn.Signature.Results()))
	}
	if len(fn.Blocks) > 0 {
		x.push(st, fn, args, binds, res)
		return nil
	}
	x.assumed["external "+name+": arbitrary result, modifies at most what its arguments point to"]++
	params := fn.Signature.Params()
	off := 0
	if fn.Signature.Recv() != nil {
		off = 1
	}
	x.havocArgs(st, params, args, off)
	return setRes(st.symbolicRes(fn.Name(), fn.Signature.Results()))
}

// verifying: is fn the function whose own contract is being verified, entered from the contract itself?
func (x *Exec) verifying(st *State, fn *ssa.Function) bool {
	if x.target != fn {
		return false
	}
	// the first activation is verified against the body; recursive ones use the contract
	for _, f := range st.frames {
		if f.fn == fn {
			return false
		}
	}
	return true
}

func (x *Exec) havocArgs(st *State, params *types.Tuple, args []Val, off int) {
	for i, a := range args {
		if i < off {
			continue
		}
		if i-off >= params.Len() {
			break
		}
		x.havocVal(st, a, params.At(i-off).Type())
	}
}

func (x *Exec) havocVal(st *State, a Val, t types.Type) {
	switch v := a.(type) {
	case Slice:
		if isByteSlice(t) {
			b := Fresh("hv", "B")
			old := st.bytesAt(v.Ref)
			st.assume(Eq(Blen(b), Blen(old)))
			o := Cat(SubB(old, Int(0), v.Off), SubB(b, v.Off, Add(v.Off, v.Len)), SubB(old, Add(v.Off, v.Len), Blen(old)))
			if v.Ref != Int(0) {
				st.setBytes(v.Ref, o)
			}
		}
	case Ptr:
		if pt, ok := under(t).(*types.Pointer); ok && !(v.Ref.isConst() && v.Ref.k.Sign() == 0) {
			x.havocObj(st, v, pt.Elem())
		}
	case Iface:
		r := st.resolve(v)
		if r.Typ != nil {
			if _, ok := under(r.Typ).(*types.Pointer); ok {
				x.havocVal(st, r.V, r.Typ)
			}
		}
	}
}

func (x *Exec) havocObj(st *State, p Ptr, t types.Type) {
	switch u := under(t).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			fp, ft := fieldPtr(p.Ref, t, i)
			x.havocObj(st, fp, ft)
		}
		return
	case *types.Array:
		if isByteArray(t) {
			b := Fresh("hv", "B")
			st.assume(Eq(Blen(b), Int(u.Len())))
			st.setBytes(p.Ref, b)
			return
		}
		for i := int64(0); i < u.Len() && i < 64; i++ {
			x.havocObj(st, elemPtr(p.Ref, Int(i), u.Elem()), u.Elem())
		}
		return
	}
	st.Store(p, t, st.symbolic("hv", t))
}

// ---- builtins ----

func (x *Exec) builtin(st *State, ins ssa.Instruction, name string, cc *ssa.CallCommon, args []Val, res ssa.Value) Val {
	switch name {
	case "len":
		switch v := args[0].(type) {
		case *Term:
			return Blen(v)
		case Slice:
			return v.Len
		case MapV:
			return x.mapLen(st, v)
		case Arr:
			return Int(int64(len(v.E)))
		case Ptr:
			if p, ok := under(cc.Args[0].Type()).(*types.Pointer); ok {
				return Int(under(p.Elem()).(*types.Array).Len())
			}
			return FreshInt("chanlen", bigZero, maxLen)
		}
	case "cap":
		switch v := args[0].(type) {
		case Slice:
			return v.Cap
		case Ptr:
			if p, ok := under(cc.Args[0].Type()).(*types.Pointer); ok {
				return Int(under(p.Elem()).(*types.Array).Len())
			}
			return FreshInt("chancap", bigZero, maxLen)
		}
	case "append":
		s := args[0].(Slice)
		et := under(cc.Args[0].Type()).(*types.Slice).Elem()
		if isByteType(et) {
			var data, n *Term
			switch d := args[1].(type) {
			case *Term:
				data, n = d, Blen(d)
			case Slice:
				n = d.Len
				data = st.content(d)
			}
			return x.appendBytes(st, s, data, n)
		}
		return x.appendElems(st, s, args[1].(Slice), et)
	case "copy":
		d := args[0].(Slice)
		et := under(cc.Args[0].Type()).(*types.Slice).Elem()
		var n *Term
		if isByteType(et) {
			var src *Term
			var sl *Term
			switch s := args[1].(type) {
			case *Term:
				src, sl = s, Blen(s)
			case Slice:
				src, sl = st.content(s), s.Len
			}
			if x.decide(st, Le(sl, d.Len)) {
				n = sl
			} else {
				n = d.Len
			}
			if n.isConst() && n.k.Sign() == 0 {
				return n
			}
			old := st.bytesAt(d.Ref)
			nw := Cat(SubB(old, Int(0), d.Off), SubB(src, Int(0), n), SubB(old, Add(d.Off, n), Blen(old)))
			if !(d.Ref.isConst() && d.Ref.k.Sign() == 0) {
				st.setBytes(d.Ref, nw)
			}
			return n
		}
		s := args[1].(Slice)
		if x.decide(st, Le(s.Len, d.Len)) {
			n = s.Len
		} else {
			n = d.Len
		}
		if isAgg(et) {
			x.copyAggs(st, d, s, n, et)
			return n
		}
		for c := range compSorts(et) {
			si, _ := x.inner(st, s.Ref, et, c)
			di, _ := x.inner(st, d.Ref, et, c)
			x.setInner(st, d.Ref, et, c, copyInner(st, di, d.Off, si, s.Off, n))
		}
		return n
	case "delete":
		m := args[0].(MapV)
		mt := under(cc.Args[0].Type()).(*types.Map)
		if x.decide(st, Eq(m.Ref, Int(0))) {
			return nil
		}
		x.mapDelete(st, m, mt, args[1])
		return nil
	case "print", "println":
		return nil
	case "close":
		return nil
	case "recover":
		return Iface{Tag: Int(0), Pay: Int(0)}
	case "min", "max":
		a := args[0].(*Term)
		for _, b := range args[1:] {
			if name == "min" {
				a = Ite(Le(a, b.(*Term)), a, b.(*Term))
			} else {
				a = Ite(Le(a, b.(*Term)), b.(*Term), a)
			}
		}
		return a
	case "ssa:wrapnilchk":
		p := args[0].(Ptr)
		x.nilCheck(st, ins, p.Ref)
		return p
	}
	panic(unsupported("builtin %s on %T", name, args[0]))
}

func (x *Exec) appendBytes(st *State, s Slice, data, n *Term) Val {
	if n.isConst() && n.k.Sign() == 0 {
		return s
	}
	if s.Ref.isConst() && s.Ref.k.Sign() == 0 {
		if x.decide(st, Eq(n, Int(0))) {
			return s
		}
		return st.newBytes(data)
	}
	tot := Add(s.Len, n)
	fits := Le(tot, s.Cap)
	if fits != TFalse && x.decide(st, fits) {
		old := st.bytesAt(s.Ref)
		e := Add(s.Off, s.Len)
		st.setBytes(s.Ref, Cat(SubB(old, Int(0), e), data, SubB(old, Add(e, n), Blen(old))))
		return Slice{s.Ref, s.Off, tot, s.Cap}
	}
	x.assumed["append grows to an exactly fitting new backing array"]++
	r := st.alloc()
	c := Cat(st.content(s), data)
	st.setBytes(r, c)
	return Slice{r, Int(0), tot, tot}
}

func (x *Exec) appendElems(st *State, s, d Slice, et types.Type) Val {
	n := d.Len
	if n.isConst() && n.k.Sign() == 0 {
		return s
	}
	if s.Ref.isConst() && s.Ref.k.Sign() == 0 && x.decide(st, Eq(n, Int(0))) {
		return s
	}
	tot := Add(s.Len, n)
	fits := Le(tot, s.Cap)
	if fits != TFalse && x.decide(st, fits) {
		if isAgg(et) {
			x.copyAggs(st, Slice{s.Ref, Add(s.Off, s.Len), n, n}, d, n, et)
		} else {
			for c := range compSorts(et) {
				si, _ := x.inner(st, d.Ref, et, c)
				di, _ := x.inner(st, s.Ref, et, c)
				x.setInner(st, s.Ref, et, c, copyInner(st, di, Add(s.Off, s.Len), si, d.Off, n))
			}
		}
		return Slice{s.Ref, s.Off, tot, s.Cap}
	}
	x.assumed["append grows to an exactly fitting new backing array"]++
	r := st.alloc()
	ns := Slice{r, Int(0), tot, tot}
	if isAgg(et) {
		x.copyAggs(st, Slice{r, Int(0), s.Len, s.Len}, s, s.Len, et)
		x.copyAggs(st, Slice{r, s.Len, n, n}, d, n, et)
		return ns
	}
	for c := range compSorts(et) {
		var base *Term
		si, _ := x.inner(st, s.Ref, et, c)
		if s.Len.isConst() && s.Len.k.Sign() == 0 {
			base = Fresh("arr", si.sort)
		} else if s.Off.isConst() && s.Off.k.Sign() == 0 {
			base = si // elements beyond len are unobservable
		} else {
			base = copyInner(st, Fresh("arr", si.sort), Int(0), si, s.Off, s.Len)
		}
		di, _ := x.inner(st, d.Ref, et, c)
		if s.Len.isConst() && s.Len.k.Sign() == 0 && d.Off.isConst() && d.Off.k.Sign() == 0 {
			x.setInner(st, r, et, c, di)
		} else {
			x.setInner(st, r, et, c, copyInner(st, base, s.Len, di, d.Off, n))
		}
	}
	return ns
}

// copyAggs copies n aggregate elements between backing arrays (element objects are copied field by field).
func (x *Exec) copyAggs(st *State, d, s Slice, n *Term, et types.Type) {
	if !n.isConst() || n.k.Cmp(bi(32)) > 0 {
		x.copyAggsSym(st, d, s, n, et)
		return
	}
	var vals []Val
	for k := int64(0); k < n.k.Int64(); k++ {
		vals = append(vals, st.Load(elemPtr(s.Ref, Add(s.Off, Int(k)), et), et))
	}
	for k, v := range vals {
		st.Store(elemPtr(d.Ref, Add(d.Off, Int(int64(k))), et), et, v)
	}
}

// copyAggsSym: symbolic number of struct elements; each leaf map is replaced by one that agrees
// with the old everywhere except on the destination elements.
func (x *Exec) copyAggsSym(st *State, d, s Slice, n *Term, et types.Type) {
	var leafs []struct {
		key, srt string
		of       func(base *Term) *Term
	}
	var rec func(of func(*Term) *Term, t types.Type)
	rec = func(of func(*Term) *Term, t types.Type) {
		switch u := under(t).(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				fp, ft := fieldPtr(Int(7), t, i)
				if isAgg(ft) {
					key := fmt.Sprintf("%s.%s", structKey(t), u.Field(i).Name())
					id := fldID(key)
					rec(func(b *Term) *Term { return Fld(id, of(b)) }, ft)
					continue
				}
				keys, sorts := leafKeys(fp, ft)
				for k := range keys {
					leafs = append(leafs, struct {
						key, srt string
						of       func(base *Term) *Term
					}{keys[k], sorts[k], of})
				}
			}
		case *types.Array:
			if isByteArray(t) {
				leafs = append(leafs, struct {
					key, srt string
					of       func(base *Term) *Term
				}{keyB, sortB, of})
				return
			}
			panic(unsupported("copy of nested arrays"))
		}
	}
	rec(func(b *Term) *Term { return b }, et)
	o := oracle
	oracle = nil
	defer func() { oracle = o }()
	for _, l := range leafs {
		m := st.m(l.key, l.srt)
		m2 := Fresh("H:"+l.key, l.srt)
		havocs[m2] = &havocInfo{parent: m, all: true}
		j := BoundVar(nil, nil)
		dst := l.of(Elem(d.Ref, Add(d.Off, j)))
		src := l.of(Elem(s.Ref, Add(s.Off, j)))
		f1 := Forall([]*Term{j}, Implies(And(Le(Int(0), j), Lt(j, n)), Eq(mk(OSelect, rngOf(l.srt), "", nil, nil, m2, dst), mk(OSelect, rngOf(l.srt), "", nil, nil, m, src))))
		r := BoundVar(nil, nil)
		// everything not an element of the destination backing keeps its value
		f2 := forallP(r, Implies(Ne(Root(r), Root(d.Ref)), Eq(mk(OSelect, rngOf(l.srt), "", nil, nil, m2, r), mk(OSelect, rngOf(l.srt), "", nil, nil, m, r))), mk(OSelect, rngOf(l.srt), "", nil, nil, m2, r))
		st.assume(f1)
		st.assume(f2)
		st.mem[l.key] = m2
	}
}

func rngOf(s string) string { _, r := arrSorts(s); return r }

// ---- synchronous pure evaluation of Go functions ----

type outcome struct {
	st  *State
	ret Val
}

// callSync runs fn to completion from st, returning all outcomes.
func (x *Exec) callSync(st *State, fn *ssa.Function, args []Val, binds []Val) []outcome {
	n := st.clone()
	saved := n.frames
	n.frames = nil
	x.push(n, fn, args, binds, nil)
	var outs []outcome
	x.exploreSub([]*State{n}, func(e *State) {
		r := e.ghost["ret"]
		delete(e.ghost, "ret")
		e.frames = nil
		outs = append(outs, outcome{e, r})
	})
	_ = saved
	x.withOracle(st)
	return outs
}

func (x *Exec) exploreSub(start []*State, onEnd func(*State)) {
	work := append([]*State{}, start...)
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		if st.dead {
			continue
		}
		x.withOracle(st)
		next := x.runUntilFork(st)
		for i := len(next) - 1; i >= 0; i-- {
			n := next[i]
			if n.dead {
				continue
			}
			if len(n.frames) == 0 {
				onEnd(n)
				continue
			}
			work = append(work, n)
		}
	}
}

// evalBool evaluates a pure boolean function to one term: conjunction over its paths of
// (branch conditions => result). facts are type invariants discovered on the way.
func (x *Exec) evalBool(st *State, fn *ssa.Function, args []Val, binds []Val) (val *Term, facts []*Term) {
	x.quiet++
	x.pureDepth++
	defer func() { x.quiet--; x.pureDepth-- }()
	nb := len(st.branch)
	np := len(st.pc)
	outs := x.callSync(st, fn, args, binds)
	r := TTrue
	for _, o := range outs {
		b := And(o.st.branch[nb:]...)
		isBranch := map[*Term]bool{}
		for _, t := range o.st.branch[nb:] {
			isBranch[t] = true
			if t.op == OAnd {
				for _, a := range t.args {
					isBranch[a] = true
				}
			}
		}
		for _, f := range o.st.pc[np:] {
			if !isBranch[f] {
				facts = append(facts, Implies(b, f))
			}
		}
		r = And(r, Implies(b, o.ret.(*Term)))
	}
	if len(outs) == 0 {
		return TTrue, nil
	}
	return unitProp(r), facts
}

// unitProp simplifies a conjunction by its literal conjuncts.
func unitProp(t *Term) *Term {
	for round := 0; round < 20 && t.op == OAnd; round++ {
		unit := map[int]bool{}
		for _, a := range t.args {
			if a.op != OOr && a.op != OAnd && a.op != OIte && (a.op != ONot || a.args[0].op != OOr && a.args[0].op != OAnd) {
				unit[a.id] = true
			}
		}
		changed := false
		var out []*Term
		for _, a := range t.args {
			if unit[a.id] {
				out = append(out, a)
				continue
			}
			b := propIn(a, unit)
			if b != a {
				changed = true
			}
			out = append(out, b)
		}
		if !changed {
			break
		}
		t = And(out...)
	}
	return t
}

func propIn(t *Term, unit map[int]bool) *Term {
	if unit[t.id] {
		return TTrue
	}
	if unit[Not(t).id] {
		return TFalse
	}
	switch t.op {
	case OAnd, OOr:
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = propIn(a, unit)
			ch = ch || as[i] != a
		}
		if !ch {
			return t
		}
		if t.op == OAnd {
			return And(as...)
		}
		return Or(as...)
	case ONot:
		if a := propIn(t.args[0], unit); a != t.args[0] {
			return Not(a)
		}
	}
	return t
}

// ---- specification functions ----

func (x *Exec) specCall(st *State, fr *Frame, ins ssa.Instruction, res ssa.Value, fn *ssa.Function, args []Val) ([]*State, bool) {
	set := func(v Val) ([]*State, bool) {
		if res != nil {
			fr.env[res] = v
		}
		return nil, true
	}
	// nearest contract frame decides the mode
	mode := ""
	for k := len(st.frames) - 1; k >= 0; k-- {
		if st.frames[k].contract != nil {
			mode = st.frames[k].mode
			break
		}
	}
	switch fn.Name() {
	case "Requires":
		c := args[0].(*Term)
		if mode == "assume" {
			x.oblige(st, "pre:"+fr.fn.Name(), "precondition", c, pos(ins))
		} else {
			st.assume(c)
			if c == TFalse || x.query(st, nil, 500) == "unsat" {
				st.dead = true
			}
		}
		if st.dead {
			return endPath, true
		}
		return set(nil)
	case "Assume":
		c := args[0].(*Term)
		st.assume(c)
		if c == TFalse || x.query(st, nil, 500) == "unsat" {
			st.dead = true
			return endPath, true
		}
		return set(nil)
	case "Ensures":
		label := args[0].(*Term).name
		c := args[1].(*Term)
		if mode == "assume" {
			st.assume(c)
			if c == TFalse || (c != TTrue && x.query(st, nil, 500) == "unsat") {
				st.dead = true
				return endPath, true
			}
			return set(nil)
		}
		x.oblige(st, label, "postcondition", c, pos(ins))
		if st.dead {
			return endPath, true
		}
		return set(nil)
	case "Cover":
		if mode == "assume" || x.quiet > 0 {
			return set(nil)
		}
		label := args[0].(*Term).name
		if !x.covers[label] {
			if r := x.query(st, nil, 3000); r != "unsat" {
				x.covers[label] = true
			}
		}
		return set(nil)
	case "MayPanic":
		st.ghost["maypanic"] = TTrue
		return set(nil)
	case "Holds":
		f := args[0].(FuncV)
		b, fs := x.evalBool(st, f.Fn, nil, f.Binds)
		for _, ff := range fs {
			st.assume(ff)
		}
		return set(b)
	case "Forall", "Exists":
		f := args[2].(FuncV)
		lo, hi := args[0].(*Term), args[1].(*Term)
		if lo.isConst() && hi.isConst() && new(big.Int).Sub(hi.k, lo.k).Cmp(bi(16)) <= 0 {
			r := BoolT(fn.Name() == "Forall")
			for k := lo.k.Int64(); k < hi.k.Int64(); k++ {
				b, fs := x.evalBool(st, f.Fn, []Val{Int(k)}, f.Binds)
				for _, ff := range fs {
					st.assume(ff)
				}
				if fn.Name() == "Forall" {
					r = And(r, b)
				} else {
					r = Or(r, b)
				}
			}
			return set(r)
		}
		// the bound variable is a free symbol while the body is evaluated
		iv := FreshInt("i", new(big.Int).Neg(maxLen), maxLen)
		sub := st.clone()
		if sub.qborn == 0 {
			sub.qborn = iv.born
		}
		rng := And(Le(lo, iv), Lt(iv, hi))
		sub.assume(rng)
		b, fs := x.evalBool(sub, f.Fn, []Val{iv}, f.Binds)
		q := BoundVar(nil, nil)
		o := oracle
		oracle = nil
		if fn.Name() == "Exists" {
			b = Not(b)
		}
		cs := []*Term{b}
		if b.op == OAnd && fn.Name() == "Forall" {
			cs = b.args
		}
		q1 := TTrue
		for k, c := range cs {
			if k > 0 {
				q = BoundVar(nil, nil)
			}
			q1 = And(q1, Forall([]*Term{q}, Implies(Subst(rng, map[*Term]*Term{iv: q}), Subst(c, map[*Term]*Term{iv: q}))))
		}
		for _, ff := range fs {
			g := Forall([]*Term{q}, Implies(Subst(rng, map[*Term]*Term{iv: q}), Subst(ff, map[*Term]*Term{iv: q})))
			if !g.bound {
				st.assume(g)
			}
		}
		oracle = o
		if fn.Name() == "Exists" {
			q1 = Not(q1)
		}
		return set(q1)
	case "Implies":
		return set(Implies(args[0].(*Term), args[1].(*Term)))
	case "ChooseBool":
		return set(Fresh("choose", "Bool"))
	case "ChooseInt":
		lo, hi := args[0].(*Term), args[1].(*Term)
		v := FreshInt("choose", lo.lo, hi.hi)
		st.assume(And(Le(lo, v), Lt(v, hi)))
		return set(v)
	case "ChooseErr":
		c := Fresh("chooseerr", "Bool")
		n := st.clone()
		n.assumeBranch(c)
		st.assumeBranch(Not(c))
		mkerr := func(s *State) Val {
			t := x.errType()
			r := s.alloc()
			s.Store(Ptr{Ref: r}, t.Elem(), zero(t.Elem()))
			return Iface{Tag: Int(int64(typeID(t))), Typ: t, V: Ptr{Ref: r}}
		}
		if res != nil {
			n.top1().env[res] = mkerr(n)
			fr.env[res] = Iface{Tag: Int(0), Pay: Int(0)}
		}
		return []*State{st, n}, true
	case "Modifies":
		s := args[0].(Slice)
		for k := int64(0); k < s.Len.k.Int64(); k++ {
			v := st.Load(elemPtr(s.Ref, Add(s.Off, Int(k)), emptyIface), emptyIface).(Iface)
			v = st.resolve(v)
			if mode == "assume" {
				if _, ok := v.V.(Slice); ok {
					x.havocVal(st, v.V, v.Typ)
				} else {
					x.havocVal(st, v.V, v.Typ)
				}
			} else if len(st.frames) > 0 {
				mods, _ := st.ghost["modifies"].([]Val)
				st.ghost["modifies"] = append(append([]Val{}, mods...), v)
			}
		}
		return set(nil)
	case "SameObj":
		a := st.resolve(args[0].(Iface))
		b := st.resolve(args[1].(Iface))
		return set(Eq(st.payload(a), st.payload(b)))
	case "Fresh": // object allocated during this contract
		a := st.resolve(args[0].(Iface))
		base := Int(initTop)
		for k := len(st.frames) - 1; k >= 0; k-- {
			if c := st.frames[k].contract; c != nil {
				if c.preTop != nil {
					base = c.preTop
				}
				break
			}
		}
		p := st.payload(a)
		return set(And(Ge(Root(p), base), Ge(p, base)))
	case "Disjoint":
		a, b := args[0].(Slice), args[1].(Slice)
		return set(Or(Ne(a.Ref, b.Ref), Eq(a.Ref, Int(0))))
	case "MarkState":
		k := args[0].(*Term).name
		st.ghost["mark:"+k] = snapshot(st)
		return set(nil)
	case "Unchanged":
		// nothing reachable before the mark has been modified since
		k := args[0].(*Term).name
		m, _ := st.ghost["mark:"+k].(*memSnap)
		if m == nil {
			panic(unsupported("Unchanged without MarkState"))
		}
		return set(x.unchangedSince(st, m))
	}
	return nil, false
}

const initTop = 1000000

type memSnap struct {
	mem map[string]*Term
	top *Term
}

func snapshot(st *State) *memSnap {
	m := &memSnap{mem: map[string]*Term{}, top: st.curTop()}
	for k, v := range st.mem {
		m.mem[k] = v
	}
	return m
}

// unchangedSince is the frame condition: every map agrees with the snapshot on references
// allocated before it.
func (x *Exec) unchangedSince(st *State, m *memSnap) *Term {
	r := TTrue
	for _, k := range memKeys(st.mem) {
		cur := st.mem[k]
		old, ok := m.mem[k]
		if !ok {
			old = NamedVar("M0:"+k, cur.sort)
		}
		if cur == old {
			continue
		}
		r = And(r, x.mapUnchanged(st, old, cur, m.top, 0))
	}
	return r
}

func (x *Exec) mapUnchanged(st *State, old, cur, top *Term, depth int) *Term {
	r := TTrue
	t := cur
	seen := map[*Term]bool{}
	for t != old {
		if t.op == OStore {
			a := t.args[1]
			if !seen[a] {
				seen[a] = true
				if !known(Ge(Root(a), top)) {
					r = And(r, Or(Ge(Root(a), top), Eq(Select(cur, a), Select(old, a))))
				}
			}
			t = t.args[0]
			continue
		}
		if h := havocs[t]; h != nil && !h.all {
			for _, e := range h.except {
				if !seen[e] {
					seen[e] = true
					if !known(Ge(Root(e), top)) {
						r = And(r, Or(Ge(Root(e), top), Eq(Select(cur, e), Select(old, e))))
					}
				}
			}
			if !known(Ge(h.top, top)) {
				q := BoundVar(nil, nil)
				o := oracle
				oracle = nil
				f := Forall([]*Term{q}, Implies(Lt(Root(q), top), Eq(Select(cur, q), Select(old, q))))
				oracle = o
				return f
			}
			for _, e := range h.roots {
				if !known(Ge(e, top)) {
					q := BoundVar(nil, nil)
					o := oracle
					oracle = nil
					f := Forall([]*Term{q}, Implies(Lt(Root(q), top), Eq(Select(cur, q), Select(old, q))))
					oracle = o
					return f
				}
			}
			t = h.parent
			continue
		}
		// give up on structure: state it with a quantifier
		q := BoundVar(nil, nil)
		o := oracle
		oracle = nil
		f := Forall([]*Term{q}, Implies(Lt(Root(q), top), Eq(Select(cur, q), Select(old, q))))
		oracle = o
		return f
	}
	return r
}

var emptyIface = types.NewInterfaceType(nil, nil).Complete()

func (x *Exec) errType() *types.Pointer {
	p := x.P.pkgs[modPath+"/zzmodels"]
	return types.NewPointer(p.Pkg.Scope().Lookup("Err").Type())
}

// variadic interface{} arguments of an intrinsic, as terms
func (x *Exec) ifaceArgs(st *State, v Val) []*Term {
	s := v.(Slice)
	if !s.Len.isConst() {
		panic(unsupported("variadic length"))
	}
	var out []*Term
	for k := int64(0); k < s.Len.k.Int64(); k++ {
		e := st.resolve(st.Load(elemPtr(s.Ref, Add(s.Off, Int(k)), emptyIface), emptyIface).(Iface))
		out = append(out, x.argTerms(st, e)...)
	}
	return out
}

func (x *Exec) argTerms(st *State, e Iface) []*Term {
	if e.Typ == nil {
		return []*Term{e.Tag, st.payload(e)}
	}
	switch v := e.V.(type) {
	case *Term:
		return []*Term{v}
	case Slice:
		if isByteSlice(e.Typ) {
			return []*Term{st.content(v)}
		}
	case Ptr:
		if p, ok := under(e.Typ).(*types.Pointer); ok && isByteArray(p.Elem()) {
			return []*Term{st.bytesAt(v.Ref)}
		}
		return []*Term{v.Ref}
	case Iface:
		return []*Term{v.Tag, st.payload(v)}
	case FuncV:
		return st.flat(v, e.Typ)
	}
	return []*Term{st.payload(e)}
}

// intrinsics available to models
func (x *Exec) modelIntrinsic(st *State, fr *Frame, ins ssa.Instruction, res ssa.Value, fn *ssa.Function, args []Val) ([]*State, bool) {
	set := func(v Val) ([]*State, bool) {
		if res != nil {
			fr.env[res] = v
		}
		return nil, true
	}
	switch fn.Name() {
	case "UFBytes": // name, length (<0 unknown), args
		name := args[0].(*Term).name
		as := x.ifaceArgs(st, args[2])
		name = fmt.Sprintf("%s_%d", name, len(as))
		t := UF(name, "B", as...)
		n := args[1].(*Term)
		if !(n.isConst() && n.k.Sign() < 0) {
			if n.isConst() {
				registerLen(name, n)
			} else {
				st.assume(Eq(Blen(t), n))
			}
		}
		if n.isConst() && n.k.Sign() >= 0 {
			st.assume(Eq(mkRawLen(t), n))
		}
		return set(t)
	case "UFInt":
		name := args[0].(*Term).name
		as := x.ifaceArgs(st, args[3])
		t := UF(fmt.Sprintf("%s_%d", name, len(as)), "Int", as...)
		lo, hi := args[1].(*Term), args[2].(*Term)
		if t.op == OUF && t.lo == nil {
			t.lo, t.hi = lo.k, hi.k
		}
		st.assume(And(Le(lo, t), Le(t, hi)))
		return set(t)
	case "UFBool":
		name := args[0].(*Term).name
		as := x.ifaceArgs(st, args[1])
		return set(UF(fmt.Sprintf("%s_%d", name, len(as)), "Bool", as...))
	case "NondetBool":
		return set(Fresh("nd", "Bool"))
	case "NondetInt":
		lo, hi := args[0].(*Term), args[1].(*Term)
		v := FreshInt("nd", lo.lo, hi.hi)
		st.assume(And(Le(lo, v), Le(v, hi)))
		return set(v)
	case "NondetBytes":
		b := Fresh("ndb", "B")
		n := args[0].(*Term)
		if !(n.isConst() && n.k.Sign() < 0) {
			st.assume(Eq(Blen(b), n))
		}
		return set(b)
	case "Assume":
		c := args[0].(*Term)
		st.assume(c)
		if c == TFalse || (c != TTrue && x.query(st, nil, 500) == "unsat") {
			st.dead = true
			return endPath, true
		}
		return set(nil)
	case "Repeat":
		return set(Rep(args[0].(*Term), args[1].(*Term)))
	case "Note":
		x.assumedNote(args[0].(*Term).name)
		return set(nil)
	case "PanicIf":
		c := args[1].(*Term)
		x.panicCheck(st, ins, args[0].(*Term).name, Not(c))
		if st.dead {
			return endPath, true
		}
		return set(nil)
	case "Sprintf":
		return set(x.sprintf(st, args[0].(*Term), args[1].(Slice)))
	case "ParseDec":
		return set(Tuple{UF("undec", "Int", args[0].(*Term)), UF("isdec", "Bool", args[0].(*Term))})
	case "LastSlash": // position of the last '/', or -1
		t := args[0].(*Term)
		parts := []*Term{t}
		if t.op == OCat {
			parts = t.args
		}
		for i := len(parts) - 1; i >= 0; i-- {
			if p := parts[i]; p.op == OLit {
				if j := strings.LastIndex(p.name, "/"); j >= 0 {
					pos := Int(int64(j))
					for _, q := range parts[:i] {
						pos = Add(pos, Blen(q))
					}
					return set(pos)
				}
				continue
			}
			if c := UF("noslash", "Bool", parts[i]); c != TTrue && !x.valid(st, c, 1000) {
				n := UF("lastslash", "Int", t)
				st.assume(And(Ge(n, Int(-1)), Lt(n, Blen(t))))
				return set(n)
			}
		}
		return set(Int(-1))
	case "NoSlash":
		return set(UF("noslash", "Bool", args[0].(*Term)))
	case "PBMayFail":
		v := st.resolve(args[0].(Iface))
		if v.Typ == nil {
			return set(TTrue)
		}
		pt, ok := under(v.Typ).(*types.Pointer)
		return set(BoolT(!ok || pbMayFail(pt.Elem(), map[string]bool{})))
	case "PBMarshal":
		return x.pbMarshalCall(st, fr, res, args)
	case "PBUnmarshal":
		return x.pbUnmarshalCall(st, fr, res, args)
	case "PBClone":
		v := st.resolve(args[0].(Iface))
		if v.Typ == nil {
			panic(unsupported("clone of unknown message"))
		}
		p := v.V.(Ptr)
		if p.Ref == Int(0) {
			return set(v)
		}
		return set(Iface{Tag: v.Tag, Typ: v.Typ, V: x.pbClone(st, p, v.Typ, 0)})
	case "IsSym": // dynamic type unknown
		v := st.resolve(args[0].(Iface))
		return set(BoolT(v.Typ == nil))
	case "HavocArg":
		v := st.resolve(args[0].(Iface))
		if v.Typ != nil {
			x.havocVal(st, v.V, v.Typ)
		}
		return set(nil)
	}
	return nil, false
}

func mkRawLen(t *Term) *Term { return Blen(t) }

func registerLen(name string, n *Term) {
	name = sanitize(name)
	if ufLen[name] == nil {
		k := n
		ufLen[name] = func([]*Term) *Term { return k }
		prev := extraAxioms[name]
		_ = prev
		lenAxiom[name] = n
	}
}

var lenAxiom = map[string]*Term{}

// sprintf interprets constant formats with simple verbs; anything else is an uninterpreted function.
func (x *Exec) sprintf(st *State, f *Term, s Slice) *Term {
	as := []Iface{}
	if !s.Len.isConst() {
		return Fresh("sprintf", "B")
	}
	for k := int64(0); k < s.Len.k.Int64(); k++ {
		as = append(as, st.resolve(st.Load(elemPtr(s.Ref, Add(s.Off, Int(k)), emptyIface), emptyIface).(Iface)))
	}
	if f.op == OLit {
		var parts []*Term
		str := f.name
		k := 0
		ok := true
		for i := 0; i < len(str) && ok; i++ {
			if str[i] != '%' {
				parts = append(parts, Lit(str[i:i+1]))
				continue
			}
			i++
			if i >= len(str) {
				ok = false
				break
			}
			if str[i] == '%' {
				parts = append(parts, Lit("%"))
				continue
			}
			j := i
			for j < len(str) && (str[j] >= '0' && str[j] <= '9' || str[j] == '.' || str[j] == '+' || str[j] == '-' || str[j] == ' ' || str[j] == '#') {
				j++
			}
			if j >= len(str) || k >= len(as) {
				ok = false
				break
			}
			flags, verb := str[i:j], str[j]
			i = j
			a := as[k]
			k++
			t := x.fmtArg(st, flags, verb, a)
			if t == nil {
				ok = false
				break
			}
			parts = append(parts, t)
		}
		if ok && k == len(as) {
			return Cat(parts...)
		}
	}
	var ts []*Term
	ts = append(ts, f)
	for _, a := range as {
		ts = append(ts, x.argTerms(st, a)...)
	}
	n := "sprintf"
	for _, t := range ts {
		n += "_" + t.sort[:1]
	}
	return UF(n, "B", ts...)
}

func (x *Exec) fmtArg(st *State, flags string, verb byte, a Iface) *Term {
	if a.Typ == nil {
		return nil
	}
	t, isT := a.V.(*Term)
	switch {
	case isT && t.sort == "B" && isString(a.Typ) && (verb == 's' || verb == 'v') && flags == "":
		if hasMethod(a.Typ, "Error") || hasMethod(a.Typ, "String") {
			return nil
		}
		return t
	case isT && t.sort == "Int" && (verb == 'd' || verb == 'v') && flags == "":
		if hasMethod(a.Typ, "Error") || hasMethod(a.Typ, "String") {
			return nil
		}
		if _, _, ok := intRange(a.Typ); ok {
			return decT(t)
		}
	case isT && t.sort == "Int" && verb == 'd' && len(flags) >= 2 && flags[0] == '0':
		if _, _, ok := intRange(a.Typ); ok {
			r := UF("fmt0d"+flags[1:], "B", t)
			w := int64(0)
			fmt.Sscanf(flags[1:], "%d", &w)
			// value below 10^w and nonnegative: exactly w digits
			lim := new(big.Int).Exp(bi(10), bi(w), nil)
			if x.valid(st, And(Ge(t, Int(0)), Lt(t, IntBig(lim))), 1000) {
				st.assume(Eq(Blen(r), Int(w)))
				q := BoundVar(nil, nil)
				o := oracle
				oracle = nil
				f := forallP(q, Implies(And(Le(Int(0), q), Lt(q, Int(w))), And(Le(Int(48), Bat(r, q)), Le(Bat(r, q), Int(57)))), Bat(r, q))
				oracle = o
				st.assume(f)
			} else {
				st.assume(Ge(Blen(r), Int(w)))
			}
			return r
		}
	case verb == 'x' && flags == "":
		if s, ok := a.V.(Slice); ok && isByteSlice(a.Typ) {
			return hexT(st.content(s))
		}
		if isT && t.sort == "B" {
			return hexT(t)
		}
	}
	return nil
}

func hasMethod(t types.Type, n string) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == n {
			return true
		}
	}
	return false
}

func hexT(b *Term) *Term {
	if b.op == OLit {
		return Lit(fmt.Sprintf("%x", b.name))
	}
	t := UF("hex", "B", b)
	return t
}

// decT is the decimal rendering of an integer.
func decT(n *Term) *Term {
	if n.isConst() {
		return Lit(n.k.String())
	}
	return UF("dec", "B", n)
}

func init() {
	decAx := func(f, dom string) string {
		return strings.NewReplacer("DEC", f, "DOM", dom).Replace(`(assert (forall ((n Int)) (! (=> DOM (and (= (undec (|DEC| n)) n) (isdec (|DEC| n)) (noslash (|DEC| n)) (>= (blen (|DEC| n)) 1) (<= (blen (|DEC| n)) 20))) :pattern ((|DEC| n)))))
(assert (forall ((n Int) (i Int)) (! (=> (and (<= 0 n) (<= 0 i) (< i (blen (|DEC| n)))) (and (<= 48 (bat (|DEC| n) i)) (<= (bat (|DEC| n) i) 57))) :pattern ((bat (|DEC| n) i)))))`)
	}
	extraAxioms["dec"] = decAx("dec", "true")
	extraAxioms["fmt0d9"] = decAx("fmt0d9", "(<= 0 n)")
	isDec := func(t *Term) bool {
		return t.op == OUF && (t.name == "dec" || t.name == "fmt0d9" && known(Ge(t.args[0], Int(0))))
	}
	isDigits := func(s string) bool {
		if s == "" || len(s) > 18 {
			return false
		}
		for _, c := range s {
			if c < '0' || c > '9' {
				return false
			}
		}
		return true
	}
	ufSimp["undec"] = func(a []*Term) *Term {
		if isDec(a[0]) {
			return a[0].args[0]
		}
		if a[0].op == OLit && isDigits(a[0].name) {
			n, _ := new(big.Int).SetString(a[0].name, 10)
			return IntBig(n)
		}
		return nil
	}
	ufSimp["isdec"] = func(a []*Term) *Term {
		if isDec(a[0]) {
			return TTrue
		}
		if a[0].op == OLit && isDigits(a[0].name) {
			return TTrue
		}
		return nil
	}
	ufSimp["noslash"] = func(a []*Term) *Term {
		t := a[0]
		switch {
		case t.op == OLit:
			return BoolT(!strings.Contains(t.name, "/"))
		case isDec(t) || t.op == OUF && (t.name == "hex" || t.name == "pathescape_1"):
			return TTrue
		case t.op == OCat:
			r := TTrue
			for _, p := range t.args {
				r = And(r, UF("noslash", "Bool", p))
			}
			return r
		}
		return nil
	}
	ufSimp["unpathescape_1"] = func(a []*Term) *Term {
		if a[0].op == OUF && a[0].name == "pathescape_1" {
			return a[0].args[0]
		}
		return nil
	}
	extraAxioms["pathescape_1"] = `(declare-fun |unpathescape_1| (B) B)
(assert (forall ((b B)) (! (and (noslash (|pathescape_1| b)) (= (|unpathescape_1| (|pathescape_1| b)) b)) :pattern ((|pathescape_1| b)))))`
	predeclared["unpathescape_1"] = true
	ufLen["hex"] = func(a []*Term) *Term { return MulC(bi(2), Blen(a[0])) }
	predeclared["unhex"] = true
	extraAxioms["hex"] = `(declare-fun unhex (B) B)
(assert (forall ((b B)) (! (and (= (unhex (|hex| b)) b) (= (blen (|hex| b)) (* 2 (blen b)))) :pattern ((|hex| b)))))
(assert (forall ((b B) (i Int)) (! (=> (and (<= 0 i) (< i (* 2 (blen b)))) (or (and (<= 48 (bat (|hex| b) i)) (<= (bat (|hex| b) i) 57)) (and (<= 97 (bat (|hex| b) i)) (<= (bat (|hex| b) i) 102)))) :pattern ((bat (|hex| b) i)))))`
	ufSimp["unhex"] = func(a []*Term) *Term {
		if a[0].op == OUF && a[0].name == "hex" {
			return a[0].args[0]
		}
		return nil
	}
}

type nativeModel func(x *Exec, st *State, fr *Frame, ins ssa.Instruction, fn *ssa.Function, args []Val) Val

var nativeModels = map[string]nativeModel{}

func pkgOf(fn *ssa.Function) *types.Package {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	if fn.Parent() != nil {
		return pkgOf(fn.Parent())
	}
	return nil
}
