package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loops: a loop whose header condition is decided on every arrival is executed iteration by
// iteration (complete). Every other loop is cut at its header: everything its body may change is
// havocked and an inductive invariant is assumed; candidate invariants come from a fixed
// catalogue (checked by the solver at entry and at every back edge, dropped when not inductive)
// and from contract files.

type loopCtx struct {
	cut   bool
	probe func(st *State, phis map[*ssa.Phi]Val) // analysis run: called at back edges
	env   *cutInfo
}

type cutInfo struct {
	l       *loopT
	fn      *ssa.Function
	phis    []*ssa.Phi
	entry   map[*ssa.Phi]Val
	head    map[*ssa.Phi]Val // havocked values
	user    []*cand
	entrySt *State
}

type cand struct {
	name string
	user bool
	f    func(st *State, phi map[*ssa.Phi]Val) *Term
	dead bool
}

func (x *Exec) enter(st *State, fr *Frame, b *ssa.BasicBlock) []*State {
	prev := fr.block
	pi := -1
	for i, p := range b.Preds {
		if p == prev {
			pi = i
			break
		}
	}
	phis := map[*ssa.Phi]Val{}
	var order []*ssa.Phi
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis[p] = x.get(st, fr, p.Edges[pi])
		order = append(order, p)
	}
	ls := x.loops(fr.fn)
	for h, c := range fr.loops {
		if !ls[h].body[b] {
			if c.probe != nil {
				return endPath
			}
			delete(fr.loops, h)
			delete(fr.unroll, h)
		}
	}
	l := ls[b]
	if l != nil {
		if c := fr.loops[b]; c != nil && c.cut && l.body[prev] {
			if c.probe != nil {
				c.probe(st, phis)
				return endPath
			}
			x.backEdge(st, c.env, phis)
			return endPath
		}
	}
	fr.prev, fr.block, fr.ip = prev, b, 0
	for _, p := range order {
		fr.env[p] = phis[p]
	}
	if l == nil {
		return nil
	}
	// first arrival, or next iteration of an unrolled loop
	fr.loops[b] = &loopCtx{}
	if fr.unroll == nil {
		fr.unroll = map[*ssa.BasicBlock]int{}
	}
	if n, ok := x.unrolls[loopKey(fr.fn)]; ok {
		fr.unroll[b]++
		if fr.unroll[b] > n {
			// the loop must have ended by now
			c := x.peek(st, fr)
			if c == nil {
				panic(unsupported("unwinding bound in %s", fr.fn.Name()))
			}
			if !l.body[b.Succs[0]] {
				c = Not(c)
			}
			x.oblige(st, "unwind:"+fr.fn.Name(), "unwinding", Not(c), fmt.Sprintf("loop in %s ends within %d iterations", trimPkg(fr.fn.String()), n))
			if st.dead {
				return endPath
			}
		}
		return nil
	}
	if c := x.peek(st, fr); c != nil && fr.unroll[b] < 300 && !x.hasInv(fr, l) {
		d := c == TTrue || c == TFalse || st.facts[c.id] || st.facts[Not(c).id]
		if !d {
			if x.query(st, []*Term{Not(c)}, 800) == "unsat" || x.query(st, []*Term{c}, 800) == "unsat" {
				d = true
			}
		}
		if d && fr.unroll[b] == 3 && c.op == OLe0 && x.query(st, []*Term{Or(Lt(c.args[0], Int(-300)), Gt(c.args[0], Int(300)))}, 800) != "unsat" {
			d = false // there may be any number of further iterations
		}
		if d {
			fr.unroll[b]++
			if fr.unroll[b] == 1 && x.quiet == 0 {
				x.loopsUnrolled[trimPkg(fr.fn.String())]++
			}
			return nil
		}
	}
	return x.cut(st, fr, l, order)
}

// invFor tells whether the invariant function of that name is meant for the loop in this contract.
func (x *Exec) invFor(name, base string) bool {
	if name != base && !strings.HasPrefix(name, base+"_") {
		return false
	}
	if i := strings.Index(name, "_vc_"); i >= 0 {
		return name[i+1:] == x.wrapper.Name()
	}
	return true
}

func (x *Exec) hasInv(fr *Frame, l *loopT) bool {
	base := fmt.Sprintf("inv_%s_%d", sanitizeId(fr.fn), l.ord)
	for name := range x.invs {
		if x.invFor(name, base) {
			return true
		}
	}
	return false
}

func loopKey(fn *ssa.Function) string { return fn.Name() }

// peek computes the header's branch condition without side effects, or nil.
func (x *Exec) peek(st *State, fr *Frame) (c *Term) {
	b := fr.block
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	for _, ins := range b.Instrs {
		switch v := ins.(type) {
		case *ssa.Call:
			if _, ok := v.Call.Value.(*ssa.Builtin); !ok {
				return nil
			}
		case *ssa.Next, *ssa.Select, *ssa.Store, *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.RunDefers:
			return nil
		}
	}
	n := st.clone()
	x.quiet++
	defer func() {
		x.quiet--
		if r := recover(); r != nil {
			if _, ok := r.(needFork); ok {
				c = nil
				return
			}
			if _, ok := r.(unsupportedErr); ok {
				c = nil
				return
			}
			panic(r)
		}
	}()
	f := n.top1()
	for _, ins := range b.Instrs[:len(b.Instrs)-1] {
		f.ip++
		r := x.step1(n, f, ins)
		if r != nil || n.dead {
			return nil
		}
	}
	return x.get(n, f, iff.Cond).(*Term)
}

// freshLike makes an arbitrary value of the same shape.
func (x *Exec) freshLike(st *State, p *ssa.Phi, v Val) Val {
	name := p.Comment
	if name == "" {
		name = p.Name()
	}
	if f, ok := v.(FuncV); ok && f.Fn != nil {
		panic(unsupported("function-valued loop variable"))
	}
	if _, ok := v.(RangeIter); ok {
		return v
	}
	if pt, ok := v.(Ptr); ok && pt.Kind != PObj {
		panic(unsupported("interior pointer loop variable"))
	}
	return st.symbolic(name, p.Type())
}

type memMod struct {
	all    bool
	except []*Term
	roots  []*Term
}

// cut verifies the loop at its header by an inductive invariant.
func (x *Exec) cut(st *State, fr *Frame, l *loopT, phis []*ssa.Phi) []*State {
	entry := map[*ssa.Phi]Val{}
	for _, p := range phis {
		entry[p] = fr.env[p]
	}
	// loop-invariant phis: all back edges feed the phi itself
	if x.quiet == 0 {
		x.loopsCut[trimPkg(fr.fn.String())]++
	}
	mods := map[string]*memMod{}
	modPhi := map[*ssa.Phi]bool{}
	for _, p := range phis {
		modPhi[p] = true
	}
	entrySt := st.clone()
	usr := x.userInvs(st, fr, l, phis, entry, entrySt)
	var cands []*cand
	var head *State
	var hv map[*ssa.Phi]Val
	build := func() (*State, map[*ssa.Phi]Val) {
		h := st.clone()
		f := h.top1()
		vals := map[*ssa.Phi]Val{}
		h.top = FreshInt("top", initTopBig(st), nil)
		h.allocN = 0
		h.assume(Ge(h.top, st.curTop()))
		for _, k := range memKeys(h.mem) {
			m := mods[k]
			if m == nil {
				continue
			}
			x.havocMap(h, k, st.mem[k], m, st.curTop())
		}
		for k, m := range mods {
			if _, ok := st.mem[k]; ok {
				continue
			}
			srt := modSorts[k]
			x.havocMap(h, k, NamedVar("M0:"+k, srt), m, st.curTop())
		}
		for _, p := range phis {
			if !modPhi[p] {
				vals[p] = entry[p]
			} else {
				vals[p] = x.freshLike(h, p, entry[p])
			}
			f.env[p] = vals[p]
		}
		return h, vals
	}
	x.quiet++
	// phase 1: which memory does the body modify
	for round := 0; ; round++ {
		if round > 12 {
			x.quiet--
			panic(unsupported("loop frame analysis does not converge in %s", fr.fn.Name()))
		}
		h, vals := build()
		for _, u := range usr {
			if !u.dead {
				h.assume(u.f(h, vals))
			}
		}
		startMem := map[string]*Term{}
		for k, v := range h.mem {
			startMem[k] = v
		}
		changed := false
		same := map[*ssa.Phi]bool{}
		for _, p := range phis {
			same[p] = true
		}
		f := h.top1()
		stampH := stamp
		_ = stampH
		loopVars := h.top
		c := &loopCtx{cut: true}
		c.probe = func(bs *State, pv map[*ssa.Phi]Val) {
			for _, p := range phis {
				if !sameVal(pv[p], vals[p]) {
					same[p] = false
				}
			}
			for _, k := range memKeys(bs.mem) {
				cur := bs.mem[k]
				old, ok := startMem[k]
				if !ok {
					old = NamedVar("M0:"+k, cur.sort)
				}
				if cur == old {
					continue
				}
				m := mods[k]
				if m == nil {
					m = &memMod{}
					mods[k] = m
					modSorts[k] = cur.sort
					changed = true
				}
				if m.all {
					continue
				}
				if x.collectMods(bs, m, old, cur, loopVars, entrySt) {
					changed = true
				}
			}
		}
		f.loops[l.header] = c
		x.exploreSub([]*State{h}, func(*State) {})
		for _, p := range phis {
			if modPhi[p] && same[p] && round > 0 && false {
				modPhi[p] = false
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	// phase 2: Houdini over candidates
	var pcSumm []*cand
	for round := 0; ; round++ {
		if round > 40 {
			break
		}
		h, vals := build()
		if round == 0 {
			cands = x.genCands(st, fr, l, phis, entry, h, vals)
			// keep those that hold on entry
			x.withOracle(st)
			for _, c := range cands {
				t := c.f(st, entry)
				if t == TFalse || !x.valid(st, t, 600) {
					c.dead = true
				}
			}
		}
		h = h.clone()
		for _, c := range cands {
			if !c.dead {
				h.assume(c.f(h, vals))
			}
		}
		for _, u := range usr {
			if !u.dead {
				h.assume(u.f(h, vals))
			}
		}
		head, hv = h, vals
		changed := false
		f := h.top1()
		lc := &loopCtx{cut: true}
		nb := len(h.branch)
		var summ []*Term
		lc.probe = func(bs *State, pv map[*ssa.Phi]Val) {
			x.withOracle(bs)
			for _, c := range cands {
				if c.dead {
					continue
				}
				t := c.f(bs, pv)
				if t == TFalse || !x.valid(bs, t, 1000) {
					if x.verbose {
						fmt.Fprintf(os.Stderr, "   drop candidate %s in %s\n", c.name, fr.fn.Name())
					}
					c.dead = true
					changed = true
				}
			}
			summ = append(summ, And(bs.branch[nb:]...))
		}
		work := h.clone()
		f = work.top1()
		f.loops[l.header] = lc
		x.exploreSub([]*State{work}, func(*State) {})
		if !changed && pcSumm == nil && round < 30 {
			pcSumm = x.summCands(st, phis, entry, vals, summ, h, st)
			if len(pcSumm) > 0 {
				cands = append(cands, pcSumm...)
				continue
			}
		}
		if !changed {
			break
		}
	}
	x.quiet--
	x.withOracle(st)
	// obligations: user invariants hold on entry
	for _, u := range usr {
		t := u.f(st, entry)
		x.oblige(st, "inv-entry:"+u.name, "invariant", t, "loop entry in "+trimPkg(fr.fn.String()))
		if st.dead {
			return endPath
		}
	}
	if x.verbose && x.quiet == 0 {
		for _, c := range cands {
			if !c.dead {
				fmt.Fprintf(os.Stderr, "   loop invariant in %s: %s\n", fr.fn.Name(), c.name)
			}
		}
	}
	f := head.top1()
	f.loops[l.header] = &loopCtx{cut: true, env: &cutInfo{l: l, fn: fr.fn, phis: phis, entry: entry, head: hv, user: usr, entrySt: entrySt}}
	return []*State{head}
}

func initTopBig(st *State) *big.Int {
	t := st.curTop()
	return t.lo
}

var modSorts = map[string]string{}

func sameVal(a, b Val) bool { return fmt.Sprint(a) == fmt.Sprint(b) }

func (x *Exec) backEdge(st *State, ci *cutInfo, phis map[*ssa.Phi]Val) {
	for _, u := range ci.user {
		t := u.f(st, phis)
		x.oblige(st, "inv-step:"+u.name, "invariant", t, "back edge in "+trimPkg(ci.fn.String()))
		if st.dead {
			return
		}
	}
}

// collectMods walks from cur down to old and records which references were written.
func (x *Exec) collectMods(st *State, m *memMod, old, cur *Term, top *Term, entry *State) (changed bool) {
	t := cur
	add := func(a *Term) {
		if known(Ge(Root(a), top)) {
			return
		}
		for _, e := range m.except {
			if e == a || known(Eq(e, a)) {
				return
			}
		}
		if a.born < top.born || !mentionsYoung(a, top.born) {
			m.except = append(m.except, a)
			changed = true
			return
		}
		r := Root(a)
		for _, e := range m.roots {
			if e == r {
				return
			}
		}
		if !mentionsYoung(r, top.born) {
			m.roots = append(m.roots, r)
			changed = true
			return
		}
		for _, e := range m.roots {
			if known(Eq(e, r)) {
				return
			}
		}
		// provably one of the objects the calling functions hold
		var held []*Term
		seen := map[int]bool{}
		for _, f := range entry.frames {
			for _, v := range f.env {
				p, ok := v.(Ptr)
				if !ok || p.Ref == nil || mentionsYoung(p.Ref, top.born) || p.Ref.sort != a.sort || p.Ref.isConst() || seen[p.Ref.id] {
					continue
				}
				seen[p.Ref.id] = true
				held = append(held, p.Ref)
			}
		}
		sort.Slice(held, func(i, j int) bool { return held[i].id < held[j].id })
		for _, r := range held {
			if x.valid(st, Eq(r, a), 300) {
				for _, e := range m.except {
					if e == r {
						return
					}
				}
				m.except = append(m.except, r)
				changed = true
				return
			}
		}
		m.all = true
		changed = true
	}
	// a store may have been folded into an older one of the same address: walk both down to what they share
	base := map[*Term]bool{}
	for u := old; ; {
		base[u] = true
		if u.op != OStore {
			break
		}
		u = u.args[0]
	}
	for t != old {
		if m.all {
			return
		}
		if base[t] {
			for u := old; u != t; u = u.args[0] {
				add(u.args[1])
			}
			return
		}
		switch {
		case t.op == OStore:
			add(t.args[1])
			t = t.args[0]
		case havocs[t] != nil && !havocs[t].all:
			h := havocs[t]
			for _, e := range h.except {
				add(e)
			}
			for _, e := range h.roots {
				add(e)
			}
			t = h.parent
		default:
			m.all = true
			changed = true
			return
		}
	}
	return
}

// mentionsYoung: does t contain a variable created at or after stamp s
func mentionsYoung(t *Term, s int) bool { return t.born >= s }

func (x *Exec) havocMap(h *State, k string, parent *Term, m *memMod, top *Term) {
	nm := Fresh("H:"+k, parent.sort)
	h.mem[k] = nm
	mapTop[nm] = h.curTop()
	havocs[nm] = &havocInfo{parent: parent, top: top, except: m.except, roots: m.roots, all: m.all}
	if m.all {
		return
	}
	o := oracle
	oracle = nil
	q := BoundVar(nil, nil)
	conds := []*Term{Lt(Root(q), top)}
	for _, e := range m.except {
		conds = append(conds, Ne(q, e))
	}
	for _, e := range m.roots {
		conds = append(conds, Ne(Root(q), e))
	}
	rs := rngOf(parent.sort)
	s1 := mk(OSelect, rs, "", nil, nil, nm, q)
	f := forallP(q, Implies(And(conds...), Eq(s1, Select(parent, q))), s1)
	oracle = o
	h.assume(f)
	if k == keyB { // byte objects never change length
		l := len(m.except) + len(m.roots)
		_ = l
	}
}

// ---- candidate invariants ----

func (x *Exec) genCands(st *State, fr *Frame, l *loopT, phis []*ssa.Phi, entry map[*ssa.Phi]Val, h *State, hv map[*ssa.Phi]Val) []*cand {
	var out []*cand
	add := func(n string, f func(st *State, phi map[*ssa.Phi]Val) *Term) {
		out = append(out, &cand{name: n, f: f})
	}
	type comp struct {
		name string
		get  func(st *State, m map[*ssa.Phi]Val) *Term
		e    *Term
	}
	var ints []comp
	for _, p := range phis {
		p := p
		nm := p.Comment
		if nm == "" {
			nm = p.Name()
		}
		switch v := entry[p].(type) {
		case *Term:
			switch v.sort {
			case "Int":
				ints = append(ints, comp{nm, func(_ *State, m map[*ssa.Phi]Val) *Term { return m[p].(*Term) }, v})
			case "B":
				ints = append(ints, comp{"len(" + nm + ")", func(_ *State, m map[*ssa.Phi]Val) *Term { return Blen(m[p].(*Term)) }, Blen(v)})
				add(nm+" unchanged", func(_ *State, m map[*ssa.Phi]Val) *Term { return Eq(m[p].(*Term), v) })
			default:
				add(nm+" unchanged", func(_ *State, m map[*ssa.Phi]Val) *Term { return Eq(m[p].(*Term), v) })
			}
		case Slice:
			ints = append(ints, comp{"len(" + nm + ")", func(_ *State, m map[*ssa.Phi]Val) *Term { return m[p].(Slice).Len }, v.Len})
			add(nm+".ref unchanged", func(_ *State, m map[*ssa.Phi]Val) *Term { return Eq(m[p].(Slice).Ref, v.Ref) })
			add(nm+".off unchanged", func(_ *State, m map[*ssa.Phi]Val) *Term { return Eq(m[p].(Slice).Off, v.Off) })
			add(nm+".off+cap unchanged", func(_ *State, m map[*ssa.Phi]Val) *Term {
				s := m[p].(Slice)
				return Eq(Add(s.Off, s.Cap), Add(v.Off, v.Cap))
			})
			add(nm+".off+len unchanged", func(_ *State, m map[*ssa.Phi]Val) *Term {
				s := m[p].(Slice)
				return Eq(Add(s.Off, s.Len), Add(v.Off, v.Len))
			})
			add(nm+" non-nil", func(_ *State, m map[*ssa.Phi]Val) *Term { return Ne(m[p].(Slice).Ref, Int(0)) })
			top := st.curTop()
			add(nm+" nil or new", func(_ *State, m map[*ssa.Phi]Val) *Term {
				s := m[p].(Slice)
				return Or(Eq(s.Ref, Int(0)), Ge(Root(s.Ref), top))
			})
			add(nm+" nil iff empty", func(_ *State, m map[*ssa.Phi]Val) *Term {
				s := m[p].(Slice)
				return Or(Ne(s.Ref, Int(0)), Eq(s.Len, Int(0)))
			})
			add(nm+".off zero", func(_ *State, m map[*ssa.Phi]Val) *Term { return Eq(m[p].(Slice).Off, Int(0)) })
		case Ptr:
			add(nm+" unchanged", func(_ *State, m map[*ssa.Phi]Val) *Term { return Eq(m[p].(Ptr).Ref, v.Ref) })
			add(nm+" non-nil", func(_ *State, m map[*ssa.Phi]Val) *Term { return Ne(m[p].(Ptr).Ref, Int(0)) })
		case MapV:
			add(nm+" unchanged", func(_ *State, m map[*ssa.Phi]Val) *Term { return Eq(m[p].(MapV).Ref, v.Ref) })
		case Iface:
			add(nm+" nil", func(_ *State, m map[*ssa.Phi]Val) *Term { return Eq(m[p].(Iface).Tag, Int(0)) })
		}
	}
	for _, c := range ints {
		c := c
		add(c.name+" unchanged", func(s *State, m map[*ssa.Phi]Val) *Term { return Eq(c.get(s, m), c.e) })
		add(c.name+" >= entry", func(s *State, m map[*ssa.Phi]Val) *Term { return Ge(c.get(s, m), c.e) })
		add(c.name+" <= entry", func(s *State, m map[*ssa.Phi]Val) *Term { return Le(c.get(s, m), c.e) })
		add(c.name+" >= 0", func(s *State, m map[*ssa.Phi]Val) *Term { return Ge(c.get(s, m), Int(0)) })
	}
	for i, a := range ints {
		for _, b := range ints[i+1:] {
			a, b := a, b
			add(a.name+" moves with "+b.name, func(s *State, m map[*ssa.Phi]Val) *Term {
				return Eq(Sub(a.get(s, m), a.e), Sub(b.get(s, m), b.e))
			})
			add(a.name+" moves against "+b.name, func(s *State, m map[*ssa.Phi]Val) *Term {
				return Eq(Sub(a.get(s, m), a.e), Sub(b.e, b.get(s, m)))
			})
			add(a.name+" grows at most as "+b.name, func(s *State, m map[*ssa.Phi]Val) *Term {
				return Le(Sub(a.get(s, m), a.e), Sub(b.get(s, m), b.e))
			})
			add(b.name+" grows at most as "+a.name, func(s *State, m map[*ssa.Phi]Val) *Term {
				return Le(Sub(b.get(s, m), b.e), Sub(a.get(s, m), a.e))
			})
			for _, k := range []int64{2, 3, 4, 5, 8, 16} {
				k := k
				add(fmt.Sprintf("%s moves %d times %s", a.name, k, b.name), func(s *State, m map[*ssa.Phi]Val) *Term {
					return Eq(Sub(a.get(s, m), a.e), MulC(bi(k), Sub(b.get(s, m), b.e)))
				})
				add(fmt.Sprintf("%s moves %d times %s", b.name, k, a.name), func(s *State, m map[*ssa.Phi]Val) *Term {
					return Eq(Sub(b.get(s, m), b.e), MulC(bi(k), Sub(a.get(s, m), a.e)))
				})
			}
		}
	}
	for _, c := range ints {
		c := c
		for _, k := range []int64{2, 4, 5, 8, 16, 32, 64} {
			k := k
			add(fmt.Sprintf("%s steps by %d", c.name, k), func(s *State, m map[*ssa.Phi]Val) *Term {
				return Eq(ModT(Sub(c.get(s, m), c.e), Int(k)), Int(0))
			})
		}
	}
	// header condition relaxed by one iteration
	x.withOracle(h)
	if c := x.peek(h, h.top1()); c != nil {
		var conj []*Term
		if c.op == OAnd {
			conj = c.args
		} else {
			conj = []*Term{c}
		}
		if !l.body[fr.block.Succs[0]] {
			conj = []*Term{Not(c)}
		}
		for _, t := range conj {
			if t.op == OLe0 {
				e := t.args[0]
				f := x.relax(e, phis, hv)
				if f != nil {
					for _, d := range []int64{1, 2, 4, 5, 16} {
						d := d
						add(fmt.Sprintf("header bound +%d: %s", d, trunc(e.String())), func(s *State, m map[*ssa.Phi]Val) *Term { return Le0(Sub(f(m), Int(d))) })
					}
				}
			}
		}
	}
	x.withOracle(st)
	// memory: cells/fields written with one reference keep their type facts; byte objects keep length
	for _, k := range memKeys(h.mem) {
		nm := h.mem[k]
		hi := havocs[nm]
		if hi == nil || hi.all {
			continue
		}
		for _, e := range hi.except {
			e := e
			k := k
			if k == keyB {
				l0 := Blen(Select(hi.parent, e))
				add("len of bytes "+trunc(e.String()), func(s *State, m map[*ssa.Phi]Val) *Term { return Eq(Blen(s.bytesAt(e)), l0) })
				continue
			}
			if strings.HasPrefix(k, "C:") || strings.HasPrefix(k, "F:") {
				v0 := Select(hi.parent, e)
				srt := nm.sort
				add(k+" at "+trunc(e.String())+" unchanged", func(s *State, m map[*ssa.Phi]Val) *Term { return Eq(Select(s.m(k, srt), e), v0) })
				if v0.sort == "Int" {
					add(k+" at "+trunc(e.String())+" >= entry", func(s *State, m map[*ssa.Phi]Val) *Term { return Ge(Select(s.m(k, srt), e), v0) })
					add(k+" at "+trunc(e.String())+" >= 0", func(s *State, m map[*ssa.Phi]Val) *Term { return Ge(Select(s.m(k, srt), e), Int(0)) })
					add(k+" at "+trunc(e.String())+" nonzero", func(s *State, m map[*ssa.Phi]Val) *Term { return Ne(Select(s.m(k, srt), e), Int(0)) })
				}
			}
		}
		if k == keyB {
			for _, r := range hi.roots {
				r := r
				l0 := Blen(Select(hi.parent, r))
				add("len of bytes "+trunc(r.String()), func(s *State, m map[*ssa.Phi]Val) *Term { return Eq(Blen(s.bytesAt(r)), l0) })
			}
		}
	}
	return out
}

func trunc(s string) string {
	if len(s) > 60 {
		return s[:60]
	}
	return s
}

// relax: the linear expression e over phi values, as a function of the phi environment.
func (x *Exec) relax(e *Term, phis []*ssa.Phi, hv map[*ssa.Phi]Val) func(m map[*ssa.Phi]Val) *Term {
	return func(m map[*ssa.Phi]Val) *Term {
		sub := map[*Term]*Term{}
		for _, p := range phis {
			pairVals(hv[p], m[p], sub)
		}
		o := oracle
		oracle = nil
		defer func() { oracle = o }()
		return Subst(e, sub)
	}
}

func pairVals(from, to Val, sub map[*Term]*Term) {
	add := func(a, b *Term) {
		if a.op == OVar && a != b {
			sub[a] = b
		}
	}
	switch f := from.(type) {
	case *Term:
		if t, ok := to.(*Term); ok {
			add(f, t)
		}
	case Slice:
		if t, ok := to.(Slice); ok {
			add(f.Ref, t.Ref)
			add(f.Off, t.Off)
			add(f.Len, t.Len)
			add(f.Cap, t.Cap)
		}
	case Ptr:
		if t, ok := to.(Ptr); ok {
			add(f.Ref, t.Ref)
		}
	case MapV:
		if t, ok := to.(MapV); ok {
			add(f.Ref, t.Ref)
		}
	}
}

// summCands: forall j in [i0,i): Q(j), Q being what must have held for an iteration to continue.
func (x *Exec) summCands(st *State, phis []*ssa.Phi, entry, hv map[*ssa.Phi]Val, summ []*Term, h *State, base *State) []*cand {
	if len(summ) == 0 || len(summ) > 6 {
		return nil
	}
	var out []*cand
	for _, p := range phis {
		i, ok := hv[p].(*Term)
		if !ok || i.sort != "Int" || i.op != OVar {
			continue
		}
		e := entry[p].(*Term)
		born := h.top.born
		var alts []*Term
		bad := false
		for _, s := range summ {
			var conj []*Term
			if s.op == OAnd {
				conj = s.args
			} else {
				conj = []*Term{s}
			}
			var keep []*Term
			for _, c := range conj {
				if onlyYoung(c, born, i) {
					keep = append(keep, c)
				}
			}
			if len(keep) == 0 {
				bad = true
				break
			}
			alts = append(alts, And(keep...))
		}
		if bad {
			continue
		}
		q := Or(alts...)
		if q == TTrue || !mentions(q, i) {
			continue
		}
		for _, shift := range []int64{0, 1} { // range loops test element idx+1
			shift := shift
			_ = shift
			if shift == 1 {
				break
			}
			bv := BoundVar(nil, nil)
			if i.lo != nil && i.hi != nil { // e <= bv < i, both of i's type
				bv = BoundVar(i.lo, new(big.Int).Sub(i.hi, bigOne))
			}
			o := oracle
			oracle = nil
			body := Subst(q, map[*Term]*Term{i: bv})
			oracle = o
			add := func(n string, f func(st *State, phi map[*ssa.Phi]Val) *Term) {
				out = append(out, &cand{name: n, f: f})
			}
			p := p
			add("earlier iterations: "+trunc(q.String()), func(s *State, m map[*ssa.Phi]Val) *Term {
				o := oracle
				oracle = nil
				defer func() { oracle = o }()
				return Forall([]*Term{bv}, Implies(And(Le(e, bv), Lt(bv, m[p].(*Term))), body))
			})
		}
	}
	return out
}

// onlyYoung: every variable at least as young as born inside t is i itself.
func onlyYoung(t *Term, born int, i *Term) bool {
	seen := map[int]bool{}
	var rec func(*Term) bool
	rec = func(u *Term) bool {
		if u == i || u.born < born || seen[u.id] {
			return true
		}
		seen[u.id] = true
		if u.op == OVar {
			return false
		}
		for _, a := range u.args {
			if !rec(a) {
				return false
			}
		}
		return true
	}
	return rec(t)
}

// ---- invariants from contract files ----

// userInvs binds inv_<func>_<ordinal> functions: parameters are matched by name against loop
// variables, function parameters and named locals; old_ prefixed ones against the value on entry.
func (x *Exec) userInvs(st *State, fr *Frame, l *loopT, phis []*ssa.Phi, entry map[*ssa.Phi]Val, entrySt *State) []*cand {
	var out []*cand
	x.wframe = nil
	for _, f := range st.frames {
		if f.fn == x.wrapper {
			x.wframe = f
		}
	}
	base := fmt.Sprintf("inv_%s_%d", sanitizeId(fr.fn), l.ord)
	for name, fn := range x.invs {
		if !x.invFor(name, base) {
			continue
		}
		fn := fn
		binds := make([]func(st *State, m map[*ssa.Phi]Val) Val, len(fn.Params))
		skip := false
		for k, prm := range fn.Params {
			b := x.bindParam(fr, prm, phis, entry, l)
			if b == nil && strings.HasPrefix(prm.Name(), "w_") { // meant for another contract
				skip = true
				break
			}
			if b == nil {
				panic(unsupported("invariant %s: no value named %s in %s", name, prm.Name(), trimPkg(fr.fn.String())))
			}
			binds[k] = b
		}
		if skip {
			continue
		}
		out = append(out, &cand{name: name, user: true, f: func(s *State, m map[*ssa.Phi]Val) *Term {
			var args []Val
			for _, b := range binds {
				args = append(args, b(s, m))
			}
			t, fs := x.evalBool(s, fn, args, nil)
			for _, f := range fs {
				s.assume(f)
			}
			return t
		}})
	}
	return out
}

func sanitizeId(fn *ssa.Function) string {
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name() + "_" + fn.Name()
		}
	}
	return strings.ReplaceAll(fn.Name(), "$", "_")
}

func (x *Exec) bindParam(fr *Frame, prm *ssa.Parameter, phis []*ssa.Phi, entry map[*ssa.Phi]Val, l *loopT) func(*State, map[*ssa.Phi]Val) Val {
	name := prm.Name()
	if strings.HasPrefix(name, "w_") { // a named local of the contract
		return x.bindLocal(x.wframe, strings.TrimPrefix(name, "w_"), prm.Type())
	}
	old := strings.HasPrefix(name, "old_")
	want := strings.TrimPrefix(name, "old_")
	pick := func(p *ssa.Phi) func(*State, map[*ssa.Phi]Val) Val {
		if old {
			v := entry[p]
			return func(*State, map[*ssa.Phi]Val) Val { return v }
		}
		return func(_ *State, m map[*ssa.Phi]Val) Val { return m[p] }
	}
	for _, p := range phis {
		if p.Comment == want && types.Identical(p.Type(), prm.Type()) {
			return pick(p)
		}
	}
	if want == "rangeindex" {
		for _, p := range phis {
			if p.Comment == "rangeindex" {
				return pick(p)
			}
		}
	}
	for _, p := range fr.fn.Params {
		if p.Name() == want {
			v := fr.env[p]
			return func(*State, map[*ssa.Phi]Val) Val { return v }
		}
	}
	if b := x.bindLocal(fr, want, prm.Type()); b != nil {
		return b
	}
	for _, fv := range fr.fn.FreeVars {
		if fv.Name() == want {
			if p, ok := fr.env[fv].(Ptr); ok {
				t := fv.Type().(*types.Pointer).Elem()
				return func(s *State, _ map[*ssa.Phi]Val) Val { return s.Load(p, t) }
			}
		}
	}
	// a unique loop variable of that type
	var c []*ssa.Phi
	for _, p := range phis {
		if types.Identical(p.Type(), prm.Type()) {
			c = append(c, p)
		}
	}
	if len(c) == 1 {
		return pick(c[0])
	}
	return nil
}

// bindLocal finds the value of a named local of the frame's function (debug references).
func (x *Exec) bindLocal(fr *Frame, want string, ty types.Type) func(*State, map[*ssa.Phi]Val) Val {
	if fr == nil {
		return nil
	}
	for _, p := range fr.fn.Params {
		if p.Name() == want && types.Identical(p.Type(), ty) {
			v := fr.env[p]
			return func(*State, map[*ssa.Phi]Val) Val { return v }
		}
	}
	var cells []*ssa.Alloc
	for _, b := range fr.fn.Blocks {
		for _, ins := range b.Instrs {
			if al, ok := ins.(*ssa.Alloc); ok && al.Comment == want && types.Identical(al.Type().(*types.Pointer).Elem(), ty) && fr.env[al] != nil {
				cells = append(cells, al)
			}
		}
	}
	if len(cells) == 1 {
		if p, ok := fr.env[cells[0]].(Ptr); ok {
			return func(s *State, _ map[*ssa.Phi]Val) Val { return s.Load(p, ty) }
		}
	}
	// a variable that lives in memory is read there, not where it was last assigned
	for _, addr := range []bool{true, false} {
		for _, b := range fr.fn.Blocks {
			for _, ins := range b.Instrs {
				d, ok := ins.(*ssa.DebugRef)
				if !ok || d.Object() == nil || d.Object().Name() != want || d.IsAddr != addr {
					continue
				}
				v, ok := fr.env[d.X]
				if !ok {
					if c, isc := d.X.(*ssa.Const); isc {
						v, ok = constVal(c), true
					}
				}
				if !ok {
					continue
				}
				if d.IsAddr {
					p, isp := v.(Ptr)
					if !isp {
						continue
					}
					t := d.X.Type().(*types.Pointer).Elem()
					if !types.Identical(t, ty) {
						continue
					}
					return func(s *State, _ map[*ssa.Phi]Val) Val { return s.Load(p, t) }
				}
				if types.Identical(d.X.Type(), ty) {
					return func(*State, map[*ssa.Phi]Val) Val { return v }
				}
			}
		}
	}
	return nil
}
