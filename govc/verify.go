package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Result of verifying one contract.
type Result struct {
	Wrapper   string
	Doc       string
	Targets   []string
	Obls      []*Obligation
	Limits    []string
	Covers    map[string]bool
	Missing   []string // covers and postconditions never reached
	Paths     int
	Assumed   map[string]int
	Inlined   map[string]int
	Contracts map[string]int
	LoopsCut  map[string]int
	LoopsUn   map[string]int
	SolverSec float64
	Queries   int
	Seconds   float64
	Error     string
	SMTErrors int
}

func (x *Exec) reset() {}

func (P *Program) wrapperFn(w *Wrapper) *ssa.Function {
	sp := P.pkgs[w.Pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(w.Func)
}

func (P *Program) Verify(w *Wrapper, verbose bool, tier string) *Result {
	t0 := time.Now()
	r := &Result{Wrapper: w.Name, Doc: strings.TrimSpace(w.Doc), Targets: w.Targets}
	fn := P.wrapperFn(w)
	if fn == nil {
		r.Error = "no such wrapper"
		return r
	}
	tm := w.Time
	if tm == 0 {
		tm = 90
	}
	if tier == "thorough" {
		tm *= 4
	}
	smtErrors = 0
	x := &Exec{P: P, S: NewSolver("z3-new"), wrapper: fn, obls: map[string]*Obligation{}, modular: map[*ssa.Function]*ssa.Function{}, unrolls: w.Unroll,
		invs: map[string]*ssa.Function{}, assumed: map[string]int{}, inlined: map[string]int{}, contracts: map[string]int{}, maxPaths: 20000,
		deadline: time.Now().Add(time.Duration(tm) * time.Second), loopInfo: map[*ssa.Function]map[*ssa.BasicBlock]*loopT{}, covers: map[string]bool{},
		hardTime: 8 * time.Second, loopsCut: map[string]int{}, loopsUnrolled: map[string]int{}, verbose: verbose, mutable: map[*ssa.Global]bool{}}
	if tier == "thorough" {
		x.hardTime = 60 * time.Second
	}
	defer x.S.Close()
	for _, sp := range P.pkgs {
		for n, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "inv_") {
				x.invs[n] = f
			}
		}
	}
	if len(w.Targets) > 0 {
		x.target = P.funcByTrim(w.Targets[0])
		if x.target == nil {
			x.limit("target " + w.Targets[0] + " not found")
		}
	}
	for _, u := range w.Uses {
		var mw *Wrapper
		for _, o := range P.wrappers {
			if o.Name == u || o.Func == u {
				mw = o
			}
		}
		if mw == nil || !mw.Modular {
			r.Error = "uses unknown or non-modular contract " + u
			return r
		}
		tf := P.funcByTrim(mw.Targets[0])
		if tf == nil {
			x.limit("target " + mw.Targets[0] + " not found")
			continue
		}
		x.modular[tf] = P.wrapperFn(mw)
	}
	st := newState()
	func() {
		defer func() {
			if e := recover(); e != nil {
				if u, ok := e.(unsupportedErr); ok {
					x.limit("unsupported: " + u.msg)
					return
				}
				if verbose {
					panic(e)
				}
				x.limit(fmt.Sprintf("internal error: %v", e))
			}
		}()
		// ghost variables of the models start at their zero values
		if mp := P.pkgs[modPath+"/zzmodels"]; mp != nil {
			var gs []string
			for n, m := range mp.Members {
				if _, ok := m.(*ssa.Global); ok && strings.HasPrefix(n, "Ghost") {
					gs = append(gs, n)
				}
			}
			sort.Strings(gs)
			for _, n := range gs {
				g := mp.Members[n].(*ssa.Global)
				t := g.Type().(*types.Pointer).Elem()
				gp := Ptr{Ref: globalRef(g)}
				keys, sorts := leafKeys(gp, t)
				for i, z := range st.flat(zero(t), t) {
					tabSet(keys[i], sorts[i], gp.Ref, z)
				}
			}
		}
		var args []Val
		for _, p := range fn.Params {
			v := st.symbolic(p.Name(), p.Type())
			args = append(args, v)
			x.inputs = append(x.inputs, inputVar{p.Name(), p.Type(), v})
		}
		f := x.push(st, fn, args, nil, nil)
		f.mode = "verify"
		f.contract = &contractCtx{target: x.target}
		x.explore([]*State{st}, func(e *State) {
			if w.Modular {
				x.withOracle(e)
				x.frameCheck(e)
			}
		})
	}()
	for _, o := range x.oblOrder {
		r.Obls = append(r.Obls, x.obls[o])
	}
	for _, c := range w.Covers {
		if !x.covers[c] {
			r.Missing = append(r.Missing, "cover:"+c)
		}
	}
	for _, l := range w.Labels {
		if x.obls[l] == nil {
			r.Missing = append(r.Missing, "postcondition never reached: "+l)
		}
	}
	if x.paths == 0 && len(x.limits) == 0 {
		r.Missing = append(r.Missing, "no path reaches the end of the contract")
	}
	r.Limits = x.limits
	r.Covers = x.covers
	r.Paths = x.paths
	r.Assumed, r.Inlined, r.Contracts = x.assumed, x.inlined, x.contracts
	r.LoopsCut, r.LoopsUn = x.loopsCut, x.loopsUnrolled
	r.SolverSec = x.S.Time.Seconds()
	r.Queries = x.S.N
	r.Seconds = time.Since(t0).Seconds()
	r.SMTErrors = smtErrors
	return r
}

// frameCheck: a contract used at call sites havocs only what it lists, so nothing else that
// existed before the call may change.
func (x *Exec) frameCheck(st *State) {
	mods, _ := st.ghost["modifies"].([]Val)
	top := Int(initTop)
	strip := func(r *Term) *Term {
		for r.op == OUF && r.name == "fld" {
			r = r.args[1]
		}
		return r
	}
	for _, k := range memKeys(st.mem) {
		cur := st.mem[k]
		old := NamedVar("M0:"+k, cur.sort)
		t := cur
		seen := map[*Term]bool{}
		check := func(a *Term) {
			if seen[a] {
				return
			}
			seen[a] = true
			if known(Ge(Root(a), top)) {
				return
			}
			cond := Eq(Select(cur, a), Select(old, a))
			if cond == TTrue {
				return
			}
			for _, m := range mods {
				i := m.(Iface)
				switch v := i.V.(type) {
				case Ptr:
					if strip(a) == v.Ref || known(Eq(strip(a), v.Ref)) {
						return
					}
				case Slice:
					if k == keyB && (a == v.Ref || known(Eq(a, v.Ref))) {
						c, o := Select(cur, a), Select(old, a)
						e := Add(v.Off, v.Len)
						cond = And(Eq(SubB(c, Int(0), v.Off), SubB(o, Int(0), v.Off)), Eq(SubB(c, e, Blen(c)), SubB(o, e, Blen(o))))
					}
				}
			}
			x.oblige(st, "frame", "frame", Or(Ge(Root(a), top), cond), "memory "+k+" changed by the function but not listed in Modifies")
		}
		for t != old {
			if t.op == OStore {
				check(t.args[1])
				t = t.args[0]
				continue
			}
			if h := havocs[t]; h != nil && !h.all && len(h.roots) == 0 {
				for _, e := range h.except {
					check(e)
				}
				t = h.parent
				continue
			}
			q := BoundVar(nil, nil)
			o := oracle
			oracle = nil
			f := Forall([]*Term{q}, Implies(Lt(Root(q), top), Eq(Select(cur, q), Select(old, q))))
			oracle = o
			x.oblige(st, "frame", "frame", f, "memory "+k+" changed by the function but not listed in Modifies")
			break
		}
	}
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func printResult(r *Result) {
	n, d := 0, 0
	for _, o := range r.Obls {
		n += o.VCs
		d += o.Discharged
	}
	st := "ok"
	if d < n || len(r.Missing) > 0 {
		st = "FAILED"
	} else if len(r.Limits) > 0 {
		st = "LIMIT"
	}
	if r.Error != "" {
		st = "ERROR " + r.Error
	}
	fmt.Fprintf(os.Stderr, "%-50s %s vcs=%d/%d paths=%d %.1fs (solver %.1fs, %d queries)\n", r.Wrapper, st, d, n, r.Paths, r.Seconds, r.SolverSec, r.Queries)
	for _, o := range r.Obls {
		for i, f := range o.Failed {
			if i >= 3 {
				fmt.Fprintf(os.Stderr, "   ... %d more\n", len(o.Failed)-i)
				break
			}
			fmt.Fprintf(os.Stderr, "   failed %s: %s (%s %s)\n      goal: %s\n      path: %s\n      inputs: %.200s\n", o.Name, f.Where, f.Answer, f.Reason, trunc2(f.Goal, 1200), trunc2(strings.Join(f.Trace, " "), 600), fmt.Sprint(f.Inputs))
		}
	}
	for _, m := range r.Missing {
		fmt.Fprintln(os.Stderr, "   missing:", m)
	}
	for _, m := range r.Limits {
		fmt.Fprintln(os.Stderr, "   limit:", m)
	}
}

func trunc2(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
