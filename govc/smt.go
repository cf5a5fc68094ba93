package main

// SMT-LIB back ends: an incremental z3 process for path feasibility and most
// obligations, plus one-shot runs of other solvers for the hard ones.

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"
)

const axioms = `
(declare-sort B 0)
(declare-fun blen (B) Int)
(declare-fun bat (B Int) Int)
(declare-fun cat (B B) B)
(declare-fun sub (B Int Int) B)
(declare-fun unit (Int) B)
(declare-fun rep (Int Int) B)
(declare-const empty B)
(declare-fun root (Int) Int)
(declare-fun fld (Int Int) Int)
(declare-fun fldk (Int) Int)
(declare-fun fldinv (Int) Int)
(declare-fun elem (Int Int) Int)
(declare-fun elinv1 (Int) Int)
(declare-fun elinv2 (Int) Int)
(assert (forall ((x B)) (! (>= (blen x) 0) :pattern ((blen x)))))
(assert (forall ((x B) (i Int)) (! (and (<= 0 (bat x i)) (<= (bat x i) 255)) :pattern ((bat x i)))))
(assert (forall ((x B) (y B)) (! (= (blen (cat x y)) (+ (blen x) (blen y))) :pattern ((cat x y)))))
(assert (forall ((x B) (y B) (i Int)) (! (= (bat (cat x y) i) (ite (< i (blen x)) (bat x i) (bat y (- i (blen x))))) :pattern ((bat (cat x y) i)))))
(assert (forall ((x B) (y B)) (! (and (= (sub (cat x y) 0 (blen x)) x) (= (sub (cat x y) (blen x) (+ (blen x) (blen y))) y)) :pattern ((cat x y)))))
(assert (forall ((x B) (a Int) (b Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (blen x))) (= (blen (sub x a b)) (- b a))) :pattern ((sub x a b)))))
(assert (forall ((x B) (a Int) (b Int) (i Int)) (! (=> (and (<= 0 i) (< i (- b a)) (<= 0 a) (<= b (blen x))) (= (bat (sub x a b) i) (bat x (+ a i)))) :pattern ((bat (sub x a b) i)))))
(assert (forall ((x B) (a Int) (b Int)) (! (=> (and (= a 0) (= b (blen x))) (= (sub x a b) x)) :pattern ((sub x a b)))))
(assert (forall ((x B) (a Int) (b Int) (c Int) (d Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (blen x)) (<= 0 c) (<= c d) (<= d (- b a))) (= (sub (sub x a b) c d) (sub x (+ a c) (+ a d)))) :pattern ((sub (sub x a b) c d)))))
(assert (forall ((x B) (y B) (a Int) (b Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (+ (blen x) (blen y)))) (= (sub (cat x y) a b) (ite (<= b (blen x)) (sub x a b) (ite (>= a (blen x)) (sub y (- a (blen x)) (- b (blen x))) (cat (sub x a (blen x)) (sub y 0 (- b (blen x)))))))) :pattern ((sub (cat x y) a b)))))
(assert (forall ((v Int)) (! (and (= (blen (unit v)) 1) (=> (and (<= 0 v) (<= v 255)) (= (bat (unit v) 0) v))) :pattern ((unit v)))))
(assert (forall ((v Int) (n Int)) (! (=> (>= n 0) (= (blen (rep v n)) n)) :pattern ((rep v n)))))
(assert (forall ((v Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n) (<= 0 v) (<= v 255)) (= (bat (rep v n) i) v)) :pattern ((bat (rep v n) i)))))
(assert (= (blen empty) 0))
(assert (forall ((x B)) (! (=> (= (blen x) 0) (= x empty)) :pattern ((blen x)))))
(assert (forall ((k Int) (x Int)) (! (and (= (fldinv (fld k x)) x) (= (fldk (fld k x)) k) (= (root (fld k x)) (root x)) (< (fld k x) (- 2000000000))) :pattern ((fld k x)))))
(assert (forall ((x Int) (i Int)) (! (and (= (elinv1 (elem x i)) x) (= (elinv2 (elem x i)) i) (= (fldk (elem x i)) (- 1)) (= (root (elem x i)) (root x)) (< (elem x i) (- 2000000000))) :pattern ((elem x i)))))
(assert (= (root 0) 0))
(declare-fun undec (B) Int)
(declare-fun isdec (B) Bool)
(declare-fun noslash (B) Bool)
`

var predeclared = map[string]bool{"blen": true, "bat": true, "cat": true, "sub": true, "unit": true, "rep": true, "root": true, "fld": true, "elem": true, "select": true, "store": true, "undec": true, "isdec": true, "noslash": true}

// extraAxioms are added by models (decl name -> axiom text), emitted when the function is first used.
var extraAxioms = map[string]string{}

// printer renders terms; definitions for shared subterms are emitted to out once.
type printer struct {
	out     *bytes.Buffer
	defined map[int]bool
	decl    map[string]bool
	pendAx  []string
	newLits []*Term
	lits    map[int]bool
}

func newPrinter() *printer {
	return &printer{out: &bytes.Buffer{}, defined: map[int]bool{}, decl: map[string]bool{}, lits: map[int]bool{}}
}

func bigStr(k *big.Int) string {
	if k.Sign() < 0 {
		return "(- " + new(big.Int).Neg(k).String() + ")"
	}
	return k.String()
}

func (p *printer) ref(t *Term) string {
	switch t.op {
	case OConst:
		return bigStr(t.k)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OBound:
		return "|" + t.name + "|"
	case OVar:
		n := "|" + t.name + "|"
		if !p.decl[n] {
			p.decl[n] = true
			fmt.Fprintf(p.out, "(declare-const %s %s)\n", n, t.sort)
			if refMap(t) {
				if top := memTop(t); top != nil {
					ts := p.ref(top)
					sel, q := "(select "+n+" q)", "((q Int))"
					if strings.Count(t.sort, "Array") == 2 {
						sel, q = "(select (select "+n+" q) i)", "((q Int) (i Int))"
					}
					p.pendAx = append(p.pendAx, fmt.Sprintf("(assert (forall %s (! (and (< %s %s) (or (>= %s 0) (< %s (- 2000000000))) (< (root %s) %s) (>= (root %s) 0) (= (= (root %s) 0) (= %s 0))) :pattern (%s))))", q, sel, ts, sel, sel, sel, ts, sel, sel, sel, sel))
				}
			}
		}
		return n
	case OLit:
		if t == TEmpty {
			return "empty"
		}
		n := fmt.Sprintf("lit%d", t.id)
		if !p.decl[n] {
			p.decl[n] = true
			fmt.Fprintf(p.out, "(declare-const %s B)\n", n)
		}
		if !p.lits[t.id] {
			p.lits[t.id] = true
			p.newLits = append(p.newLits, t)
		}
		return n
	}
	if t.bound {
		return p.body(t)
	}
	n := fmt.Sprintf("t%d", t.id)
	if !p.defined[t.id] {
		b := p.body(t)
		p.defined[t.id] = true
		fmt.Fprintf(p.out, "(define-fun %s () %s %s)\n", n, t.sort, b)
	} else {
		p.relit(t)
	}
	return n
}

// relit makes sure literals inside an already defined term have their facts in scope.
func (p *printer) relit(t *Term) {}

func (p *printer) body(t *Term) string {
	rs := func(as []*Term) string {
		var s []string
		for _, a := range as {
			s = append(s, p.ref(a))
		}
		return strings.Join(s, " ")
	}
	switch t.op {
	case OLin:
		var s []string
		for i, a := range t.args {
			if t.coefs[i].Cmp(bigOne) == 0 {
				s = append(s, p.ref(a))
			} else {
				s = append(s, "(* "+bigStr(t.coefs[i])+" "+p.ref(a)+")")
			}
		}
		if t.k.Sign() != 0 {
			s = append(s, bigStr(t.k))
		}
		if len(s) == 1 {
			return s[0]
		}
		return "(+ " + strings.Join(s, " ") + ")"
	case OMul:
		return "(* " + rs(t.args) + ")"
	case ODiv:
		return "(div " + rs(t.args) + ")"
	case OMod:
		return "(mod " + rs(t.args) + ")"
	case OIte:
		return "(ite " + rs(t.args) + ")"
	case ONot:
		return "(not " + rs(t.args) + ")"
	case OAnd:
		return "(and " + rs(t.args) + ")"
	case OOr:
		return "(or " + rs(t.args) + ")"
	case OEq:
		return "(= " + rs(t.args) + ")"
	case OLe0:
		return "(<= " + p.ref(t.args[0]) + " 0)"
	case OSelect:
		return "(select " + rs(t.args) + ")"
	case OStore:
		return "(store " + rs(t.args) + ")"
	case OForall:
		var vs []string
		for _, v := range t.args[1:] {
			vs = append(vs, fmt.Sprintf("(|%s| %s)", v.name, v.sort))
		}
		b := p.ref(t.args[0])
		pat := ""
		if ps := forallPats[t]; ps != nil {
			pat = " :pattern (" + rs(ps) + ")"
			return "(forall (" + strings.Join(vs, " ") + ") (! " + b + pat + "))"
		}
		if ps := forallAlts[t]; ps != nil {
			for _, q := range ps {
				pat += " :pattern (" + p.ref(q) + ")"
			}
			return "(forall (" + strings.Join(vs, " ") + ") (! " + b + pat + "))"
		}
		return "(forall (" + strings.Join(vs, " ") + ") " + b + ")"
	case OCat:
		s := p.ref(t.args[len(t.args)-1])
		for i := len(t.args) - 2; i >= 0; i-- {
			s = "(cat " + p.ref(t.args[i]) + " " + s + ")"
		}
		return s
	case OSub:
		return "(sub " + rs(t.args) + ")"
	case ORep:
		return "(rep " + rs(t.args) + ")"
	case OUnit:
		return "(unit " + rs(t.args) + ")"
	case OUF:
		if t.name == "constarr" {
			return "((as const " + t.sort + ") " + p.ref(t.args[0]) + ")"
		}
		n := t.name
		if n == "fld" || n == "elem" {
			for _, c := range t.args {
				if !isAllocBase(c) {
					continue
				}
				cs := p.ref(c)
				if k := "root" + cs; !p.decl[k] {
					p.decl[k] = true
					if c.isConst() && c.k.Sign() < 0 {
						continue
					}
					p.pendAx = append(p.pendAx, fmt.Sprintf("(assert (= (root %s) %s))", cs, cs))
				}
			}
		}
		if !predeclared[n] {
			n = "|" + n + "|"
			if !p.decl[n] {
				p.decl[n] = true
				d := ufs[t.name]
				if len(t.args) == 0 {
					fmt.Fprintf(p.out, "(declare-fun %s () %s)\n", n, t.sort)
				} else {
					fmt.Fprintf(p.out, "(declare-fun %s (%s) %s)\n", n, strings.Join(d.dom, " "), d.rng)
				}
			}
			if ax := extraAxioms[t.name]; ax != "" && !p.decl["axiom "+n] {
				p.decl["axiom "+n] = true
				// declarations inside an axiom block are made once
				var rest []string
				for _, l := range strings.Split(ax, "\n") {
					if strings.HasPrefix(l, "(declare-fun ") {
						dn := strings.Trim(strings.Fields(l)[1], "|")
						if p.decl["|"+dn+"|"] {
							continue
						}
						p.decl["|"+dn+"|"] = true
						fmt.Fprintln(p.out, l)
						continue
					}
					rest = append(rest, l)
				}
				p.pendAx = append(p.pendAx, strings.Join(rest, "\n"))
			}
		}
		if len(t.args) == 0 {
			return n
		}
		return "(" + n + " " + rs(t.args) + ")"
	}
	panic(fmt.Sprint("print op ", t.op))
}

var forallPats = map[*Term][]*Term{}

func litFacts(t *Term, p *printer) string {
	n := fmt.Sprintf("lit%d", t.id)
	var sb strings.Builder
	fmt.Fprintf(&sb, "(assert (= (blen %s) %d))\n", n, len(t.name))
	for i := 0; i < len(t.name) && i < 64; i++ {
		fmt.Fprintf(&sb, "(assert (= (bat %s %d) %d))\n", n, i, t.name[i])
	}
	return sb.String()
}

// literals occurring in a term
func collectLits(t *Term, seen map[int]bool, out map[int]*Term) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.op == OLit && t != TEmpty {
		out[t.id] = t
	}
	for _, a := range t.args {
		collectLits(a, seen, out)
	}
}

// range facts of free integer variables
func collectVars(t *Term, seen map[int]bool, out *[]*Term) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	if (t.op == OVar || t.op == OSelect || t.op == OUF && !predeclared[t.name]) && t.sort == "Int" && !t.bound && (t.lo != nil || t.hi != nil) {
		*out = append(*out, t)
	}
	for _, a := range t.args {
		collectVars(a, seen, out)
	}
}

func rangeFact(t *Term, p *printer) string {
	s := ""
	if t.lo != nil {
		s += fmt.Sprintf("(assert (<= %s %s))\n", bigStr(t.lo), p.ref(t))
	}
	if t.hi != nil {
		s += fmt.Sprintf("(assert (<= %s %s))\n", p.ref(t), bigStr(t.hi))
	}
	return s
}

type solverLevel struct {
	asserts []*Term
	facts   map[int]bool // literal/range facts asserted at this level
	axioms  map[string]bool
}

type Solver struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	pr     *printer
	levels []*solverLevel
	axAll  []string
	bin    string
	Time   time.Duration
	N      int
	Reason string // why the last answer was unknown
	cache  map[string]string
}

func NewSolver(bin string) *Solver {
	s := &Solver{bin: bin, cache: map[string]string{}}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-memory:4000")
	var err error
	s.in, err = s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.out = bufio.NewReader(o)
	s.pr = newPrinter()
	s.levels = nil
	s.axAll = nil
	io.WriteString(s.in, "(set-option :global-declarations true)\n(set-option :smt.mbqi false)\n(set-option :auto_config false)\n(set-option :smt.random_seed 1)\n")
	io.WriteString(s.in, axioms)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) factScope(id int) bool {
	for _, l := range s.levels {
		if l.facts[id] {
			return true
		}
	}
	return false
}

func (s *Solver) axScope(a string) bool {
	for _, l := range s.levels {
		if l.axioms[a] {
			return true
		}
	}
	return false
}

// emit asserts at the current top level
func (s *Solver) emit(ts []*Term) {
	lv := s.levels[len(s.levels)-1]
	s.pr.out.Reset()
	var tail bytes.Buffer
	lits := map[int]*Term{}
	var vars []*Term
	seen1, seen2 := map[int]bool{}, map[int]bool{}
	for _, t := range ts {
		collectLits(t, seen1, lits)
		collectVars(t, seen2, &vars)
		r := s.pr.ref(t)
		fmt.Fprintf(&tail, "(assert %s)\n", r)
	}
	var ids []int
	for id := range lits {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		if !s.factScope(id) {
			lv.facts[id] = true
			s.pr.ref(lits[id])
			tail.WriteString(litFacts(lits[id], s.pr))
		}
	}
	for _, v := range vars {
		if !s.factScope(v.id) {
			lv.facts[v.id] = true
			tail.WriteString(rangeFact(v, s.pr))
		}
	}
	s.axAll = append(s.axAll, s.pr.pendAx...)
	s.pr.pendAx = nil
	for _, ax := range s.axAll {
		if !s.axScope(ax) {
			lv.axioms[ax] = true
			tail.WriteString(ax + "\n")
		}
	}
	s.in.Write(s.pr.out.Bytes())
	s.in.Write(tail.Bytes())
	if dumpW != nil {
		dumpW.Write(s.pr.out.Bytes())
		dumpW.Write(tail.Bytes())
	}
}

var dumpW io.Writer

func (s *Solver) push(ts []*Term) {
	s.levels = append(s.levels, &solverLevel{asserts: ts, facts: map[int]bool{}, axioms: map[string]bool{}})
	io.WriteString(s.in, "(push)\n")
	s.emit(ts)
}

func (s *Solver) pop(n int) {
	if n <= 0 {
		return
	}
	fmt.Fprintf(s.in, "(pop %d)\n", n)
	s.levels = s.levels[:len(s.levels)-n]
}

func (s *Solver) sync(pc []*Term) {
	i := 0
	l := 0
	for l < len(s.levels) {
		as := s.levels[l].asserts
		if i+len(as) > len(pc) {
			break
		}
		ok := true
		for j, a := range as {
			if pc[i+j] != a {
				ok = false
				break
			}
		}
		if !ok {
			break
		}
		i += len(as)
		l++
	}
	s.pop(len(s.levels) - l)
	if i < len(pc) {
		s.push(append([]*Term{}, pc[i:]...))
	}
}

// Check decides pc /\ extra. Returns "sat", "unsat" or "unknown".
func (s *Solver) Check(pc []*Term, extra []*Term, timeoutMs int) string {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0); s.N++ }()
	s.sync(pc)
	s.push(extra)
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n(check-sat)\n(get-info :reason-unknown)\n(echo \"<done>\")\n", timeoutMs)
	res := s.read(time.Duration(timeoutMs)*time.Millisecond + 5*time.Second)
	if res == "dead" {
		s.start()
		return "unknown"
	}
	s.pop(1)
	return res
}

func (s *Solver) read(d time.Duration) string {
	type rr struct{ s string }
	ch := make(chan string, 1)
	go func() {
		res := "unknown"
		for {
			line, err := s.out.ReadString('\n')
			if err != nil {
				ch <- "dead"
				return
			}
			line = strings.TrimSpace(line)
			switch line {
			case "sat", "unsat", "unknown":
				res = line
			case "<done>", "\"<done>\"":
				ch <- res
				return
			default:
				if strings.HasPrefix(line, "(:reason-unknown") {
					s.Reason = line
					continue
				}
				if strings.HasPrefix(line, "(error") && !strings.Contains(line, "canceled") {
					fmt.Fprintln(os.Stderr, "SMT:", line)
					smtErrors++
				}
			}
		}
	}()
	select {
	case r := <-ch:
		return r
	case <-time.After(d):
		s.cmd.Process.Kill()
		s.cmd.Wait()
		return "dead"
	}
}

var smtErrors int

// Values evaluates terms in a model of pc /\ extra (candidate model when the answer is unknown).
func (s *Solver) Values(pc, extra []*Term, want []*Term, timeoutMs int) map[*Term]string {
	s.sync(pc)
	s.push(extra)
	// define wanted terms
	s.pr.out.Reset()
	var names []string
	for _, w := range want {
		names = append(names, s.pr.ref(w))
	}
	s.in.Write(s.pr.out.Bytes())
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n(check-sat)\n", timeoutMs)
	for _, n := range names {
		fmt.Fprintf(s.in, "(eval %s)\n(echo \"<sep>\")\n", n)
	}
	io.WriteString(s.in, "(echo \"<done>\")\n")
	ch := make(chan []string, 1)
	go func() {
		var lines []string
		for {
			line, err := s.out.ReadString('\n')
			if err != nil {
				ch <- nil
				return
			}
			line = strings.TrimSpace(line)
			if strings.Trim(line, "\"") == "<done>" {
				ch <- lines
				return
			}
			lines = append(lines, line)
		}
	}()
	var lines []string
	select {
	case lines = <-ch:
	case <-time.After(time.Duration(timeoutMs)*time.Millisecond + 5*time.Second):
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.start()
		return nil
	}
	if lines == nil {
		s.start()
		return nil
	}
	s.pop(1)
	res := map[*Term]string{}
	if len(lines) == 0 || lines[0] == "unsat" {
		return nil
	}
	k := 0
	cur := ""
	for _, l := range lines[1:] {
		if strings.Trim(l, "\"") == "<sep>" {
			if k < len(want) {
				res[want[k]] = cur
			}
			k++
			cur = ""
			continue
		}
		cur += l
	}
	return res
}

// script renders a standalone query.
func script(pc, extra []*Term, forCvc bool) string {
	p := newPrinter()
	var tail bytes.Buffer
	lits := map[int]*Term{}
	var vars []*Term
	s1, s2 := map[int]bool{}, map[int]bool{}
	all := append(append([]*Term{}, pc...), extra...)
	for _, t := range all {
		collectLits(t, s1, lits)
		collectVars(t, s2, &vars)
		fmt.Fprintf(&tail, "(assert %s)\n", p.ref(t))
	}
	var ids []int
	for id := range lits {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		p.ref(lits[id])
		tail.WriteString(litFacts(lits[id], p))
	}
	for _, v := range vars {
		tail.WriteString(rangeFact(v, p))
	}
	for _, ax := range p.pendAx {
		tail.WriteString(ax + "\n")
	}
	h := ""
	if forCvc {
		h = "(set-logic ALL)\n"
	}
	return h + axioms + p.out.String() + tail.String() + "(check-sat)\n"
}

type backend struct {
	name string
	args []string
	cvc  bool
}

var backends = []backend{
	{"z3-new", []string{"z3-new", "-smt2", "-in", "-memory:6000"}, false},
	{"cvc5", []string{"cvc5", "--lang=smt2", "-q"}, true},
	{"z3", []string{"z3", "-smt2", "-in", "smt.mbqi=false", "auto_config=false", "-memory:6000"}, false},
}

// Portfolio runs all back ends on a standalone script; first definite answer wins.
func Portfolio(pc, extra []*Term, timeout time.Duration) (string, string) {
	type ans struct{ res, by string }
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	ch := make(chan ans, len(backends))
	s1 := script(pc, extra, false)
	s2 := script(pc, extra, true)
	for _, b := range backends {
		b := b
		go func() {
			c := exec.CommandContext(ctx, b.args[0], b.args[1:]...)
			if b.cvc {
				c.Stdin = strings.NewReader(s2)
			} else {
				c.Stdin = strings.NewReader(s1)
			}
			o, _ := c.Output()
			r := strings.TrimSpace(string(o))
			if i := strings.IndexByte(r, '\n'); i >= 0 {
				r = r[:i]
			}
			ch <- ans{r, b.name}
		}()
	}
	best := "unknown"
	for range backends {
		a := <-ch
		if a.res == "unsat" {
			return "unsat", a.by
		}
		if a.res == "sat" {
			best = "sat"
		}
	}
	return best, "all"
}
