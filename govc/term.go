package main

// Term algebra: hash-consed SMT terms with simplifying constructors.
// Sorts are strings: "Int", "Bool", "B" (byte strings), "(Array X Y)".

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota // integer constant
	OTrue
	OFalse
	OVar   // free constant (name)
	OBound // bound variable (name)
	OLin   // konst + sum coef*atom
	OMul
	ODiv // floor division, divisor const > 0 (SMT div)
	OMod
	OIte
	ONot
	OAnd
	OOr
	OEq
	OLe0 // lin <= 0
	OForall
	OSelect
	OStore
	OUF
	OLit // byte-string literal
	OCat
	OSub
	ORep  // rep(v,n)
	OUnit // unit(v)
)

type Term struct {
	op     Op
	sort   string
	name   string // var/uf name, literal contents
	k      *big.Int
	coefs  []*big.Int
	args   []*Term
	id     int
	lo, hi *big.Int // integer range if known
	bound  bool     // mentions a bound variable
	born   int      // creation stamp of youngest var inside
	root   *refInfo
}

// refInfo says how a reference term was created (for distinctness).
type refInfo struct{}

var (
	termTab  = map[string]*Term{}
	termList []*Term
	stamp    int
)

var (
	bigZero = big.NewInt(0)
	bigOne  = big.NewInt(1)
)

func bi(n int64) *big.Int { return big.NewInt(n) }

func mk(op Op, srt, name string, k *big.Int, coefs []*big.Int, args ...*Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%s|%d:%s|", op, srt, len(name), name)
	if k != nil {
		sb.WriteString(k.String())
	}
	for _, c := range coefs {
		sb.WriteByte(',')
		sb.WriteString(c.String())
	}
	for _, a := range args {
		fmt.Fprintf(&sb, ";%d", a.id)
	}
	key := sb.String()
	if t, ok := termTab[key]; ok {
		return t
	}
	t := &Term{op: op, sort: srt, name: name, k: k, coefs: coefs, args: args, id: len(termList)}
	for _, a := range args {
		if a.bound {
			t.bound = true
		}
		if a.born > t.born {
			t.born = a.born
		}
	}
	termTab[key] = t
	termList = append(termList, t)
	return t
}

var (
	TTrue  = mk(OTrue, "Bool", "", nil, nil)
	TFalse = mk(OFalse, "Bool", "", nil, nil)
)

func IntBig(k *big.Int) *Term {
	t := mk(OConst, "Int", "", k, nil)
	t.lo, t.hi = k, k
	return t
}
func Int(n int64) *Term { return IntBig(big.NewInt(n)) }

var varCount = map[string]int{}

// Fresh makes a new free constant.
func Fresh(prefix, srt string) *Term {
	stamp++
	varCount[prefix]++
	t := mk(OVar, srt, fmt.Sprintf("%s!%d", sanitize(prefix), stamp), nil, nil)
	t.born = stamp
	return t
}
func FreshInt(prefix string, lo, hi *big.Int) *Term {
	t := Fresh(prefix, "Int")
	t.lo, t.hi = lo, hi
	return t
}

// NamedVar is a constant identified by its name.
func NamedVar(name, srt string) *Term { return mk(OVar, srt, sanitize(name), nil, nil) }

func BoundVar(lo, hi *big.Int) *Term {
	stamp++
	t := mk(OBound, "Int", fmt.Sprintf("q!%d", stamp), nil, nil)
	t.bound = true
	t.born = stamp
	t.lo, t.hi = lo, hi
	return t
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '!', r == '$', r == '#', r == '@', r == '~':
			sb.WriteRune(r)
		default:
			fmt.Fprintf(&sb, "~%x~", r)
		}
	}
	return sb.String()
}

func (t *Term) isConst() bool { return t.op == OConst }

// ---- linear arithmetic ----

type linform struct {
	k  *big.Int
	cs map[int]*big.Int
}

func toLin(t *Term) (k *big.Int, coefs []*big.Int, atoms []*Term) {
	switch t.op {
	case OConst:
		return t.k, nil, nil
	case OLin:
		return t.k, t.coefs, t.args
	}
	return bigZero, []*big.Int{bigOne}, []*Term{t}
}

func mkLin(k *big.Int, coefs []*big.Int, atoms []*Term) *Term {
	if len(atoms) == 0 {
		return IntBig(k)
	}
	if len(atoms) == 1 && k.Sign() == 0 && coefs[0].Cmp(bigOne) == 0 {
		return atoms[0]
	}
	t := mk(OLin, "Int", "", k, coefs, atoms...)
	// ranges
	lo, hi := new(big.Int).Set(k), new(big.Int).Set(k)
	var lok, hik = true, true
	for i, a := range atoms {
		c := coefs[i]
		l, h := a.lo, a.hi
		if c.Sign() < 0 {
			l, h = h, l
		}
		if l == nil {
			lok = false
		} else if lok {
			lo.Add(lo, new(big.Int).Mul(c, l))
		}
		if h == nil {
			hik = false
		} else if hik {
			hi.Add(hi, new(big.Int).Mul(c, h))
		}
	}
	if lok {
		t.lo = lo
	}
	if hik {
		t.hi = hi
	}
	return t
}

func linComb(ca *big.Int, a *Term, cb *big.Int, b *Term) *Term {
	m := map[int]*big.Int{}
	at := map[int]*Term{}
	k := new(big.Int)
	add := func(c *big.Int, t *Term) {
		tk, cs, as := toLin(t)
		k.Add(k, new(big.Int).Mul(c, tk))
		for i, x := range as {
			v := new(big.Int).Mul(c, cs[i])
			if o, ok := m[x.id]; ok {
				v.Add(v, o)
			}
			m[x.id] = v
			at[x.id] = x
		}
	}
	add(ca, a)
	add(cb, b)
	var ids []int
	for id, c := range m {
		if c.Sign() != 0 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	coefs := make([]*big.Int, len(ids))
	atoms := make([]*Term, len(ids))
	for i, id := range ids {
		coefs[i] = m[id]
		atoms[i] = at[id]
	}
	return mkLin(k, coefs, atoms)
}

func Add(a, b *Term) *Term { return linComb(bigOne, a, bigOne, b) }
func Sub(a, b *Term) *Term { return linComb(bigOne, a, bi(-1), b) }
func AddN(ts ...*Term) *Term {
	r := Int(0)
	for _, t := range ts {
		r = Add(r, t)
	}
	return r
}
func MulC(c *big.Int, a *Term) *Term { return linComb(c, a, bigZero, Int(0)) }
func Neg(a *Term) *Term              { return MulC(bi(-1), a) }

func Mul(a, b *Term) *Term {
	if a.isConst() {
		return MulC(a.k, b)
	}
	if b.isConst() {
		return MulC(b.k, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	t := mk(OMul, "Int", "", nil, nil, a, b)
	if a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil && t.lo == nil {
		ps := []*big.Int{new(big.Int).Mul(a.lo, b.lo), new(big.Int).Mul(a.lo, b.hi), new(big.Int).Mul(a.hi, b.lo), new(big.Int).Mul(a.hi, b.hi)}
		lo, hi := ps[0], ps[0]
		for _, p := range ps {
			if p.Cmp(lo) < 0 {
				lo = p
			}
			if p.Cmp(hi) > 0 {
				hi = p
			}
		}
		t.lo, t.hi = lo, hi
	}
	return t
}

// floor div / mod by positive constant (SMT-LIB semantics)
func floorDiv(a, b *big.Int) (*big.Int, *big.Int) {
	q, r := new(big.Int), new(big.Int)
	q.DivMod(a, b, r) // Euclidean: r >= 0
	return q, r
}

func DivT(a, b *Term) *Term {
	if b.isConst() && b.k.Sign() > 0 {
		if b.k.Cmp(bigOne) == 0 {
			return a
		}
		if a.isConst() {
			q, _ := floorDiv(a.k, b.k)
			return IntBig(q)
		}
		if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(b.k) < 0 {
			return Int(0)
		}
		// split multiples
		k, cs, as := toLin(a)
		var c1, c2 []*big.Int
		var a1, a2 []*Term
		for i := range as {
			q, r := floorDiv(cs[i], b.k)
			if r.Sign() == 0 {
				c1 = append(c1, q)
				a1 = append(a1, as[i])
			} else {
				c2 = append(c2, cs[i])
				a2 = append(a2, as[i])
			}
		}
		kq, kr := floorDiv(k, b.k)
		if len(a1) > 0 || kq.Sign() != 0 {
			rest := mkLin(kr, c2, a2)
			return Add(mkLin(kq, c1, a1), DivT(rest, b))
		}
	}
	t := mk(ODiv, "Int", "", nil, nil, a, b)
	if b.isConst() && b.k.Sign() > 0 && t.lo == nil && t.hi == nil {
		if a.lo != nil {
			t.lo, _ = floorDiv(a.lo, b.k)
		}
		if a.hi != nil {
			t.hi, _ = floorDiv(a.hi, b.k)
		}
	}
	return t
}

func ModT(a, b *Term) *Term {
	if b.isConst() && b.k.Sign() > 0 {
		if a.isConst() {
			_, r := floorDiv(a.k, b.k)
			return IntBig(r)
		}
		if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(b.k) < 0 {
			return a
		}
		k, cs, as := toLin(a)
		var c2 []*big.Int
		var a2 []*Term
		changed := false
		for i := range as {
			_, r := floorDiv(cs[i], b.k)
			if r.Sign() == 0 {
				changed = true
				continue
			}
			if r.Cmp(cs[i]) != 0 {
				changed = true
			}
			c2 = append(c2, r)
			a2 = append(a2, as[i])
		}
		_, kr := floorDiv(k, b.k)
		if kr.Cmp(k) != 0 {
			changed = true
		}
		if changed {
			return ModT(mkLin(kr, c2, a2), b)
		}
		if a.op == OMod && a.args[1].isConst() {
			_, r := floorDiv(a.args[1].k, b.k)
			if r.Sign() == 0 {
				return ModT(a.args[0], b)
			}
		}
	}
	t := mk(OMod, "Int", "", nil, nil, a, b)
	if b.isConst() && b.k.Sign() > 0 && t.lo == nil {
		t.lo, t.hi = bigZero, new(big.Int).Sub(b.k, bigOne)
	}
	return t
}

// ---- booleans ----

func BoolT(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}

func Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return TFalse
	case OFalse:
		return TTrue
	case ONot:
		return a.args[0]
	case OLe0: // not (x<=0) == 1-x <= 0
		return Le0(Sub(Int(1), a.args[0]))
	}
	return mk(ONot, "Bool", "", nil, nil, a)
}

func And(ts ...*Term) *Term { return nary(OAnd, TTrue, TFalse, ts) }
func Or(ts ...*Term) *Term  { return nary(OOr, TFalse, TTrue, ts) }

func nary(op Op, unit, zero *Term, ts []*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if t.op == op {
			for _, x := range t.args {
				if !rec(x) {
					return false
				}
			}
			return true
		}
		if seen[t.id] {
			return true
		}
		n := Not(t)
		if seen[n.id] {
			return false
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !rec(t) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(op, "Bool", "", nil, nil, out...)
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Le0(x *Term) *Term {
	if x.isConst() {
		return BoolT(x.k.Sign() <= 0)
	}
	if x.hi != nil && x.hi.Sign() <= 0 {
		return TTrue
	}
	if x.lo != nil && x.lo.Sign() > 0 {
		return TFalse
	}
	// normalise by gcd
	if x.op == OLin {
		g := new(big.Int)
		for _, c := range x.coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if g.Cmp(bigOne) > 0 {
			cs := make([]*big.Int, len(x.coefs))
			for i, c := range x.coefs {
				cs[i] = new(big.Int).Div(c, g)
			}
			// k + g*y <= 0  <=>  y <= floor(-k/g)  <=> y + ceil(k/g) <= 0
			nk := new(big.Int).Neg(x.k)
			q, _ := floorDiv(nk, g)
			return Le0(mkLin(new(big.Int).Neg(q), cs, x.args))
		}
	}
	return mk(OLe0, "Bool", "", nil, nil, x)
}
func Le(a, b *Term) *Term { return Le0(Sub(a, b)) }
func Lt(a, b *Term) *Term { return Le0(Add(Sub(a, b), Int(1))) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Ite(c, a, b *Term) *Term {
	if c == TTrue {
		return a
	}
	if c == TFalse {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == "Bool" {
		return And(Implies(c, a), Implies(Not(c), b))
	}
	t := mk(OIte, a.sort, "", nil, nil, c, a, b)
	if t.sort == "Int" && t.lo == nil && t.hi == nil {
		if a.lo != nil && b.lo != nil {
			t.lo = a.lo
			if b.lo.Cmp(a.lo) < 0 {
				t.lo = b.lo
			}
		}
		if a.hi != nil && b.hi != nil {
			t.hi = a.hi
			if b.hi.Cmp(a.hi) > 0 {
				t.hi = b.hi
			}
		}
	}
	return t
}

func Eq(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %s %s: %s / %s", a.sort, b.sort, a, b))
	}
	switch a.sort {
	case "Int":
		d := Sub(a, b)
		if d.isConst() {
			return BoolT(d.k.Sign() == 0)
		}
		if (d.lo != nil && d.lo.Sign() > 0) || (d.hi != nil && d.hi.Sign() < 0) {
			return TFalse
		}
		if x := ufInj(a, b); x != nil {
			return x
		}
		if a.op == OIte && b.isConst() || b.op == OIte && a.isConst() {
			if b.op == OIte {
				a, b = b, a
			}
			p, q := Eq(a.args[1], b), Eq(a.args[2], b)
			if (p == TTrue || p == TFalse) && (q == TTrue || q == TFalse) {
				return Ite(a.args[0], p, q)
			}
		}
		if d.op == OLin && d.coefs[0].Sign() < 0 {
			d = Neg(d)
		}
		return mk(OEq, "Bool", "", nil, nil, d, Int(0))
	case "Bool":
		if a == TTrue {
			return b
		}
		if b == TTrue {
			return a
		}
		if a == TFalse {
			return Not(b)
		}
		if b == TFalse {
			return Not(a)
		}
		if Not(a) == b {
			return TFalse
		}
	case "B":
		return eqBytes(a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OEq, "Bool", "", nil, nil, a, b)
}
func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

// reference constructors are injective with disjoint ranges
func ufInj(a, b *Term) *Term {
	if a.op == OUF && b.op == OUF && a.name == "fld" && b.name == "fld" {
		if a.args[0] != b.args[0] {
			return TFalse
		}
		return Eq(a.args[1], b.args[1])
	}
	if a.op == OUF && b.op == OUF && a.name == "elem" && b.name == "elem" {
		return And(Eq(a.args[0], b.args[0]), Eq(a.args[1], b.args[1]))
	}
	isB := func(t *Term) bool { return t.op == OUF && (t.name == "fld" || t.name == "elem") }
	if isB(a) && isB(b) {
		return TFalse
	}
	if isB(a) || isB(b) {
		if d := Sub(Root(a), Root(b)); (d.lo != nil && d.lo.Sign() > 0) || (d.hi != nil && d.hi.Sign() < 0) {
			return TFalse
		}
	}
	// fld/elem of anything is never nil and never an allocation base
	if isB(a) && isAllocBase(b) || isB(b) && isAllocBase(a) {
		return TFalse
	}
	return nil
}

func isAllocBase(t *Term) bool {
	if t.isConst() {
		return true
	}
	if t.op == OVar && strings.HasPrefix(t.name, "top!") {
		return true
	}
	if t.op == OLin && len(t.args) == 1 && t.coefs[0].Cmp(bigOne) == 0 && t.args[0].op == OVar && strings.HasPrefix(t.args[0].name, "top!") {
		return true
	}
	return false
}

// forallP is a quantified fact with the given trigger.
func forallP(v, body, pat *Term) *Term { return forallPN([]*Term{v}, body, pat) }

func forallPN(vars []*Term, body *Term, pats ...*Term) *Term {
	if body == TTrue || body == TFalse {
		return body
	}
	used := false
	for _, v := range vars {
		used = used || mentions(body, v)
	}
	if !used {
		return body
	}
	t := mk(OForall, "Bool", "", nil, nil, append([]*Term{body}, vars...)...)
	t.bound = hasFreeBound(t, map[int]bool{})
	forallPats[t] = pats
	return t
}

func Forall(vars []*Term, body *Term) *Term {
	if body == TTrue || body == TFalse {
		return body
	}
	used := false
	for _, v := range vars {
		if mentions(body, v) {
			used = true
		}
	}
	if !used {
		return body
	}
	// index by array position: reading a[off+q] becomes a[q] with the range shifted
	save := oracle
	oracle = nil
	defer func() { oracle = save }()
	var pats []*Term
	for k, v := range vars {
		cs := indexUses(body, v)
		if len(cs) == 0 {
			continue
		}
		if off := Sub(cs[0].args[1], v); off != Int(0) {
			nv := BoundVar(v.lo, v.hi)
			body = Subst(body, map[*Term]*Term{v: Sub(nv, off)})
			vars = append([]*Term{}, vars...)
			vars[k] = nv
			if body == TTrue || body == TFalse {
				return body
			}
			cs = indexUses(body, nv)
			v = nv
		}
		if len(vars) == 1 {
			for _, c := range cs {
				if c.args[1] == v && len(pats) < 6 {
					pats = append(pats, c)
				}
			}
		}
	}
	args := append([]*Term{body}, vars...)
	t := mk(OForall, "Bool", "", nil, nil, args...)
	// bound flag: only if mentions other bound vars
	t.bound = hasFreeBound(t, map[int]bool{})
	if len(pats) > 0 && forallPats[t] == nil {
		forallAlts[t] = pats
	}
	return t
}

// forallAlts: alternative triggers, any of which suffices.
var forallAlts = map[*Term][]*Term{}

// indexUses finds the reads a[i] in t where a does not depend on v and i is v plus something that
// does not.
func indexUses(t, v *Term) []*Term {
	var out []*Term
	seen := map[int]bool{}
	var rec func(*Term)
	rec = func(x *Term) {
		if x.born < v.born || seen[x.id] {
			return
		}
		seen[x.id] = true
		for _, a := range x.args {
			rec(a)
		}
		if (x.op == OSelect || (x.op == OUF && x.name == "bat")) && mentions(x.args[1], v) && !mentions(x.args[0], v) && !x.args[0].bound && x.args[0].op != OStore && x.args[0].op != OIte {
			if d := Sub(x.args[1], v); !mentions(d, v) && !d.bound {
				out = append(out, x)
			}
		}
	}
	rec(t)
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func hasFreeBound(t *Term, env map[int]bool) bool {
	if !t.bound && t.op != OForall {
		return false
	}
	switch t.op {
	case OBound:
		return !env[t.id]
	case OForall:
		e2 := map[int]bool{}
		for k := range env {
			e2[k] = true
		}
		for _, v := range t.args[1:] {
			e2[v.id] = true
		}
		return hasFreeBound(t.args[0], e2)
	}
	for _, a := range t.args {
		if hasFreeBound(a, env) {
			return true
		}
	}
	return false
}

func mentions(t, v *Term) bool {
	seen := map[int]bool{}
	var rec func(*Term) bool
	rec = func(x *Term) bool {
		if x == v {
			return true
		}
		if x.born < v.born || seen[x.id] {
			return false
		}
		seen[x.id] = true
		for _, a := range x.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// Subst replaces terms (by identity) and rebuilds with the simplifying constructors.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[int]*Term{}
	minBorn := 1 << 60
	for k := range m {
		if k.born < minBorn {
			minBorn = k.born
		}
	}
	var rec func(*Term) *Term
	rec = func(x *Term) *Term {
		if r, ok := m[x]; ok {
			return r
		}
		if x.born < minBorn && x.op != OForall {
			return x
		}
		if len(x.args) == 0 {
			return x
		}
		if r, ok := memo[x.id]; ok {
			return r
		}
		as := make([]*Term, len(x.args))
		ch := false
		for i, a := range x.args {
			as[i] = rec(a)
			if as[i] != a {
				ch = true
			}
		}
		r := x
		if ch {
			r = rebuild(x, as)
		}
		memo[x.id] = r
		return r
	}
	return rec(t)
}

func rebuild(x *Term, as []*Term) *Term {
	switch x.op {
	case OLin:
		r := IntBig(x.k)
		for i, a := range as {
			r = linComb(bigOne, r, x.coefs[i], a)
		}
		return r
	case OMul:
		return Mul(as[0], as[1])
	case ODiv:
		return DivT(as[0], as[1])
	case OMod:
		return ModT(as[0], as[1])
	case OIte:
		return Ite(as[0], as[1], as[2])
	case ONot:
		return Not(as[0])
	case OAnd:
		return And(as...)
	case OOr:
		return Or(as...)
	case OEq:
		return Eq(as[0], as[1])
	case OLe0:
		return Le0(as[0])
	case OForall:
		return Forall(as[1:], as[0])
	case OSelect:
		t := Select(as[0], as[1])
		if t.lo == nil && t.hi == nil && t.sort == "Int" {
			t.lo, t.hi = x.lo, x.hi
		}
		return t
	case OStore:
		return Store(as[0], as[1], as[2])
	case OUF:
		t := UF(x.name, x.sort, as...)
		if t.op == OUF && t.lo == nil && t.hi == nil {
			t.lo, t.hi = x.lo, x.hi
		}
		return t
	case OCat:
		return Cat(as...)
	case OSub:
		return SubB(as[0], as[1], as[2])
	case ORep:
		return Rep(as[0], as[1])
	case OUnit:
		return Unit(as[0])
	}
	panic("rebuild")
}

// ---- context oracle: decides small side conditions under the current path condition ----

// oracle returns true only if t is valid under the current path condition.
var oracle func(t *Term) bool

func known(t *Term) bool {
	if t == TTrue {
		return true
	}
	if t == TFalse || t.bound {
		return false
	}
	if oracle != nil {
		return oracle(t)
	}
	return false
}

// ---- arrays ----

func arrSorts(s string) (dom, rng string) {
	// "(Array X Y)"
	in := s[len("(Array ") : len(s)-1]
	d := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("arrSorts " + s)
}

func ArrSort(d, r string) string { return "(Array " + d + " " + r + ")" }

// havocInfo describes a memory map introduced at a loop head or modular call: equal to parent at
// every reference older than top except those in except.
type havocInfo struct {
	parent *Term
	top    *Term
	except []*Term
	roots  []*Term // every reference into these allocations may differ too
	all    bool
}

var havocs = map[*Term]*havocInfo{}

func Select(m, i *Term) *Term {
	for {
		if m.op == OStore {
			e := Eq(m.args[1], i)
			if e == TTrue {
				return m.args[2]
			}
			if e == TFalse {
				m = m.args[0]
				continue
			}
			if !i.bound && !m.args[1].bound && oracle != nil && i.sort == "Int" {
				if known(Not(e)) {
					m = m.args[0]
					continue
				}
				if known(e) {
					return m.args[2]
				}
			}
			break
		}
		if h := havocs[m]; h != nil && !h.all {
			if i.bound {
				break
			}
			ok := known(Lt(Root(i), h.top))
			for _, e := range h.except {
				if !ok {
					break
				}
				d := Eq(e, i)
				ok = d == TFalse || known(Not(d))
			}
			for _, e := range h.roots {
				if !ok {
					break
				}
				d := Eq(e, Root(i))
				ok = d == TFalse || known(Not(d))
			}
			if ok {
				m = h.parent
				continue
			}
			break
		}
		if m.op == OIte {
			a, b := Select(m.args[1], i), Select(m.args[2], i)
			return Ite(m.args[0], a, b)
		}
		break
	}
	_, r := arrSorts(m.sort)
	if m.op == OUF && m.name == "constarr" {
		return m.args[0]
	}
	if m.op == OVar {
		if tab := initTab[m]; tab != nil {
			if v, ok := tab[i]; ok {
				return v
			}
		}
	}
	return mk(OSelect, r, "", nil, nil, m, i)
}

func Store(m, i, v *Term) *Term {
	_, r := arrSorts(m.sort)
	if v.sort != r {
		panic(fmt.Sprintf("Store sort %s into %s", v.sort, m.sort))
	}
	if m.op == OStore && m.args[1] == i {
		m = m.args[0]
	}
	if v.op == OSelect && v.args[0] == m && v.args[1] == i {
		return m
	}
	return mk(OStore, m.sort, "", nil, nil, m, i, v)
}

func ConstArr(srt string, v *Term) *Term { return mk(OUF, srt, "constarr", nil, nil, v) }

// ---- uninterpreted functions ----

type ufDecl struct {
	dom []string
	rng string
}

var ufs = map[string]*ufDecl{}

func UF(name, srt string, args ...*Term) *Term {
	switch name {
	case "blen":
		return Blen(args[0])
	case "bat":
		return Bat(args[0], args[1])
	case "root":
		return Root(args[0])
	case "constarr":
		return ConstArr(srt, args[0])
	}
	if f := ufSimp[name]; f != nil {
		if t := f(args); t != nil {
			return t
		}
	}
	name = sanitize(name)
	d := ufs[name]
	if d == nil {
		d = &ufDecl{rng: srt}
		for _, a := range args {
			d.dom = append(d.dom, a.sort)
		}
		ufs[name] = d
	} else {
		if len(d.dom) != len(args) || d.rng != srt {
			panic("UF arity/sort clash " + name)
		}
		for i := range args {
			if d.dom[i] != args[i].sort {
				panic("UF arg sort clash " + name + ": " + args[i].String())
			}
		}
	}
	return mk(OUF, srt, name, nil, nil, args...)
}

// ufSimp: rewrite rules for uninterpreted functions with algebraic laws.
var ufSimp = map[string]func(args []*Term) *Term{}

// Root gives the allocation a reference belongs to.
func Root(r *Term) *Term {
	if r.op == OUF && r.name == "fld" {
		return Root(r.args[1])
	}
	if r.op == OUF && r.name == "elem" {
		return Root(r.args[0])
	}
	if isAllocBase(r) {
		return r
	}
	ufs["root"] = &ufDecl{dom: []string{"Int"}, rng: "Int"}
	t := mk(OUF, "Int", "root", nil, nil, r)
	return t
}

func Fld(k int, r *Term) *Term { return UF("fld", "Int", Int(int64(k)), r) }
func Elem(r, i *Term) *Term    { return UF("elem", "Int", r, i) }

// ---- byte strings ----

var maxLen = new(big.Int).Lsh(bigOne, 40)

func Lit(s string) *Term { return mk(OLit, "B", s, nil, nil) }

var TEmpty = Lit("")

// fixed result lengths of uninterpreted byte functions
var ufLen = map[string]func(args []*Term) *Term{}

func Blen(x *Term) *Term {
	switch x.op {
	case OLit:
		return Int(int64(len(x.name)))
	case OCat:
		r := Int(0)
		for _, a := range x.args {
			r = Add(r, Blen(a))
		}
		return r
	case OSub:
		return Sub(x.args[2], x.args[1])
	case ORep:
		return x.args[1]
	case OUnit:
		return Int(1)
	case OUF:
		if f := ufLen[x.name]; f != nil {
			if r := f(x.args); r != nil {
				return r
			}
		}
	case OIte:
		a, b := Blen(x.args[1]), Blen(x.args[2])
		if a == b {
			return a
		}
		return Ite(x.args[0], a, b)
	}
	ufs["blen"] = &ufDecl{dom: []string{"B"}, rng: "Int"}
	t := mk(OUF, "Int", "blen", nil, nil, x)
	if t.lo == nil {
		t.lo, t.hi = bigZero, maxLen
	}
	return t
}

func Bat(x, i *Term) *Term {
	switch x.op {
	case OLit:
		if i.isConst() && i.k.Sign() >= 0 && i.k.Cmp(bi(int64(len(x.name)))) < 0 {
			return Int(int64(x.name[i.k.Int64()]))
		}
	case OUnit:
		if i.isConst() && i.k.Sign() == 0 {
			return x.args[0]
		}
	case ORep:
		return x.args[0]
	case OSub:
		return Bat(x.args[0], Add(x.args[1], i))
	case OCat:
		p := Int(0)
		for _, s := range x.args {
			l := Blen(s)
			e := Add(p, l)
			if known(Lt(i, e)) {
				if known(Le(p, i)) {
					return Bat(s, Sub(i, p))
				}
				break
			}
			if !known(Le(e, i)) {
				break
			}
			p = e
		}
	}
	ufs["bat"] = &ufDecl{dom: []string{"B", "Int"}, rng: "Int"}
	t := mk(OUF, "Int", "bat", nil, nil, x, i)
	if t.lo == nil {
		t.lo, t.hi = bigZero, bi(255)
	}
	return t
}

func Unit(v *Term) *Term {
	if v.isConst() {
		return Lit(string([]byte{byte(v.k.Int64())}))
	}
	if v.op == OUF && v.name == "bat" {
		return SubB(v.args[0], v.args[1], Add(v.args[1], Int(1)))
	}
	return mk(OUnit, "B", "", nil, nil, v)
}

func Rep(v, n *Term) *Term {
	if n.isConst() {
		if n.k.Sign() <= 0 {
			return TEmpty
		}
		if v.isConst() && n.k.Cmp(bi(256)) <= 0 {
			return Lit(strings.Repeat(string([]byte{byte(v.k.Int64())}), int(n.k.Int64())))
		}
		if n.k.Cmp(bigOne) == 0 {
			return Unit(v)
		}
	}
	return mk(ORep, "B", "", nil, nil, v, n)
}

func Cat(ts ...*Term) *Term {
	var out []*Term
	var push func(t *Term)
	push = func(t *Term) {
		if t.op == OCat {
			for _, a := range t.args {
				push(a)
			}
			return
		}
		if l := Blen(t); l.isConst() && l.k.Sign() <= 0 {
			return
		}
		if len(out) > 0 {
			p := out[len(out)-1]
			if p.op == OLit && t.op == OLit {
				out[len(out)-1] = Lit(p.name + t.name)
				return
			}
			if p.op == OSub && t.op == OSub && p.args[0] == t.args[0] && p.args[2] == t.args[1] {
				out = out[:len(out)-1]
				push(SubB(p.args[0], p.args[1], t.args[2]))
				return
			}
			if p.op == ORep && t.op == ORep && p.args[0] == t.args[0] {
				out[len(out)-1] = Rep(p.args[0], Add(p.args[1], t.args[1]))
				return
			}
		}
		out = append(out, t)
	}
	for _, t := range ts {
		push(t)
	}
	if len(out) == 0 {
		return TEmpty
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(OCat, "B", "", nil, nil, out...)
}

// SubB is x[a:b]; callers guarantee 0<=a<=b<=len(x) (or the value is irrelevant).
func SubB(x, a, b *Term) *Term {
	if a == b || known2(Eq(a, b)) {
		return TEmpty
	}
	l := Blen(x)
	if a.isConst() && a.k.Sign() == 0 && (b == l) {
		return x
	}
	switch x.op {
	case OLit:
		if a.isConst() && b.isConst() && a.k.Sign() >= 0 && a.k.Cmp(b.k) <= 0 && b.k.Cmp(bi(int64(len(x.name)))) <= 0 {
			return Lit(x.name[a.k.Int64():b.k.Int64()])
		}
	case OSub:
		return SubB(x.args[0], Add(x.args[1], a), Add(x.args[1], b))
	case ORep:
		return Rep(x.args[0], Sub(b, a))
	case OCat:
		// find the segments covering [a,b)
		p := Int(0)
		n := len(x.args)
		ends := make([]*Term, n)
		starts := make([]*Term, n)
		for i, s := range x.args {
			starts[i] = p
			p = Add(p, Blen(s))
			ends[i] = p
		}
		si, ei := -1, -1
		for i := 0; i < n; i++ {
			if known(Le(ends[i], a)) { // segment wholly before a (also if empty)
				continue
			}
			if known(Le(starts[i], a)) && (known(Lt(a, ends[i])) || known(Le(a, ends[i]))) {
				si = i
			}
			break
		}
		if si < 0 {
			break
		}
		for i := si; i < n; i++ {
			if known(Le(b, ends[i])) {
				ei = i
				break
			}
			if !known(Le(ends[i], b)) {
				break
			}
		}
		if ei < 0 {
			break
		}
		if si == ei {
			return SubB(x.args[si], Sub(a, starts[si]), Sub(b, starts[si]))
		}
		var parts []*Term
		parts = append(parts, SubB(x.args[si], Sub(a, starts[si]), Blen(x.args[si])))
		for i := si + 1; i < ei; i++ {
			parts = append(parts, x.args[i])
		}
		parts = append(parts, SubB(x.args[ei], Int(0), Sub(b, starts[ei])))
		return Cat(parts...)
	case OIte:
		return Ite(x.args[0], SubB(x.args[1], a, b), SubB(x.args[2], a, b))
	}
	if b != l && known2(Eq(b, l)) {
		return SubB(x, a, l)
	}
	if !(a.isConst() && a.k.Sign() == 0) && known2(Eq(a, Int(0))) {
		return SubB(x, Int(0), b)
	}
	if f := subSimp; f != nil {
		if t := f(x, a, b); t != nil {
			return t
		}
	}
	return mk(OSub, "B", "", nil, nil, x, a, b)
}

var subSimp func(x, a, b *Term) *Term

// known2 asks the oracle only when cheap syntactic information does not refute.
func known2(t *Term) bool { return known(t) }

func eqBytes(a, b *Term) *Term {
	la, lb := Blen(a), Blen(b)
	le := Eq(la, lb)
	if le == TFalse {
		return TFalse
	}
	if a.op == OLit && b.op == OLit {
		return BoolT(a.name == b.name)
	}
	if a == TEmpty {
		return Eq(lb, Int(0))
	}
	if b == TEmpty {
		return Eq(la, Int(0))
	}
	if a.op == OUnit && b.op == OUnit {
		return Eq(a.args[0], b.args[0])
	}
	as, bs := segs(a), segs(b)
	if len(as) > 1 || len(bs) > 1 {
		// match segments of provably equal length from the left, then from the right
		var conj []*Term
		for len(as) > 0 && len(bs) > 0 && !(len(as) == 1 && len(bs) == 1) {
			if as[0] == bs[0] {
				as, bs = as[1:], bs[1:]
				continue
			}
			l1, l2 := Blen(as[0]), Blen(bs[0])
			if l1 == l2 {
				conj = append(conj, Eq(as[0], bs[0]))
				as, bs = as[1:], bs[1:]
				continue
			}
			d := Sub(l1, l2)
			if d.isConst() {
				// split the longer one
				if d.k.Sign() > 0 {
					as = append(segs(Cat(SubB(as[0], Int(0), l2))), append([]*Term{SubB(as[0], l2, l1)}, as[1:]...)...)
				} else {
					bs = append(segs(Cat(SubB(bs[0], Int(0), l1))), append([]*Term{SubB(bs[0], l1, l2)}, bs[1:]...)...)
				}
				if len(as) > 0 && len(bs) > 0 && Blen(as[0]) == Blen(bs[0]) {
					continue
				}
			}
			break
		}
		for len(as) > 0 && len(bs) > 0 && !(len(as) == 1 && len(bs) == 1) {
			x, y := as[len(as)-1], bs[len(bs)-1]
			if x == y {
				as, bs = as[:len(as)-1], bs[:len(bs)-1]
				continue
			}
			if Blen(x) == Blen(y) {
				conj = append(conj, Eq(x, y))
				as, bs = as[:len(as)-1], bs[:len(bs)-1]
				continue
			}
			break
		}
		if e := eqPath(as, bs); e != nil {
			return And(append(conj, e)...)
		}
		ra, rb := Cat(as...), Cat(bs...)
		if len(conj) > 0 || ra != a || rb != b {
			conj = append(conj, Eq(ra, rb))
			return And(conj...)
		}
	}
	if e := eqInj(a, b); e != nil {
		return e
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OEq, "Bool", "", nil, nil, a, b)
}

// eqInj: equal values of an injective function have equal arguments.
func eqInj(a, b *Term) *Term {
	if a.op != OUF || b.op != OUF || a.name != b.name || len(a.args) != 1 {
		return nil
	}
	switch a.name {
	case "pathescape_1", "hex", "dec":
		return Eq(a.args[0], b.args[0])
	case "fmt0d9":
		if nonneg(a.args[0]) && nonneg(b.args[0]) {
			return Eq(a.args[0], b.args[0])
		}
	}
	return nil
}

func nonneg(t *Term) bool { return t.lo != nil && t.lo.Sign() >= 0 || known(Ge(t, Int(0))) }

func digits(t *Term) bool {
	return t.op == OUF && (t.name == "dec" || t.name == "fmt0d9") && nonneg(t.args[0])
}

// eqPath compares strings component by component where no segment hides a '/'; and strings ending
// in a number after a non-digit by their number and what precedes it.
func eqPath(as, bs []*Term) *Term {
	split := func(ts []*Term) ([][]*Term, bool) {
		out := [][]*Term{nil}
		for _, t := range ts {
			if t.op == OLit {
				for i, p := range strings.Split(t.name, "/") {
					if i > 0 {
						out = append(out, nil)
					}
					if p != "" {
						out[len(out)-1] = append(out[len(out)-1], Lit(p))
					}
				}
				continue
			}
			c := UF("noslash", "Bool", t)
			if c != TTrue && !known(c) {
				return nil, false
			}
			out[len(out)-1] = append(out[len(out)-1], t)
		}
		return out, true
	}
	hasSlash := func(ts []*Term) bool {
		for _, t := range ts {
			if t.op == OLit && strings.Contains(t.name, "/") {
				return true
			}
		}
		return false
	}
	if hasSlash(as) || hasSlash(bs) {
		x, ok1 := split(as)
		if !ok1 {
			return nil
		}
		y, ok2 := split(bs)
		if !ok2 {
			return nil
		}
		if len(x) != len(y) {
			return TFalse
		}
		r := TTrue
		for i := range x {
			r = And(r, Eq(Cat(x[i]...), Cat(y[i]...)))
		}
		return r
	}
	n, m := len(as), len(bs)
	if n >= 2 && m >= 2 && digits(as[n-1]) && digits(bs[m-1]) && as[n-1].name == bs[m-1].name {
		nd := func(t *Term) bool {
			return t.op == OLit && (t.name[len(t.name)-1] < '0' || t.name[len(t.name)-1] > '9')
		}
		if nd(as[n-2]) && nd(bs[m-2]) {
			return And(Eq(as[n-1], bs[m-1]), Eq(Cat(as[:n-1]...), Cat(bs[:m-1]...)))
		}
	}
	return nil
}

func segs(t *Term) []*Term {
	if t.op == OCat {
		return append([]*Term{}, t.args...)
	}
	if t == TEmpty {
		return nil
	}
	return []*Term{t}
}

// ---- printing ----

func (t *Term) String() string {
	var sb strings.Builder
	t.pr(&sb, 0)
	return sb.String()
}

func (t *Term) pr(sb *strings.Builder, depth int) {
	if sb.Len() > 4000 {
		sb.WriteString("...")
		return
	}
	list := func(name string, as []*Term) {
		sb.WriteString(name + "(")
		for i, a := range as {
			if i > 0 {
				sb.WriteString(", ")
			}
			a.pr(sb, depth+1)
		}
		sb.WriteString(")")
	}
	switch t.op {
	case OConst:
		sb.WriteString(t.k.String())
	case OTrue:
		sb.WriteString("true")
	case OFalse:
		sb.WriteString("false")
	case OVar, OBound:
		sb.WriteString(t.name)
	case OLin:
		sb.WriteString("(")
		for i, a := range t.args {
			if i > 0 {
				sb.WriteString(" + ")
			}
			if t.coefs[i].Cmp(bigOne) != 0 {
				sb.WriteString(t.coefs[i].String() + "*")
			}
			a.pr(sb, depth+1)
		}
		if t.k.Sign() != 0 {
			sb.WriteString(" + " + t.k.String())
		}
		sb.WriteString(")")
	case OLit:
		fmt.Fprintf(sb, "%q", t.name)
	case OUF:
		list(t.name, t.args)
	case OLe0:
		t.args[0].pr(sb, depth+1)
		sb.WriteString(" <= 0")
	case OEq:
		sb.WriteString("(")
		t.args[0].pr(sb, depth+1)
		sb.WriteString(" = ")
		t.args[1].pr(sb, depth+1)
		sb.WriteString(")")
	case OSub:
		t.args[0].pr(sb, depth+1)
		sb.WriteString("[")
		t.args[1].pr(sb, depth+1)
		sb.WriteString(":")
		t.args[2].pr(sb, depth+1)
		sb.WriteString("]")
	default:
		names := map[Op]string{OMul: "mul", ODiv: "div", OMod: "mod", OIte: "ite", ONot: "not", OAnd: "and", OOr: "or", OForall: "forall", OSelect: "select", OStore: "store", OCat: "cat", ORep: "rep", OUnit: "unit"}
		list(names[t.op], t.args)
	}
}
