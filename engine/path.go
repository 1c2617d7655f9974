package main

import (
	"fmt"
	"math/big"
	"strings"
)

// Path is one symbolic execution: the decisions taken and the constraints collected.
type Path struct {
	in       *Interp
	prefix   []int64
	pos      int
	dec      []int64
	pc       []*Term
	pcset    map[*Term]bool
	vars     []*VarInfo
	varCount map[string]int
	syncMaps map[Ptr]*Map // contents of sync.Map values
	released []relPiece
	derCache map[*Term]bool
	steps    int64
	fuel     int64 // step at which a call under sym.Within is abandoned

	obs        []Observation
	goq        []func()
	goDepth    int
	eager      int
	locks      map[Ptr]int // mutexes held: -1 for writing, otherwise the number of readers
	asserts    int
	reached    map[string]bool
	unknown    int
	trunc      bool
	globals    map[interface{}]*Value
	inited     map[interface{}]bool
	deferFrame *frame
	sub        map[*Term][]subPiece
	subMask    uint64
	subCache   map[*Term]*Term
}

type VarInfo struct {
	Name string
	T    *Term
	Kind string // bytes / uint / bool / choose
}

type relPiece struct {
	base   *Term
	lo, hi int
}

type Observation struct {
	Label string
	T     *Term // nil = empty byte string
	Kind  string
}

type abort struct {
	kind string // "infeasible", "unsupported", "limit", "assert", "done"
	msg  string
}

func unsupported(msg string) abort { return abort{"unsupported", msg} }

func (in *Interp) newVar(name string, w int, kind string, flag uint8) *Term {
	p := in.path
	n := p.varCount[name]
	p.varCount[name]++
	full := name
	if n > 0 {
		full = fmt.Sprintf("%s#%d", name, n)
	}
	t := in.db.Var(full, w, flag)
	p.vars = append(p.vars, &VarInfo{full, t, kind})
	return t
}

func (in *Interp) addPC(c *Term) {
	p := in.path
	if c.isTrue() || p.pcset[c] {
		return
	}
	if c.op == OpAnd {
		for _, a := range c.args {
			in.addPC(a)
		}
		return
	}
	if c.op == OpNot && c.args[0].op == OpOr {
		for _, a := range c.args[0].args {
			in.addPC(in.db.Not(a))
		}
		return
	}
	p.pcset[c] = true
	p.pc = append(p.pc, c)
	in.learn(c)
}

// implied reports whether c is syntactically decided by the path condition.
func (in *Interp) implied(c *Term) (bool, bool) {
	p := in.path
	if p.pcset[c] {
		return true, true
	}
	if p.pcset[in.db.Not(c)] {
		return false, true
	}
	if c.op == OpAnd {
		all := true
		for _, a := range c.args {
			v, ok := in.implied(a)
			if ok && !v {
				return false, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return true, true
		}
	}
	if c.op == OpOr {
		all := true
		for _, a := range c.args {
			v, ok := in.implied(a)
			if ok && v {
				return true, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return false, true
		}
	}
	if c.op == OpNot {
		v, ok := in.implied(c.args[0])
		return !v, ok
	}
	return false, false
}

func (in *Interp) Branch(c *Term) bool {
	if c.isConst() {
		return c.u == 1
	}
	if v, ok := in.implied(c); ok {
		return v
	}
	c0 := in.subst(c)
	c = in.idealize(c0)
	if c.isConst() {
		return c.u == 1
	}
	if c != c0 {
		// an idealised comparison is a choice among known messages: decide them one at a time
		if c.op == OpNot && c.args[0].op == OpOr {
			return !in.Branch(c.args[0])
		}
		if c.op == OpOr {
			for _, d := range c.args {
				if in.Branch(d) {
					return true
				}
			}
			return false
		}
		if c.op == OpAnd {
			var rest []*Term
			for _, d := range c.args {
				if d.op == OpOr {
					for i, e := range d.args {
						if in.Branch(e) {
							break
						}
						if i == len(d.args)-1 {
							return false
						}
					}
				} else {
					rest = append(rest, d)
				}
			}
			if len(rest) < len(c.args) {
				if len(rest) == 0 {
					return true
				}
				return in.Branch(in.db.And(rest...))
			}
		}
	}
	if v, ok := in.implied(c); ok {
		return v
	}
	p := in.path
	if in.initDepth > 0 {
		panic(unsupported("symbolic branch in package init"))
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.dec = append(p.dec, d)
		if d != 0 {
			in.addPC(c)
			return true
		}
		in.addPC(in.db.Not(c))
		return false
	}
	in.ex.stat.addBranch()
	rt := in.sol.Check(p.pc, c)
	rf := Sat
	if rt == Unsat {
		// pc is satisfiable, so the negation is
		rf = Sat
	} else {
		rf = in.sol.Check(p.pc, in.db.Not(c))
	}
	if rt == Unknown || rf == Unknown {
		p.unknown++
		in.ex.stat.addUnknown()
	}
	switch {
	case rt != Unsat && rf != Unsat:
		if traceForks {
			n := min(in.depth, len(in.stk))
			logf("FORK %v\n    %s", strings.Join(in.stk[max(0, n-6):n], ">"), trunc(c.String(), 600))
		}
		alt := make([]int64, len(p.dec)+1)
		copy(alt, p.dec)
		alt[len(p.dec)] = 0
		in.ex.push(alt)
		p.dec = append(p.dec, 1)
		p.pos++
		p.prefix = p.dec
		in.addPC(c)
		return true
	case rt != Unsat:
		p.dec = append(p.dec, 1)
		p.pos++
		p.prefix = p.dec
		in.addPC(c)
		return true
	default:
		p.dec = append(p.dec, 0)
		p.pos++
		p.prefix = p.dec
		in.addPC(in.db.Not(c))
		return false
	}
}

// Choose forks n ways on a fresh variable.
func (in *Interp) Choose(name string, n int) int {
	if n <= 0 {
		panic(abort{"infeasible", "choose 0"})
	}
	p := in.path
	t := in.newVar(name, 32, "choose", 0)
	if n == 1 {
		in.addPC(in.db.Eq(t, in.db.Const(32, 0)))
		return 0
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.dec = append(p.dec, d)
		in.addPC(in.db.Eq(t, in.db.Const(32, uint64(d))))
		return int(d)
	}
	in.ex.stat.addBranch()
	for i := n - 1; i >= 1; i-- {
		alt := make([]int64, len(p.dec)+1)
		copy(alt, p.dec)
		alt[len(p.dec)] = int64(i)
		in.ex.push(alt)
	}
	p.dec = append(p.dec, 0)
	p.pos++
	p.prefix = p.dec
	in.addPC(in.db.Eq(t, in.db.Const(32, 0)))
	return 0
}

// Concretize forks over the feasible values of t (at most lim).
func (in *Interp) Concretize(t *Term, lim int) uint64 {
	t = in.subst(t)
	if t.isConst() {
		return t.u
	}
	p := in.path
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.dec = append(p.dec, d)
		in.addPC(in.db.Eq(t, in.db.Const(t.w, uint64(d))))
		return uint64(d)
	}
	in.ex.stat.addBranch()
	var vals []uint64
	q := in.db.True
	for {
		sl := in.sol.slice(p.pc, []*Term{t}, true)
		conj := append(append([]*Term(nil), sl...), q)
		if q.isTrue() {
			conj = sl
		}
		r, m, _ := in.sol.solveLemmas(append([]*Term{in.sol.rawEq(t, t)}, conj...), nil)
		if r == Unknown {
			p.unknown++
			in.ex.stat.addUnknown()
			break
		}
		if r == Unsat {
			break
		}
		v := in.sol.newEval(m).eval(t)
		if len(vals) >= lim {
			p.trunc = true
			in.ex.stat.addTrunc(fmt.Sprintf("concretisation of a %d-bit value limited to %d values", t.w, lim))
			break
		}
		vals = append(vals, v.Uint64())
		q = in.db.And(q, in.db.Not(in.db.Eq(t, in.db.Const(t.w, v.Uint64()))))
		if q.isFalse() {
			break
		}
	}
	if len(vals) == 0 {
		panic(abort{"infeasible", "concretize"})
	}
	for _, v := range vals[1:] {
		alt := make([]int64, len(p.dec)+1)
		copy(alt, p.dec)
		alt[len(p.dec)] = int64(v)
		in.ex.push(alt)
	}
	p.dec = append(p.dec, int64(vals[0]))
	p.pos++
	p.prefix = p.dec
	in.addPC(in.db.Eq(t, in.db.Const(t.w, vals[0])))
	return vals[0]
}

// ---- attacker knowledge ----

func (in *Interp) release(t *Term) {
	p := in.path
	for _, pc := range in.db.pieces(t) {
		b, lo, w := pieceOf(pc)
		if b.op == OpApp || b.op == OpVar {
			p.released = append(p.released, relPiece{b, lo, lo + w - 1})
		} else if b.op == OpBXor || b.op == OpBOr || b.op == OpBAnd || b.op == OpIte {
			p.released = append(p.released, relPiece{b, lo, lo + w - 1})
		}
	}
	p.derCache = map[*Term]bool{}
}

func (in *Interp) isReleased(b *Term, lo, hi int) bool {
	for _, r := range in.path.released {
		if r.base == b && r.lo <= lo && r.hi >= hi {
			return true
		}
	}
	// covered by several pieces
	n := 0
	for i := lo; i <= hi; i++ {
		ok := false
		for _, r := range in.path.released {
			if r.base == b && r.lo <= i && r.hi >= i {
				ok = true
				break
			}
		}
		if !ok {
			return false
		}
		n++
	}
	return n > 0
}

// derivable: can the attacker compute this term from what was released and what it controls?
func (in *Interp) derivable(t *Term) bool {
	p := in.path
	if v, ok := p.derCache[t]; ok {
		return v
	}
	p.derCache[t] = false
	r := false
	switch t.op {
	case OpConst:
		r = true
	case OpVar:
		r = t.flag&flagFresh == 0 || in.isReleased(t, 0, t.w-1)
	case OpExtract:
		b := t.args[0]
		r = in.isReleased(b, int(t.u), int(t.u)+t.w-1) || in.derivable(b)
	case OpApp:
		if in.isReleased(t, 0, t.w-1) {
			r = true
			break
		}
		switch t.name {
		case "mont", "edy", "edsign":
			r = true // public keys are public
		case "xdh":
			r = in.derivable(t.args[0]) || in.derivable(t.args[1])
		case "xdhx":
			// the attacker may know the discrete log of a point it chose
			r = in.derivable(t.args[0]) || in.advOnly(t.args[1])
		default:
			r = true
			for _, a := range t.args {
				if !in.derivable(a) {
					r = false
					break
				}
			}
		}
	default:
		r = true
		for _, a := range t.args {
			if !in.derivable(a) {
				r = false
				break
			}
		}
	}
	p.derCache[t] = r
	return r
}

func (in *Interp) advOnly(t *Term) bool {
	for v := range in.db.deepVars([]*Term{t}) {
		if v.flag&flagAdv != 0 {
			return true
		}
	}
	return false
}

// idealize rewrites comparisons of attacker-chosen bytes with values the attacker cannot know.
func (in *Interp) idealize(c *Term) *Term {
	if c.isConst() {
		return c
	}
	hasAdv, hasSecret := false, false
	for _, a := range in.db.support(c) {
		if a.op == OpVar && a.flag&flagAdv != 0 {
			hasAdv = true
		}
		if a.op == OpApp || (a.op == OpVar && a.flag&flagFresh != 0) {
			hasSecret = true
		}
	}
	if !hasAdv || !hasSecret {
		return c
	}
	return in.idealRec(c)
}

func (in *Interp) idealRec(c *Term) *Term {
	db := in.db
	switch c.op {
	case OpNot:
		return db.Not(in.idealRec(c.args[0]))
	case OpAnd, OpOr:
		args := make([]*Term, len(c.args))
		for i, a := range c.args {
			args[i] = in.idealRec(a)
		}
		return db.andor(c.op, args)
	case OpIte:
		if c.w == 0 {
			return db.Ite(in.idealRec(c.args[0]), in.idealRec(c.args[1]), in.idealRec(c.args[2]))
		}
	case OpEq:
		x, y := c.args[0], c.args[1]
		if x.w < 64 {
			return c
		}
		xb, _, _ := pieceOf(x)
		yb, _, _ := pieceOf(y)
		if !(xb.op == OpVar && xb.flag&flagAdv != 0) {
			x, y = y, x
			xb, yb = yb, xb
		}
		if !(xb.op == OpVar && xb.flag&flagAdv != 0) {
			return c
		}
		if !(yb.op == OpApp || (yb.op == OpVar && yb.flag&flagFresh != 0)) {
			return c
		}
		if in.derivable(y) {
			return c
		}
		_, lo, w := pieceOf(y)
		res := db.False
		for _, r := range in.path.released {
			if r.base.w != yb.w || r.base.op != yb.op || r.base.name != yb.name && r.base.op == OpApp {
				continue
			}
			if r.lo <= lo && r.hi >= lo+w-1 {
				rt := db.Extract(lo+w-1, lo, r.base)
				res = db.Or(res, db.And(db.Eq(rt, y), in.sol.rawEq(x, rt)))
			}
		}
		return res
	}
	return c
}

// model for reporting
func (in *Interp) vector(m map[*Term]*big.Int) map[string]string {
	out := map[string]string{}
	for _, v := range in.path.vars {
		val, ok := m[v.T]
		if !ok {
			val = in.sol.defaultVal(v.T)
		}
		w := v.T.w
		if w == 0 {
			w = 8
		}
		b := make([]byte, (w+7)/8)
		val.FillBytes(b)
		out[v.Name] = fmt.Sprintf("%x", b)
	}
	return out
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// runGo runs the oldest goroutine waiting to be started.
func (in *Interp) runGo() {
	p := in.path
	f := p.goq[0]
	p.goq = p.goq[1:]
	p.goDepth++
	f()
	p.goDepth--
}

// blocked is called when the running goroutine waits for what nobody left can do.
func (in *Interp) blocked(what string) {
	if in.path.eager > 0 {
		panic(abort{"infeasible", "goroutine waits"}) // it is also tried later
	}
	if in.path.goDepth > 0 {
		// Started goroutines run to completion; another schedule may be fine.
		panic(unsupported("goroutine waits for " + what))
	}
	panic(abort{"deadlock", "deadlock: waiting for " + what})
}

func (in *Interp) lock(a Value, shared bool) {
	if in.initDepth > 0 {
		return
	}
	m, _ := a.(Ptr)
	if m == nil {
		panic(in.rtPanic("invalid memory address or nil pointer dereference"))
	}
	p := in.path
	free := func() bool { return p.locks[m] == 0 || shared && p.locks[m] > 0 }
	for !free() && len(p.goq) > 0 && p.goDepth == 0 {
		in.runGo()
	}
	if !free() {
		in.blocked("a mutex")
	}
	if p.locks == nil {
		p.locks = map[Ptr]int{}
	}
	if shared {
		p.locks[m]++
	} else {
		p.locks[m] = -1
	}
}

func (in *Interp) tryLock(a Value, shared bool) Value {
	if n := in.path.locks[a.(Ptr)]; n == 0 || shared && n > 0 {
		in.lock(a, shared)
		return in.db.True
	}
	return in.db.False
}

func (in *Interp) unlock(a Value, shared bool) {
	if in.initDepth > 0 {
		return
	}
	m, _ := a.(Ptr)
	if m == nil {
		panic(in.rtPanic("invalid memory address or nil pointer dereference"))
	}
	switch n := in.path.locks[m]; {
	case shared && n > 0:
		in.path.locks[m]--
	case !shared && n < 0:
		in.path.locks[m] = 0
	default:
		panic(abort{"fatal", "fatal error: unlock of unlocked mutex"})
	}
}
