package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"os/exec"
	"sort"
	"strings"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

type SolverStats struct {
	Queries   int
	SatN      int
	UnsatN    int
	UnknownN  int
	CacheHits int
	Lemmas    int
	Time      time.Duration
	Errors    int
}

type Solver struct {
	db       *TermDB
	cr       *Crypto
	cmd      *exec.Cmd
	in       *bufio.Writer
	inc      io.WriteCloser
	out      *bufio.Reader
	declared map[int]bool
	nq       int
	stats    SolverStats
	cache    map[string]SatResult
	models   []map[*Term]*big.Int
	timeout  int // ms
	rng      *rand.Rand
	bin      string
}

func NewSolver(db *TermDB, cr *Crypto, seed int64) *Solver {
	s := &Solver{db: db, cr: cr, cache: map[string]SatResult{}, timeout: 20000, rng: rand.New(rand.NewSource(seed)), bin: "z3"}
	return s
}

func (s *Solver) start() error {
	s.stop()
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<20)
	s.out = bufio.NewReaderSize(out, 1<<20)
	s.declared = map[int]bool{}
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :timeout %d)\n(set-logic QF_BV)\n", s.timeout)
	s.nq = 0
	return nil
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortStr(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(t *Term) string {
	if t.w == 0 {
		if t.u == 1 {
			return "true"
		}
		return "false"
	}
	return bvLit(t.bigVal(), t.w)
}
func bvLit(v *big.Int, w int) string {
	if w%4 == 0 {
		h := v.Text(16)
		return "#x" + strings.Repeat("0", w/4-len(h)) + h
	}
	b := v.Text(2)
	return "#b" + strings.Repeat("0", w-len(b)) + b
}

func (s *Solver) ref(t *Term) string {
	if t.op == OpConst {
		return constStr(t)
	}
	return fmt.Sprintf("t%d", t.id)
}

func (s *Solver) emit(t *Term) {
	if t.op == OpConst || s.declared[t.id] {
		return
	}
	s.declared[t.id] = true
	if t.op == OpVar || t.op == OpApp {
		fmt.Fprintf(s.in, "(declare-const t%d %s)\n", t.id, sortStr(t.w))
		if t.op == OpApp && t.name == "rem" {
			fmt.Fprintf(s.in, "(assert (bvule t%d %s))\n", t.id, remBound(t))
		}
		return
	}
	for _, a := range t.args {
		s.emit(a)
	}
	w := s.in
	fmt.Fprintf(w, "(define-fun t%d () %s ", t.id, sortStr(t.w))
	switch t.op {
	case OpExtract:
		fmt.Fprintf(w, "((_ extract %d %d) %s)", int(t.u)+t.w-1, t.u, s.ref(t.args[0]))
	case OpSExt:
		fmt.Fprintf(w, "((_ sign_extend %d) %s)", t.w-t.args[0].w, s.ref(t.args[0]))
	case OpConcat, OpAdd, OpBAnd, OpBOr, OpBXor:
		// left fold
		n := opName[t.op]
		for i := 1; i < len(t.args); i++ {
			w.WriteString("(" + n + " ")
		}
		w.WriteString(s.ref(t.args[0]))
		for _, a := range t.args[1:] {
			w.WriteString(" " + s.ref(a) + ")")
		}
	default:
		w.WriteString("(" + opName[t.op])
		for _, a := range t.args {
			w.WriteString(" " + s.ref(a))
		}
		w.WriteString(")")
	}
	w.WriteString(")\n")
}

// remBound is the largest remainder.
func remBound(t *Term) string {
	return bvLit(new(big.Int).Sub(t.args[1].bigVal(), big.NewInt(1)), t.w)
}

// support: variables and applications occurring outside application arguments.
func (db *TermDB) support(t *Term) []*Term {
	if t.supp != nil {
		return t.supp
	}
	if t.op == OpConst {
		return nil
	}
	if t.op == OpVar || t.op == OpApp {
		t.supp = []*Term{t}
		return t.supp
	}
	m := map[*Term]bool{}
	var out []*Term
	for _, a := range t.args {
		for _, x := range db.support(a) {
			if !m[x] {
				m[x] = true
				out = append(out, x)
			}
		}
	}
	if out == nil {
		out = []*Term{}
	}
	t.supp = out
	return out
}

// deepVars: variables occurring anywhere, including application arguments.
func (db *TermDB) deepVars(ts []*Term) map[*Term]bool {
	seen := map[*Term]bool{}
	res := map[*Term]bool{}
	var st []*Term
	push := func(t *Term) {
		if !seen[t] {
			seen[t] = true
			st = append(st, t)
		}
	}
	for _, t := range ts {
		push(t)
	}
	for len(st) > 0 {
		t := st[len(st)-1]
		st = st[:len(st)-1]
		if t.op == OpVar {
			res[t] = true
		}
		for _, a := range t.args {
			push(a)
		}
	}
	return res
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// raw check of a conjunction; if want != nil, values of these atoms are returned on sat.
func (s *Solver) rawCheck(conj []*Term, want []*Term) (SatResult, map[*Term]*big.Int) {
	start := time.Now()
	defer func() { s.stats.Time += time.Since(start) }()
	s.stats.Queries++
	if s.cmd == nil || s.nq > 3000 {
		if err := s.start(); err != nil {
			s.stats.Errors++
			return Unknown, nil
		}
	}
	s.nq++
	for _, c := range conj {
		s.emit(c)
	}
	for _, v := range want {
		s.emit(v)
	}
	s.in.WriteString("(push)\n")
	for _, c := range conj {
		fmt.Fprintf(s.in, "(assert %s)\n", s.ref(c))
	}
	s.in.WriteString("(check-sat)\n")
	// the solver's own limit is not observed in all its phases
	p := s.cmd.Process
	dog := time.AfterFunc(time.Duration(s.timeout)*time.Millisecond+5*time.Second, func() { p.Kill() })
	defer dog.Stop()
	if err := s.in.Flush(); err != nil {
		s.stats.Errors++
		s.stop()
		return Unknown, nil
	}
	l, err := s.readLine()
	if err != nil || strings.HasPrefix(l, "(error") {
		s.stats.Errors++
		if len(l) > 0 {
			logf("solver error: %s", l)
		}
		s.stop()
		return Unknown, nil
	}
	var res SatResult
	switch l {
	case "sat":
		res = Sat
		s.stats.SatN++
	case "unsat":
		res = Unsat
		s.stats.UnsatN++
	default:
		res = Unknown
		s.stats.UnknownN++
	}
	var model map[*Term]*big.Int
	if res == Sat && len(want) > 0 {
		model = map[*Term]*big.Int{}
		byID := map[int]*Term{}
		s.in.WriteString("(get-value (")
		for _, v := range want {
			fmt.Fprintf(s.in, "t%d ", v.id)
			byID[v.id] = v
		}
		s.in.WriteString("))\n(echo \"@@end\")\n")
		s.in.Flush()
		var sb strings.Builder
		for {
			l, err := s.readLine()
			if err != nil {
				s.stats.Errors++
				s.stop()
				return Unknown, nil
			}
			if l == "@@end" || l == "\"@@end\"" {
				break
			}
			sb.WriteString(l)
			sb.WriteByte(' ')
		}
		toks := strings.FieldsFunc(sb.String(), func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
		for i := 0; i+1 < len(toks); i += 2 {
			var id int
			if _, err := fmt.Sscanf(toks[i], "t%d", &id); err != nil || byID[id] == nil {
				s.stats.Errors++
				s.stop()
				return Unknown, nil
			}
			v := new(big.Int)
			x := toks[i+1]
			switch {
			case x == "true":
				v.SetInt64(1)
			case x == "false":
			case strings.HasPrefix(x, "#x"):
				v.SetString(x[2:], 16)
			case strings.HasPrefix(x, "#b"):
				v.SetString(x[2:], 2)
			default:
				s.stats.Errors++
				s.stop()
				return Unknown, nil
			}
			model[byID[id]] = v
		}
	}
	s.in.WriteString("(pop)\n")
	return res, model
}

func idsKey(ts []*Term) string {
	ids := make([]int, len(ts))
	for i, t := range ts {
		ids[i] = t.id
	}
	sort.Ints(ids)
	b := make([]byte, 0, len(ids)*3)
	for _, i := range ids {
		b = put64(b, uint64(i))
	}
	return string(b)
}

// slice returns the conjuncts of pc transitively sharing atoms with q.
func (s *Solver) slice(pc []*Term, q []*Term, deep bool) []*Term {
	atoms := map[*Term]bool{}
	sup := func(t *Term) []*Term {
		if !deep {
			return s.db.support(t)
		}
		return s.deepOf(t)
	}
	for _, t := range q {
		for _, a := range sup(t) {
			atoms[a] = true
		}
	}
	used := make([]bool, len(pc))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, c := range pc {
			if used[i] {
				continue
			}
			hit := false
			for _, a := range sup(c) {
				if atoms[a] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, c)
				for _, a := range sup(c) {
					atoms[a] = true
				}
			}
		}
	}
	return out
}

func (s *Solver) deepOf(t *Term) []*Term {
	if r, ok := s.db.deepc[t]; ok {
		return r
	}
	m := s.db.deepVars([]*Term{t})
	out := make([]*Term, 0, len(m)+4)
	for v := range m {
		out = append(out, v)
	}
	for _, a := range s.db.support(t) {
		if a.op == OpApp {
			out = append(out, a)
		}
	}
	s.db.deepc[t] = out
	return out
}

// Check decides satisfiability of pc ∧ q under the ideal-function lemmas.
func (s *Solver) Check(pc []*Term, q *Term) SatResult {
	if q.isFalse() {
		return Unsat
	}
	if q.isTrue() {
		return Sat // pc is kept satisfiable
	}
	qs := []*Term{q}
	sl := s.slice(pc, qs, false)
	all := append(append([]*Term(nil), sl...), q)
	key := idsKey(all)
	r, ok := s.cache[key]
	if ok {
		s.stats.CacheHits++
	} else {
		r, _ = s.rawCheck(all, nil)
		s.cache[key] = r
	}
	if r != Sat {
		return r
	}
	// lemmas needed?
	if !s.needLemmas(all) {
		return Sat
	}
	sl = s.slice(pc, qs, true)
	all = append(append([]*Term(nil), sl...), q)
	key = "L" + idsKey(all)
	if r, ok := s.cache[key]; ok {
		s.stats.CacheHits++
		return r
	}
	r, _, _ = s.solveLemmas(all, nil)
	s.cache[key] = r
	return r
}

func (s *Solver) needLemmas(ts []*Term) bool {
	cnt := map[string]int{}
	seen := map[*Term]bool{}
	for _, t := range ts {
		for _, a := range s.db.support(t) {
			if a.op == OpApp && !seen[a] {
				seen[a] = true
				cnt[a.name]++
				if cnt[a.name] >= 2 {
					return true
				}
			}
		}
	}
	return false
}

func (s *Solver) atomsOf(ts []*Term) []*Term {
	m := map[*Term]bool{}
	var out []*Term
	for _, t := range ts {
		for _, a := range s.db.support(t) {
			if !m[a] {
				m[a] = true
				out = append(out, a)
			}
		}
	}
	return out
}

// solveLemmas: CEGAR over congruence and collision-freeness of the ideal functions.
func (s *Solver) solveLemmas(conj []*Term, extra []*Term) (SatResult, map[*Term]*big.Int, []*Term) {
	lem := append([]*Term(nil), extra...)
	have := map[*Term]bool{}
	for round := 0; round < 30; round++ {
		all := append(append([]*Term(nil), conj...), lem...)
		atoms := s.atomsOf(all)
		r, m := s.rawCheck(all, atoms)
		if r != Sat {
			return r, nil, lem
		}
		if len(atoms) == 0 {
			return Sat, map[*Term]*big.Int{}, lem
		}
		ev := s.newEval(m)
		added := false
		byOut := map[string]*Term{}
		byArg := map[string]*Term{}
		for _, a := range atoms {
			if a.op != OpApp {
				continue
			}
			var ak strings.Builder
			ak.WriteString(a.name)
			for _, x := range a.args {
				fmt.Fprintf(&ak, "|%d:%s", x.w, ev.eval(x).Text(62))
			}
			ok := fmt.Sprintf("%s|%d=%s", a.name, a.w, m[a].Text(62))
			if b, hit := byArg[ak.String()]; hit {
				if m[a].Cmp(m[b]) != 0 {
					if l := s.congruence(a, b); l != nil && !have[l] {
						have[l] = true
						lem = append(lem, l)
						added = true
					}
				}
			} else {
				byArg[ak.String()] = a
			}
			if hashLike[a.name] && a.w >= 64 {
				if b, hit := byOut[ok]; hit {
					l := s.injective(a, b)
					if l != nil && !l.isTrue() && !have[l] {
						have[l] = true
						lem = append(lem, l)
						added = true
					}
				} else {
					byOut[ok] = a
				}
			}
		}
		if !added {
			return Sat, m, lem
		}
		s.stats.Lemmas += len(lem)
	}
	return Unknown, nil, lem
}

func (s *Solver) rawEq(a, b *Term) *Term {
	if a == b {
		return s.db.True
	}
	if a.h > b.h {
		a, b = b, a
	}
	return s.db.mk(OpEq, 0, 0, "", []*Term{a, b})
}

func (s *Solver) congruence(a, b *Term) *Term {
	if len(a.args) != len(b.args) || a.w != b.w {
		return nil
	}
	c := s.db.True
	for i := range a.args {
		if a.args[i].w != b.args[i].w {
			return nil
		}
		c = s.db.And(c, s.db.Eq(a.args[i], b.args[i]))
	}
	return s.db.Or(s.db.Not(c), s.rawEq(a, b))
}

func (s *Solver) injective(a, b *Term) *Term {
	if a.w != b.w {
		return nil
	}
	e := s.cr.eqIdeal(a, b)
	if e == nil {
		return nil
	}
	return s.db.Or(s.db.Not(s.rawEq(a, b)), e)
}

// ---- evaluation ----

type evalCtx struct {
	s    *Solver
	m    map[*Term]*big.Int // variable (and optionally app) values
	memo map[*Term]*big.Int
	real bool // ignore app values in m; compute them
}

func (s *Solver) newEval(m map[*Term]*big.Int) *evalCtx {
	return &evalCtx{s: s, m: m, memo: map[*Term]*big.Int{}}
}

func (s *Solver) defaultVal(t *Term) *big.Int {
	r := rand.New(rand.NewSource(int64(t.h>>1)*7919 + 17))
	v := new(big.Int)
	for i := 0; i < t.w; i += 32 {
		v.Lsh(v, 32)
		v.Or(v, big.NewInt(int64(r.Uint32())))
	}
	m := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(max(t.w, 1))), big.NewInt(1))
	return v.And(v, m)
}

func bmask(w int) *big.Int {
	return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1))
}

func sgn(v *big.Int, w int) *big.Int {
	if v.Bit(w-1) == 1 {
		return new(big.Int).Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(w)))
	}
	return v
}

func (e *evalCtx) eval(root *Term) *big.Int {
	// iterative post-order to survive deep application chains
	type fr struct {
		t *Term
		i int
	}
	if v, ok := e.memo[root]; ok {
		return v
	}
	st := []fr{{root, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		t := f.t
		if _, ok := e.memo[t]; ok {
			st = st[:len(st)-1]
			continue
		}
		if t.op == OpConst {
			e.memo[t] = t.bigVal()
			st = st[:len(st)-1]
			continue
		}
		if t.op == OpVar || (t.op == OpApp && !e.real) {
			if v, ok := e.m[t]; ok {
				e.memo[t] = v
				st = st[:len(st)-1]
				continue
			}
			if t.op == OpVar {
				e.memo[t] = e.s.defaultVal(t)
				st = st[:len(st)-1]
				continue
			}
		}
		if f.i < len(t.args) {
			a := t.args[f.i]
			f.i++
			if _, ok := e.memo[a]; !ok {
				st = append(st, fr{a, 0})
			}
			continue
		}
		vals := make([]*big.Int, len(t.args))
		for i, a := range t.args {
			vals[i] = e.memo[a]
		}
		e.memo[t] = e.apply(t, vals)
		st = st[:len(st)-1]
	}
	return e.memo[root]
}

func b2i(b bool) *big.Int {
	if b {
		return big.NewInt(1)
	}
	return new(big.Int)
}

func (e *evalCtx) apply(t *Term, v []*big.Int) *big.Int {
	w := t.w
	mod := func(x *big.Int) *big.Int { return x.And(x, bmask(w)) }
	switch t.op {
	case OpApp:
		if r := e.s.cr.evalApp(t, v); r != nil {
			return r
		}
		return e.s.defaultVal(t)
	case OpConcat:
		r := new(big.Int)
		for i, a := range t.args {
			r.Lsh(r, uint(a.w))
			r.Or(r, v[i])
		}
		return r
	case OpExtract:
		return mod(new(big.Int).Rsh(v[0], uint(t.u)))
	case OpSExt:
		return mod(new(big.Int).Set(sgn(v[0], t.args[0].w)))
	case OpAdd:
		r := new(big.Int)
		for _, x := range v {
			r.Add(r, x)
		}
		return mod(r)
	case OpMul:
		return mod(new(big.Int).Mul(v[0], v[1]))
	case OpUDiv:
		if v[1].Sign() == 0 {
			return bmask(w)
		}
		return new(big.Int).Div(v[0], v[1])
	case OpURem:
		if v[1].Sign() == 0 {
			return v[0]
		}
		return new(big.Int).Mod(v[0], v[1])
	case OpSDiv, OpSRem:
		a, b := sgn(v[0], w), sgn(v[1], w)
		if b.Sign() == 0 {
			if t.op == OpSRem {
				return v[0]
			}
			if a.Sign() >= 0 {
				return bmask(w)
			}
			return big.NewInt(1)
		}
		q, r := new(big.Int).QuoRem(a, b, new(big.Int))
		if t.op == OpSDiv {
			return mod(q)
		}
		return mod(r)
	case OpShl, OpLShr, OpAShr:
		n := uint(w)
		if v[1].IsUint64() && v[1].Uint64() < uint64(w) {
			n = uint(v[1].Uint64())
		}
		switch t.op {
		case OpShl:
			return mod(new(big.Int).Lsh(v[0], n))
		case OpLShr:
			return new(big.Int).Rsh(v[0], n)
		}
		return mod(new(big.Int).Rsh(sgn(v[0], w), n))
	case OpBAnd, OpBOr, OpBXor:
		r := new(big.Int).Set(v[0])
		for _, x := range v[1:] {
			switch t.op {
			case OpBAnd:
				r.And(r, x)
			case OpBOr:
				r.Or(r, x)
			default:
				r.Xor(r, x)
			}
		}
		return r
	case OpIte:
		if v[0].Sign() != 0 {
			return v[1]
		}
		return v[2]
	case OpNot:
		return b2i(v[0].Sign() == 0)
	case OpAnd:
		for _, x := range v {
			if x.Sign() == 0 {
				return b2i(false)
			}
		}
		return b2i(true)
	case OpOr:
		for _, x := range v {
			if x.Sign() != 0 {
				return b2i(true)
			}
		}
		return b2i(false)
	case OpEq:
		return b2i(v[0].Cmp(v[1]) == 0)
	case OpUlt:
		return b2i(v[0].Cmp(v[1]) < 0)
	case OpSlt:
		return b2i(sgn(v[0], t.args[0].w).Cmp(sgn(v[1], t.args[1].w)) < 0)
	}
	panic("eval " + opName[t.op])
}

// Witness finds concrete variable values satisfying all conjuncts with the *real* functions in place
// of the ideal ones, or reports failure.
func (s *Solver) Witness(conj []*Term) (map[*Term]*big.Int, bool) {
	for attempt := 0; attempt < 4; attempt++ {
		if m, ok := s.witnessOnce(conj, attempt); ok {
			return m, true
		}
	}
	return nil, false
}

func (s *Solver) witnessOnce(conj []*Term, attempt int) (map[*Term]*big.Int, bool) {
	db := s.db
	// all applications and variables reachable
	seen := map[*Term]bool{}
	var apps, vars []*Term
	var st []*Term
	for _, c := range conj {
		st = append(st, c)
	}
	for len(st) > 0 {
		t := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[t] {
			continue
		}
		seen[t] = true
		if t.op == OpApp {
			apps = append(apps, t)
		}
		if t.op == OpVar {
			vars = append(vars, t)
		}
		st = append(st, t.args...)
	}
	// id order is a topological order (args are created first)
	sort.Slice(apps, func(i, j int) bool { return apps[i].id < apps[j].id })
	sort.Slice(vars, func(i, j int) bool { return vars[i].id < vars[j].id })
	if attempt > 0 {
		apps = s.aesFirst(apps, attempt)
	}
	pins := []*Term{}
	// random values for honest randomness, dropped if contradictory
	rnd := func(w int) *big.Int {
		v := new(big.Int)
		for i := 0; i < w; i += 32 {
			v.Lsh(v, 32)
			v.Or(v, big.NewInt(int64(s.rng.Uint32())))
		}
		return v.And(v, bmask(w))
	}
	for _, v := range vars {
		if v.flag&flagFresh != 0 {
			pins = append(pins, s.rawEq(v, db.BigConst(v.w, rnd(v.w))))
		}
	}
	base := conj
	r, m, lem := s.solveLemmas(append(append([]*Term(nil), base...), pins...), nil)
	if r != Sat {
		pins = nil
		r, m, lem = s.solveLemmas(base, nil)
		if r != Sat {
			return nil, false
		}
	}
	_ = lem
	known := map[*Term]*big.Int{} // evaluated applications
	check := func(m map[*Term]*big.Int) bool {
		ev := s.newEval(m)
		ev.real = true
		for _, c := range conj {
			if ev.eval(c).Sign() == 0 {
				return false
			}
		}
		return true
	}
	full := func(m map[*Term]*big.Int) map[*Term]*big.Int {
		out := map[*Term]*big.Int{}
		for _, v := range vars {
			if x, ok := m[v]; ok {
				out[v] = x
			} else {
				out[v] = s.defaultVal(v)
			}
		}
		return out
	}
	if check(full(m)) {
		return full(m), true
	}
	pinned := map[*Term]bool{}
	var appEqs []*Term
	setVars := func() *evalCtx {
		for k, v := range m {
			if k.op == OpVar {
				known[k] = v
			}
		}
		return s.newEval(known)
	}
	ev := setVars()
	for _, a := range apps {
		var free []*Term
		for _, arg := range a.args {
			for _, pc := range db.pieces(arg) {
				b, _, _ := pieceOf(pc)
				if !pinned[pc] && !b.isConst() && b.op != OpApp {
					free = append(free, pc)
				}
			}
		}
		if len(free) > 0 {
			cur := append(append(append([]*Term(nil), base...), pins...), appEqs...)
			r, mm := s.rawCheck(cur, s.atomsOf(cur))
			if r != Sat {
				return nil, false
			}
			m = mm
			ev = setVars()
			if attempt > 0 && s.invertAES(a, ev, m, known, &pins, pinned) {
				appEqs = append(appEqs, s.rawEq(a, db.BigConst(a.w, known[a])))
				cur := append(append(append([]*Term(nil), base...), pins...), appEqs...)
				if r, m = s.rawCheck(cur, s.atomsOf(cur)); r != Sat {
					return nil, false
				}
				ev = setVars()
				continue
			}
			for _, pc := range free {
				pinned[pc] = true
				pins = append(pins, s.rawEq(pc, db.BigConst(pc.w, ev.eval(pc))))
			}
		}
		vals := make([]*big.Int, len(a.args))
		for k, arg := range a.args {
			vals[k] = ev.eval(arg)
		}
		v := s.cr.evalApp(a, vals)
		if v == nil {
			v = s.defaultVal(a)
		}
		known[a] = v
		ev.memo[a] = v
		appEqs = append(appEqs, s.rawEq(a, db.BigConst(a.w, v)))
	}
	cur := append(append(append([]*Term(nil), base...), pins...), appEqs...)
	r, m = s.rawCheck(cur, s.atomsOf(cur))
	if r != Sat {
		return nil, false
	}
	f := full(m)
	return f, check(f)
}

// invertAES chooses the input of a block cipher application so that its result is the one the model
// gives: with the real cipher the result cannot be chosen by the input. The other applications to the
// same input get the results they really have, so different attempts favour different applications.
func (s *Solver) invertAES(a *Term, ev *evalCtx, m, known map[*Term]*big.Int, pins *[]*Term, pinned map[*Term]bool) bool {
	if a.name != "aesdec" && a.name != "aesenc" {
		return false
	}
	for _, pc := range s.db.pieces(a.args[0]) {
		b, _, _ := pieceOf(pc)
		if !pinned[pc] && !b.isConst() && b.op != OpApp {
			return false
		}
	}
	in := s.db.pieces(a.args[1])
	for _, pc := range in {
		b, _, _ := pieceOf(pc)
		if pinned[pc] || b.isConst() || b.op == OpApp {
			return false
		}
	}
	out, ok := m[a]
	if !ok {
		return false
	}
	inv := &Term{op: OpApp, name: map[string]string{"aesdec": "aesenc", "aesenc": "aesdec"}[a.name], w: 128, args: a.args}
	x := s.cr.evalApp(inv, []*big.Int{ev.eval(a.args[0]), out})
	if x == nil {
		return false
	}
	*pins = append(*pins, s.rawEq(a.args[1], s.db.BigConst(128, x)))
	for _, pc := range in {
		pinned[pc] = true
	}
	known[a] = out
	ev.memo[a] = out
	return true
}

// aesFirst orders applications so that block cipher applications come as soon as their keys are there.
func (s *Solver) aesFirst(apps []*Term, attempt int) []*Term {
	same := map[*Term][]*Term{}
	var ins []*Term
	for _, a := range apps {
		if a.name == "aesdec" || a.name == "aesenc" {
			if same[a.args[1]] == nil {
				ins = append(ins, a.args[1])
			}
			same[a.args[1]] = append(same[a.args[1]], a)
		}
	}
	var out []*Term
	done := map[*Term]bool{}
	add := func(a *Term) {
		if !done[a] {
			done[a] = true
			out = append(out, a)
		}
	}
	// everything that does not depend on the inputs comes first
	dep := map[*Term]bool{}
	isIn := map[*Term]bool{}
	for _, in := range ins {
		for _, pc := range s.db.pieces(in) {
			if b, _, _ := pieceOf(pc); b.op == OpVar {
				isIn[b] = true
			}
		}
	}
	var depends func(t *Term) bool
	depends = func(t *Term) bool {
		if d, ok := dep[t]; ok {
			return d
		}
		d := isIn[t]
		for _, a := range t.args {
			if depends(a) {
				d = true
			}
		}
		dep[t] = d
		return d
	}
	for _, a := range apps {
		if !depends(a) {
			add(a)
		}
	}
	for _, in := range ins {
		l := same[in]
		f := l[0]
		switch attempt {
		case 2:
			f = l[len(l)-1]
		case 3:
			f = l[s.rng.Intn(len(l))]
		}
		for _, x := range s.appsOf(f) {
			add(x)
		}
	}
	for _, a := range apps {
		add(a)
	}
	return out
}

// appsOf lists the applications in t, arguments first.
func (s *Solver) appsOf(t *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	st := []*Term{t}
	for len(st) > 0 {
		t := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[t] {
			continue
		}
		seen[t] = true
		if t.op == OpApp {
			out = append(out, t)
		}
		st = append(st, t.args...)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}
