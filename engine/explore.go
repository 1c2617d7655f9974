package main

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

var verbose bool

func logf(f string, a ...interface{}) {
	if verbose {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

type Stats struct {
	branches, unknown, trunc int64
	paths, infeasible        int64
	asserts                  int64 // assertions evaluated
	assertQ                  int64 // decided by the solver
	mu                       sync.Mutex
	truncMsgs                map[string]int
	unsup                    map[string]int
	limits                   map[string]int
	covers                   map[string]int
	assertSites              map[string]int
	steps                    int64
	sol                      SolverStats
}

func (s *Stats) addBranch()  { atomic.AddInt64(&s.branches, 1) }
func (s *Stats) addUnknown() { atomic.AddInt64(&s.unknown, 1) }
func (s *Stats) addTrunc(m string) {
	s.mu.Lock()
	s.truncMsgs[m]++
	s.mu.Unlock()
}

type item struct {
	prefix []int64
}

// Case is a concrete input vector found by the solver, to be replayed natively.
type Case struct {
	ID      int               `json:"id"`
	Harness string            `json:"harness"`
	Prop    string            `json:"prop"`
	Kind    string            `json:"kind"` // "cex", "panic" or "witness"
	Msg     string            `json:"msg"`
	Vector  map[string]string `json:"vector"`
	Obs     []string          `json:"obs,omitempty"`
	Dec     []int64           `json:"dec,omitempty"`
	Thor    bool              `json:"thorough,omitempty"`
}

type Explorer struct {
	prog     *Program
	prop     string
	thorough bool
	seed     int64
	workers  int
	stat     *Stats

	mu       sync.Mutex
	cond     *sync.Cond
	stack    []item
	active   int
	stop     atomic.Bool
	deadline time.Time
	harness  *ssa.Function
	hname    string
	funcs    map[string]bool
	cexCount map[string]int
	unconf   map[string]int
	cases    []*Case
	witN     int
	witMax   int
	onCex    func(c *Case) bool
	memLimit int
	pressure atomic.Int32 // 0 fine, 1 high memory use, 2 too high
	rng      *rand.Rand
	ins      []*Interp
	pathsH   int64
}

func (ex *Explorer) push(p []int64) {
	ex.mu.Lock()
	ex.stack = append(ex.stack, item{p})
	ex.mu.Unlock()
	ex.cond.Signal()
}

// watchMemory keeps the process within its share of the machine.
func (ex *Explorer) watchMemory(soft, hard uint64) {
	for {
		time.Sleep(200 * time.Millisecond)
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		l := int32(0)
		if m.HeapAlloc > hard {
			l = 2
		} else if m.HeapAlloc > soft {
			l = 1
		}
		if o := ex.pressure.Swap(l); o != l {
			if l == 2 {
				go runtime.GC()
			}
			ex.cond.Broadcast()
		}
	}
}

func (ex *Explorer) noteFunc(n string) {
	ex.mu.Lock()
	ex.funcs[n] = true
	ex.mu.Unlock()
}

func (ex *Explorer) tick(in *Interp) {
	if ex.stop.Load() {
		panic(abort{"stop", "stopped"})
	}
	if time.Now().After(ex.deadline) {
		panic(abort{"time", "time budget"})
	}
	if ex.pressure.Load() == 2 {
		panic(abort{"limit", "memory limit"})
	}
}

func (ex *Explorer) pop() (item, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop.Load() || time.Now().After(ex.deadline) {
			ex.cond.Broadcast()
			return item{}, false
		}
		if n := len(ex.stack); n > 0 && (ex.pressure.Load() == 0 || ex.active < 2) {
			i := n - 1
			if n > 64 && ex.rng.Intn(3) == 0 {
				i = ex.rng.Intn(n)
			}
			it := ex.stack[i]
			ex.stack[i] = ex.stack[n-1]
			ex.stack = ex.stack[:n-1]
			ex.active++
			return it, true
		}
		if ex.active == 0 && len(ex.stack) == 0 {
			ex.cond.Broadcast()
			return item{}, false
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) done() {
	ex.mu.Lock()
	ex.active--
	ex.mu.Unlock()
	ex.cond.Broadcast()
}

type hresult struct {
	Name     string  `json:"name"`
	Paths    int64   `json:"paths"`
	Complete bool    `json:"complete"`
	Seconds  float64 `json:"seconds"`
	Left     int     `json:"pending_prefixes,omitempty"`
}

// Explore runs one harness over its whole decision tree (or until the budget ends).
func (ex *Explorer) Explore(fn *ssa.Function, budget time.Duration) hresult {
	start := time.Now()
	ex.harness = fn
	ex.hname = fn.Name()
	ex.deadline = start.Add(budget)
	ex.stop.Store(false)
	ex.stack = []item{{nil}}
	ex.active = 0
	ex.witN = 0
	ex.pathsH = 0
	var wg sync.WaitGroup
	tm := time.AfterFunc(budget+50*time.Millisecond, func() { ex.cond.Broadcast() })
	for w := 0; w < ex.workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				it, ok := ex.pop()
				if !ok {
					return
				}
				ex.runPath(w, it)
				if ex.pressure.Load() > 0 {
					ex.retire(w)
				}
				ex.done()
			}
		}(w)
	}
	wg.Wait()
	tm.Stop()
	r := hresult{Name: ex.hname, Paths: atomic.LoadInt64(&ex.pathsH), Seconds: time.Since(start).Seconds()}
	r.Left = len(ex.stack)
	r.Complete = r.Left == 0 && !ex.stop.Load() && !time.Now().After(ex.deadline)
	return r
}

func (ex *Explorer) interp(w int) *Interp {
	in := ex.ins[w]
	if in != nil && len(in.db.all) > ex.memLimit {
		ex.retire(w)
		in = nil
	}
	if in == nil {
		in = NewInterp(ex.prog, ex, ex.seed*1000+int64(w))
		ex.ins[w] = in
	}
	return in
}

func (ex *Explorer) retire(w int) {
	in := ex.ins[w]
	if in == nil {
		return
	}
	in.sol.stop()
	ex.stat.mu.Lock()
	a, b := &ex.stat.sol, &in.sol.stats
	a.Queries += b.Queries
	a.SatN += b.SatN
	a.UnsatN += b.UnsatN
	a.UnknownN += b.UnknownN
	a.CacheHits += b.CacheHits
	a.Lemmas += b.Lemmas
	a.Time += b.Time
	a.Errors += b.Errors
	ex.stat.mu.Unlock()
	ex.ins[w] = nil
}

func (ex *Explorer) runPath(w int, it item) {
	in := ex.interp(w)
	p := &Path{in: in, prefix: it.prefix, pcset: map[*Term]bool{}, varCount: map[string]int{}, derCache: map[*Term]bool{},
		reached: map[string]bool{}, globals: map[interface{}]*Value{}, inited: map[interface{}]bool{}}
	in.path = p
	in.depth = 0
	in.initDepth = 0
	kind, msg := "ok", ""
	var tp *targetPanic
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case abort:
					kind, msg = x.kind, x.msg
				case targetPanic:
					kind, msg = "panic", x.msg
					tp = &x
				default:
					if os.Getenv("ENGINE_DEBUG") != "" {
						panic(r)
					}
					kind, msg = "unsupported", fmt.Sprintf("internal: %v", r)
				}
			}
		}()
		in.db.tick = func() { ex.tick(in) }
		defer func() { in.db.tick = nil }()
		in.call(ex.harness, nil, nil)
		for len(p.goq) > 0 {
			in.runGo()
		}
	}()
	_ = tp
	st := ex.stat
	atomic.AddInt64(&st.steps, p.steps)
	atomic.AddInt64(&ex.pathsH, 1)
	st.mu.Lock()
	switch kind {
	case "ok", "panic", "assert", "deadlock", "fatal":
		st.paths++
	case "infeasible":
		st.infeasible++
	case "unsupported":
		st.unsup[msg]++
		if verbose && st.unsup[msg] == 1 {
			logf("[%s] unsupported: %s", ex.hname, msg)
		}
	case "limit":
		st.limits[msg]++
	}
	for c := range p.reached {
		st.covers[ex.hname+":"+c]++
	}
	st.mu.Unlock()
	switch kind {
	case "panic":
		ex.candidate(in, nil, "panic", "uncaught panic: "+msg)
	case "fatal":
		ex.candidate(in, nil, "panic", msg)
	case "deadlock":
		ex.candidate(in, nil, "deadlock", msg)
	case "limit":
		if msg == "step limit" {
			ex.candidate(in, nil, "deadlock", "the call does not end")
		}
	case "ok":
		ex.mu.Lock()
		want := ex.witN < ex.witMax
		n := ex.pathsH
		ex.mu.Unlock()
		if want && (n <= 3 || n&(n-1) == 0 || n%61 == 0) {
			if m, ok := in.sol.Witness(p.pc); ok {
				ex.mu.Lock()
				if ex.witN < ex.witMax {
					ex.witN++
					ex.cases = append(ex.cases, ex.mkCase(in, m, "witness", ""))
				}
				ex.mu.Unlock()
			}
		}
	}
}

func (ex *Explorer) mkCase(in *Interp, m map[*Term]*big.Int, kind, msg string) *Case {
	c := &Case{ID: len(ex.cases), Harness: ex.hname, Prop: ex.prop, Kind: kind, Msg: msg, Vector: in.vector(m), Dec: append([]int64(nil), in.path.dec...), Thor: ex.thorough}
	ev := in.sol.newEval(ex.fullModel(in, m))
	ev.real = true
	for _, o := range in.path.obs {
		s := ""
		if o.T != nil {
			b := make([]byte, (o.T.w+7)/8)
			ev.eval(o.T).FillBytes(b)
			s = hex.EncodeToString(b)
		}
		c.Obs = append(c.Obs, o.Label+"="+s)
	}
	return c
}

func (ex *Explorer) fullModel(in *Interp, m map[*Term]*big.Int) map[*Term]*big.Int {
	out := map[*Term]*big.Int{}
	for _, v := range in.path.vars {
		if x, ok := m[v.T]; ok {
			out[v.T] = x
		} else {
			out[v.T] = in.sol.defaultVal(v.T)
		}
	}
	return out
}

// candidate handles a possible violation: a concrete input is extracted and replayed natively.
func (ex *Explorer) candidate(in *Interp, neg *Term, kind, msg string) {
	ex.mu.Lock()
	key := ex.hname + "/" + msg
	n := ex.cexCount[key]
	if n >= 40 || kind == "deadlock" && n >= 2 {
		ex.unconf[key]++
		ex.mu.Unlock()
		return
	}
	ex.cexCount[key]++
	ex.mu.Unlock()
	conj := append([]*Term(nil), in.path.pc...)
	if neg != nil {
		conj = append(conj, neg)
	}
	m, ok := in.sol.Witness(conj)
	if !ok {
		ex.mu.Lock()
		ex.unconf[key]++
		ex.mu.Unlock()
		logf("[%s] no concrete witness for: %s", ex.hname, msg)
		return
	}
	c := ex.mkCase(in, m, kind, msg)
	if !ex.onCex(c) {
		ex.mu.Lock()
		ex.unconf[key]++
		ex.mu.Unlock()
	}
}

func (in *Interp) assert(prop string, c *Term, msg string) {
	ex := in.ex
	p := in.path
	if prop != ex.prop && prop != "" {
		mine := false
		for _, q := range strings.Split(prop, "|") {
			mine = mine || q == ex.prop
		}
		if !mine {
			return
		}
	}
	p.asserts++
	st := ex.stat
	atomic.AddInt64(&st.asserts, 1)
	st.mu.Lock()
	st.assertSites[ex.hname+": "+msg]++
	st.mu.Unlock()
	c = in.idealize(in.subst(c))
	if c.isTrue() {
		return
	}
	if v, ok := in.implied(c); ok && v {
		return
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.dec = append(p.dec, d)
		if d == 0 {
			panic(abort{"assert", msg})
		}
		in.addPC(c)
		return
	}
	atomic.AddInt64(&st.assertQ, 1)
	neg := in.db.Not(c)
	r := in.sol.Check(p.pc, neg)
	if r == Unknown {
		ex.stat.addUnknown()
	}
	d := int64(1)
	if r != Unsat {
		logf("[%s] candidate: %s (%v)", ex.hname, msg, r)
		if os.Getenv("ENGINE_CAND") != "" {
			for _, c := range p.pc {
				logf("   pc %s", trunc(c.String(), 300))
			}
			logf("   neg %s", trunc(neg.String(), 3000))
		}
		ex.candidate(in, neg, "cex", msg)
		if c.isFalse() || in.sol.Check(p.pc, c) == Unsat {
			d = 0
		}
	}
	p.dec = append(p.dec, d)
	p.pos++
	p.prefix = p.dec
	if d == 0 {
		panic(abort{"assert", msg})
	}
	in.addPC(c)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func shortFn(s string) string { return strings.ReplaceAll(s, repoMod+"/", "") }
