package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type replayResult struct {
	ID       int      `json:"id"`
	Failed   []string `json:"failed"` // "prop: msg"
	Panic    string   `json:"panic"`
	Assumed  bool     `json:"assumed"` // an assumption did not hold
	Obs      []string `json:"obs"`
	Missing  []string `json:"missing"`
	TimedOut bool     `json:"timed_out"`
}

type replayer struct {
	bin string
	mu  sync.Mutex
	n   int
}

func (r *replayer) run(cases []*Case) (map[int]*replayResult, error) {
	f, err := os.CreateTemp(filepath.Dir(r.bin), "case*.json")
	if err != nil {
		return nil, err
	}
	defer os.Remove(f.Name())
	json.NewEncoder(f).Encode(cases)
	f.Close()
	cmd := exec.Command("timeout", "120", r.bin, f.Name())
	out, _ := cmd.Output()
	res := map[int]*replayResult{}
	sc := bufio.NewScanner(strings.NewReader(string(out)))
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		var x replayResult
		if json.Unmarshal(sc.Bytes(), &x) == nil {
			res[x.ID] = &x
		}
	}
	return res, nil
}

type knownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Message  string `json:"message"`
	Text     string `json:"text"`
	Status   string `json:"status"`
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	verif := flag.String("verif", "/verif", "")
	budget := flag.Float64("budget", 0, "seconds for exploration")
	only := flag.String("only", "", "only this harness")
	workers := flag.Int("workers", 0, "")
	replayFile := flag.String("replay", "", "replay one recorded case natively")
	noev := flag.Bool("noevidence", false, "")
	flag.BoolVar(&verbose, "v", false, "")
	flag.Parse()
	start := time.Now()
	debug.SetGCPercent(400)
	if f := os.Getenv("ENGINE_CPUPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if f := os.Getenv("ENGINE_MEMPROF"); f != "" {
		go func() {
			time.Sleep(15 * time.Second)
			w, _ := os.Create(f)
			pprof.Lookup("heap").WriteTo(w, 0)
			w.Close()
		}()
	}
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = v
		}
	}
	if *workers == 0 {
		*workers = min(runtime.NumCPU(), 8)
	}
	die := func(f string, a ...interface{}) {
		fmt.Fprintf(os.Stderr, "ERROR: "+f+"\n", a...)
		os.Exit(2)
	}
	tmp, err := os.MkdirTemp("", "vcheck-")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(tmp)
	hdir := filepath.Join(*verif, "harness")
	// native replay binary and SSA program are both rebuilt from /repo's current tree
	bin := filepath.Join(tmp, "replay")
	var wg sync.WaitGroup
	var berr error
	var bout []byte
	wg.Add(1)
	go func() {
		defer wg.Done()
		c := exec.Command("go", "build", "-o", bin, "./cmd/replay")
		c.Dir = hdir
		c.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "CGO_ENABLED=0", "GOWORK=off")
		bout, berr = c.CombinedOutput()
	}()
	prog, err := LoadProgram(hdir, "./h", "./models", "./sym")
	wg.Wait()
	if err != nil {
		os.RemoveAll(tmp)
		die("loading program: %v", err)
	}
	if berr != nil {
		os.RemoveAll(tmp)
		die("building replay binary: %v\n%s", berr, bout)
	}
	rp := &replayer{bin: bin}
	if *replayFile != "" {
		b, err := os.ReadFile(*replayFile)
		if err != nil {
			die("%v", err)
		}
		var c Case
		if err := json.Unmarshal(b, &c); err != nil {
			die("%v", err)
		}
		res, _ := rp.run([]*Case{&c})
		o, _ := json.MarshalIndent(res[c.ID], "", " ")
		fmt.Println(string(o))
		if r := res[c.ID]; r != nil && confirms(&c, r) {
			os.RemoveAll(tmp)
			os.Exit(1)
		}
		return
	}
	loadS := time.Since(start).Seconds()
	hp := prog.pkgs[harnessMod+"/h"]
	var hs []*ssa.Function
	for name, m := range hp.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(name, "H_"+*prop+"_") {
			if strings.HasSuffix(name, "_T") && *tier != "thorough" {
				continue
			}
			if *only == "" || strings.Contains(name, *only) {
				hs = append(hs, f)
			}
		}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Name() < hs[j].Name() })
	if len(hs) == 0 {
		die("no harness for %s", *prop)
	}
	b := *budget
	if b == 0 {
		b = 400
		if *tier == "thorough" {
			b = 780
		}
	}
	known := loadKnown(filepath.Join(*verif, "known_findings.json"))
	st := &Stats{truncMsgs: map[string]int{}, unsup: map[string]int{}, limits: map[string]int{}, covers: map[string]int{}, assertSites: map[string]int{}}
	ex := &Explorer{prog: prog, prop: *prop, thorough: *tier == "thorough", seed: seed, workers: *workers, stat: st, funcs: map[string]bool{},
		cexCount: map[string]int{}, unconf: map[string]int{}, memLimit: 1_500_000, rng: rand.New(rand.NewSource(seed)), ins: make([]*Interp, *workers)}
	ex.cond = sync.NewCond(&ex.mu)
	debug.SetMemoryLimit(16 << 30)
	go ex.watchMemory(10<<30, 20<<30)
	ex.witMax = 6
	if ex.thorough {
		ex.witMax = 40
	}
	var vmu sync.Mutex
	var violations []*Case
	knownHit := map[string]string{}
	ex.onCex = func(c *Case) bool {
		vmu.Lock()
		defer vmu.Unlock()
		c.ID = 0
		res, err := rp.run([]*Case{c})
		if err != nil || res[0] == nil {
			// the replay process itself died: a fatal error of the real code
			res2, _ := rp.run([]*Case{c})
			if c.Kind == "panic" && res2[0] == nil {
				violations = append(violations, c)
				ex.stop.Store(true)
				return true
			}
			logf("replay gave no result")
			return false
		}
		r := res[0]
		if !confirms(c, r) {
			logf("[%s] not confirmed natively: %s -> %+v", c.Harness, c.Msg, r)
			return false
		}
		for _, k := range known {
			if k.Property == c.Prop && k.Harness == c.Harness && k.Message == c.Msg {
				knownHit[k.Harness+k.Message] = k.Text
				return true
			}
		}
		c.Msg = c.Msg + replayNote(r)
		violations = append(violations, c)
		ex.stop.Store(true)
		ex.cond.Broadcast()
		return true
	}
	var hres []hresult
	endBy := time.Now().Add(time.Duration(b * float64(time.Second)))
	for i, f := range hs {
		left := time.Until(endBy)
		share := left / time.Duration(len(hs)-i)
		if i < len(hs)-1 {
			share = share * 3 / 2
		}
		if share < time.Second {
			share = time.Second
		}
		r := ex.Explore(f, share)
		hres = append(hres, r)
		logf("%s: %d paths, complete=%v, %.1fs, pending %d", r.Name, r.Paths, r.Complete, r.Seconds, r.Left)
		if len(violations) > 0 {
			break
		}
	}
	for w := range ex.ins {
		ex.retire(w)
	}
	// replay sampled path witnesses natively and compare every observation
	validated, mismatch := 0, 0
	var samples []interface{}
	if len(violations) == 0 && len(ex.cases) > 0 {
		for i, c := range ex.cases {
			c.ID = i
		}
		res, _ := rp.run(ex.cases)
		for _, c := range ex.cases {
			r := res[c.ID]
			if r == nil {
				mismatch++
				continue
			}
			ok := r.Panic == "" && !r.Assumed && len(r.Missing) == 0 && strings.Join(r.Obs, "\n") == strings.Join(c.Obs, "\n")
			if !ok {
				mismatch++
				logf("witness mismatch in %s: panic=%q assumed=%v missing=%v", c.Harness, r.Panic, r.Assumed, r.Missing)
				for i := 0; i < len(r.Obs) || i < len(c.Obs); i++ {
					a, b := "", ""
					if i < len(r.Obs) {
						a = r.Obs[i]
					}
					if i < len(c.Obs) {
						b = c.Obs[i]
					}
					if a != b {
						logf("   native %s\n   engine %s", a, b)
					}
				}
			} else {
				validated++
			}
			// a failed assertion on a witness the solver considered fine would be an engine error; if the
			// real code fails it, it is a violation all the same
			if len(r.Failed) > 0 {
				for _, f := range r.Failed {
					if strings.HasPrefix(f, *prop+": ") {
						cc := *c
						cc.Kind, cc.Msg = "cex", strings.TrimPrefix(f, *prop+": ")
						isKnown := false
						for _, k := range known {
							if k.Property == cc.Prop && k.Harness == cc.Harness && k.Message == cc.Msg {
								knownHit[k.Harness+k.Message] = k.Text
								isKnown = true
							}
						}
						if !isKnown {
							violations = append(violations, &cc)
						}
					}
				}
			}
			if len(samples) < 4 && ok {
				samples = append(samples, map[string]interface{}{"harness": c.Harness, "path_decisions": len(c.Dec), "inputs": trimVec(c.Vector), "observations": trimObs(c.Obs)})
			}
		}
	}
	wall := time.Since(start).Seconds()
	complete := true
	for _, r := range hres {
		if !r.Complete {
			complete = false
		}
	}
	if len(hres) < len(hs) {
		complete = false
	}
	var fns []string
	for _, f := range sortedKeys(ex.funcs) {
		fns = append(fns, shortFn(f))
	}
	evid := map[string]interface{}{
		"property": *prop, "tier": *tier, "seed": seed, "level": "model_checking",
		"wall_s":     wall,
		"violations": len(violations),
		"assumptions": []string{
			"ideal cryptography: SHA-256/512 and HMAC collision free and unpredictable, AES a keyed permutation, X25519 commutative with no accidental relations, signatures unforgeable without the key",
			"honest randomness is fresh and unguessable; protobuf wire coding follows the generated struct tags",
			"bounds are those of the harnesses listed under coverage.harnesses (see DESIGN.md)",
		},
		"coverage": map[string]interface{}{
			"states":                        st.paths,
			"transitions":                   st.branches,
			"traces_validated_against_impl": validated,
			"samples":                       samples,
			"exhaustive":                    complete && len(st.unsup) == 0 && len(st.limits) == 0 && len(st.truncMsgs) == 0 && st.unknown == 0,
			"symbolic_paths":                st.paths,
			"infeasible_paths":              st.infeasible,
			"ssa_instructions_executed":     st.steps,
			"assertions_evaluated":          st.asserts,
			"assertions_decided_by_solver":  st.assertQ,
			"assertion_sites":               st.assertSites,
			"cover_points_reached":          st.covers,
			"harnesses":                     hres,
			"functions_encoded":             fns,
			"functions_encoded_count":       len(fns),
			"solver":                        "z3 (QF_BV)",
			"solver_queries":                st.sol.Queries,
			"solver_sat":                    st.sol.SatN,
			"solver_unsat":                  st.sol.UnsatN,
			"solver_unknown":                st.sol.UnknownN,
			"solver_cache_hits":             st.sol.CacheHits,
			"solver_seconds":                st.sol.Time.Seconds(),
			"solver_errors":                 st.sol.Errors,
			"unsupported_paths":             st.unsup,
			"limit_paths":                   st.limits,
			"truncated_concretisations":     st.truncMsgs,
			"witness_mismatches":            mismatch,
			"unconfirmed_counterexamples":   ex.unconf,
			"load_seconds":                  loadS,
		},
	}
	if !*noev {
		os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
		eb, _ := json.MarshalIndent(evid, "", " ")
		if err := os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), append(eb, '\n'), 0o644); err != nil {
			os.RemoveAll(tmp)
			die("evidence: %v", err)
		}
	}
	fmt.Printf("%s %s: %d harnesses, %d paths, %d branch decisions, %d assertions (%d by solver), %d queries, %.1fs solver, %d witnesses validated (%d mismatched), complete=%v, %.1fs\n",
		*prop, *tier, len(hres), st.paths, st.branches, st.asserts, st.assertQ, st.sol.Queries, st.sol.Time.Seconds(), validated, mismatch, complete, wall)
	for _, k := range sortedKeys(st.unsup) {
		fmt.Printf("  not encoded on %d paths: %s\n", st.unsup[k], k)
	}
	for _, k := range sortedKeys(ex.unconf) {
		fmt.Printf("  candidate not confirmed on the real code (%d): %s\n", ex.unconf[k], k)
	}
	for _, k := range sortedKeys(knownHit) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, knownHit[k])
	}
	os.RemoveAll(tmp)
	if len(violations) > 0 {
		dir := filepath.Join(*verif, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		for i, c := range violations {
			if i >= 5 {
				break
			}
			path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", *prop, i))
			cb, _ := json.MarshalIndent(c, "", " ")
			os.WriteFile(path, cb, 0o644)
			fmt.Printf("  %s: %s\n", c.Harness, c.Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		}
		os.Exit(1)
	}
}

func confirms(c *Case, r *replayResult) bool {
	if r.TimedOut {
		return c.Kind == "deadlock"
	}
	if r.Assumed || len(r.Missing) > 0 {
		return false // the run left the path of the vector
	}
	if r.Panic != "" {
		return true
	}
	for _, f := range r.Failed {
		if strings.HasPrefix(f, c.Prop+": ") || strings.HasPrefix(f, ": ") {
			return true
		}
	}
	return false
}

func replayNote(r *replayResult) string {
	if r.TimedOut {
		return " [replayed: did not end in 20 s]"
	}
	if r.Panic != "" {
		return " [replayed: panic " + r.Panic + "]"
	}
	return " [replayed: " + strings.Join(r.Failed, "; ") + "]"
}

func loadKnown(p string) []knownFinding {
	b, err := os.ReadFile(p)
	if err != nil {
		return nil
	}
	var ks []knownFinding
	if json.Unmarshal(b, &ks) != nil {
		return nil
	}
	var out []knownFinding
	for _, k := range ks {
		if k.Status == "known" {
			out = append(out, k)
		}
	}
	return out
}

func trimVec(v map[string]string) map[string]string {
	out := map[string]string{}
	for _, k := range sortedKeys(v) {
		if len(out) >= 24 {
			break
		}
		x := v[k]
		if len(x) > 80 {
			x = x[:80] + "..."
		}
		out[k] = x
	}
	return out
}
func trimObs(o []string) []string {
	var out []string
	for i, x := range o {
		if i >= 12 {
			break
		}
		if len(x) > 120 {
			x = x[:120] + "..."
		}
		out = append(out, x)
	}
	return out
}
