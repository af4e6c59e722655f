package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// nativeCase mirrors sym.Case.
type nativeCase struct {
	Harness string                       `json:"harness"`
	Choices map[string]int64             `json:"choices"`
	Vars    map[string]uint64            `json:"vars"`
	Arrs    map[string]map[string]uint64 `json:"arrs"`
	Sched   string                       `json:"sched,omitempty"`
	Label   string                       `json:"label,omitempty"`
	Kind    string                       `json:"kind,omitempty"`
	Tier    int                          `json:"tier,omitempty"`
}

type nativeRun struct {
	Outcome string   `json:"outcome"`
	Label   string   `json:"label"`
	Obs     []uint64 `json:"obs"`
	ObsName []string `json:"obs_name"`
}

func mkCase(h string, ch map[string]int64, m *Model, tier int) *nativeCase {
	c := &nativeCase{Harness: h, Choices: ch, Vars: map[string]uint64{}, Arrs: map[string]map[string]uint64{}, Tier: tier}
	if m != nil {
		for k, v := range m.Vars {
			c.Vars[k] = v
		}
		for a, t := range m.Arrs {
			x := map[string]uint64{}
			for i, v := range t {
				x[fmt.Sprint(i)] = v
			}
			c.Arrs[a] = x
		}
	}
	return c
}

// Checker decides one property.
type Checker struct {
	prop, tier, verif string
	seed              int
	dir               string // harness module
	overlay           map[string]string
	tmp               string
	bin               string
	buildErr          chan error
	tags              string
	gowork            string // of the instrumented copies, if any
}

func goEnv() []string {
	return append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=", "GOWORK=", "GO111MODULE=")
}

// build compiles the native side of the harnesses against /repo.
func (c *Checker) build() {
	if c.prop == "C23" {
		var err error
		c.bin, err = buildGenerator(c.tmp)
		c.buildErr <- err
		return
	}
	c.bin = filepath.Join(c.tmp, "replay")
	args := []string{"build", "-o", c.bin}
	tags := c.tags
	if c.gowork != "" {
		tags += " verifsched"
	}
	if tags != "" {
		args = append(args, "-tags="+tags)
	}
	if len(c.overlay) > 0 {
		f := filepath.Join(c.tmp, "overlay.json")
		b, _ := json.Marshal(map[string]interface{}{"Replace": c.overlay})
		os.WriteFile(f, b, 0o644)
		args = append(args, "-overlay="+f)
	}
	cmd := exec.Command("go", append(args, "./cmd/replay")...)
	cmd.Dir = c.dir
	cmd.Env = goEnv()
	if c.gowork != "" {
		cmd.Env = append(cmd.Env, "GOWORK="+c.gowork)
	}
	out, err := cmd.CombinedOutput()
	if err != nil {
		err = fmt.Errorf("go build: %v\n%s", err, out)
	}
	c.buildErr <- err
}

// replay runs one recorded counterexample natively.
func (c *Checker) replay(file string) int {
	b, err := os.ReadFile(file)
	var cs nativeCase
	if err == nil {
		err = json.Unmarshal(b, &cs)
	}
	if err == nil {
		c.tmp, err = os.MkdirTemp("", "verif-replay-")
	}
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(c.tmp)
	if strings.Contains(filepath.Base(file), "C19") {
		problems, err := c.regen(os.Stdout)
		if err != nil {
			fmt.Println(err)
			return 2
		}
		for _, x := range problems {
			fmt.Println(x)
		}
		if cs.Kind == "regenerate" || len(problems) > 0 {
			return b2i(len(problems) > 0)
		}
	}
	if strings.HasPrefix(cs.Harness, "C18") {
		p, err := loadProg(c.dir, nil, c.tags)
		if err == nil {
			c.gowork, err = schedWorkspace(p, c.dir, c.tmp)
		}
		if err != nil {
			fmt.Println(err)
			return 2
		}
	}
	c.buildErr = make(chan error, 1)
	if strings.HasPrefix(cs.Harness, "C23") {
		c.prop = "C23"
	}
	c.build()
	if err := <-c.buildErr; err != nil {
		fmt.Println(err)
		return 2
	}
	r := c.native([]*nativeCase{&cs})[0]
	fmt.Printf("%s\nchoices %v vars %v\nagainst the real code: %s %s\n", cs.Harness, cs.Choices, cs.Vars, r.Outcome, r.Label)
	return b2i(bad(r))
}

// native runs cases in one process of their own; a case the process died
// on gets the outcome "crash", and the rest is run in a new process.
func (c *Checker) native(cases []*nativeCase) []nativeRun {
	res := make([]nativeRun, len(cases))
	if c.prop == "C23" {
		for i, x := range cases {
			res[i] = c.nativeGenerator(x)
		}
		return res
	}
	for done := 0; done < len(cases); {
		var in bytes.Buffer
		for _, x := range cases[done:] {
			b, _ := json.Marshal(x)
			in.Write(b)
			in.WriteByte('\n')
		}
		cmd := exec.Command("bash", "-c", "ulimit -v 12000000; exec \"$0\"", c.bin)
		cmd.Stdin = &in
		var errb bytes.Buffer
		cmd.Stderr = &errb
		out, err := cmd.StdoutPipe()
		if err != nil || cmd.Start() != nil {
			for ; done < len(cases); done++ {
				res[done] = nativeRun{Outcome: "error", Label: "cannot run"}
			}
			return res
		}
		lines := make(chan string)
		go func() {
			r := bufio.NewReaderSize(out, 1<<20)
			for {
				l, e := r.ReadString('\n')
				if e != nil {
					close(lines)
					return
				}
				lines <- l
			}
		}()
		for alive := true; alive && done < len(cases); {
			select {
			case l, ok := <-lines:
				if !ok {
					alive = false
					cmd.Wait()
					msg := strings.TrimSpace(errb.String())
					if i := strings.IndexByte(msg, '\n'); i > 0 {
						msg = msg[:i]
					}
					res[done] = nativeRun{Outcome: "crash", Label: msg}
				} else if json.Unmarshal([]byte(l), &res[done]) != nil {
					res[done] = nativeRun{Outcome: "error", Label: "bad output"}
				}
			case <-time.After(40 * time.Second):
				alive = false
				res[done] = nativeRun{Outcome: "hang"}
			}
			if res[done].Outcome == "hang" {
				alive = false
			}
			done++
		}
		cmd.Process.Kill()
		go func() {
			for range lines {
			}
		}()
		cmd.Wait()
	}
	return res
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func bad(r nativeRun) bool {
	switch r.Outcome {
	case "assert", "panic", "hang", "crash":
		return true
	}
	return false
}

type found struct {
	v       *Violation
	c       *nativeCase
	run     nativeRun
	harness string
	known   string
}

// knownFinding is one "known: property=ID match=REGEXP what" line.
type knownFinding struct {
	re   *regexp.Regexp
	what string
	hit  int
}

func loadKnown(path, prop string) (ks []*knownFinding) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 4 || f[0] != "known:" || f[1] != "property="+prop || !strings.HasPrefix(f[2], "match=") {
			continue
		}
		re, err := regexp.Compile(strings.TrimPrefix(f[2], "match="))
		if err != nil {
			continue
		}
		ks = append(ks, &knownFinding{re: re, what: strings.Join(f[3:], " ")})
	}
	return
}

type stats struct {
	harnesses, states, transitions, oblig, discharged, rewritten int
	queries, sat, unsat, unknown, oneshots, cacheHits, lia       int
	auditSteps, auditOK, auditNo                                 int
	solver                                                       time.Duration
	maxIter, merges                                              int
	ends                                                         int
	concurrent, oneBlock                                         int
	encoded                                                      map[string]int
	incomplete                                                   map[string]int
	timeHarness                                                  map[string]float64
}

func (c *Checker) run(filter string, workers int, budget time.Duration) int {
	t0 := time.Now()
	tmp, err := os.MkdirTemp("", "verif-"+c.prop+"-")
	if err != nil {
		fmt.Println("cannot make a scratch directory:", err)
		return 2
	}
	c.tmp = tmp
	if os.Getenv("SYMKEEP") == "" {
		defer os.RemoveAll(tmp)
	}
	c.buildErr = make(chan error, 1)
	if c.prop == "C19" {
		problems, err := c.regen(os.Stdout)
		if err != nil {
			fmt.Println(err)
			return 2
		}
		if len(problems) > 0 {
			var fs []*found
			for _, x := range problems {
				fs = append(fs, &found{v: &Violation{Label: x, Kind: "regenerate"}, harness: "C19/generator", c: &nativeCase{Harness: "C19/generator", Label: x, Kind: "regenerate"}, run: nativeRun{Outcome: "regenerate"}})
			}
			return c.report(t0, &stats{encoded: map[string]int{}, incomplete: map[string]int{}}, fs, nil, nil, 0)
		}
	}
	sched := strings.HasPrefix(c.prop, "C18")
	if !sched {
		go c.build()
	}
	ov := map[string][]byte{}
	for k, f := range c.overlay {
		b, err := os.ReadFile(f)
		if err != nil {
			fmt.Println(err)
			return 2
		}
		ov[k] = b
	}
	var p *Prog
	if c.prop == "C23" {
		p, err = loadGenerator(c.dir, tmp)
	} else {
		p, err = loadProg(c.dir, ov, c.tags)
	}
	if err != nil {
		fmt.Println("the tree does not load:", err)
		if !sched {
			<-c.buildErr
		}
		return 2
	}
	if sched {
		if c.gowork, err = schedWorkspace(p, c.dir, tmp); err != nil {
			fmt.Println(err)
			return 2
		}
		go c.build()
	}
	names, err := listHarnesses(p)
	if err != nil {
		// package initialisation is outside the engine's reach
		fmt.Println("INCONCLUSIVE:", err)
		if e := <-c.buildErr; e != nil {
			fmt.Println(e)
			return 2
		}
		c.evidence(t0, &stats{encoded: map[string]int{}, incomplete: map[string]int{err.Error(): 1}}, nil, nil, 0, nil)
		return 0
	}
	re := regexp.MustCompile(filter)
	var sel []string
	for _, n := range names {
		if re.MatchString(n) {
			sel = append(sel, n)
		}
	}
	if e := <-c.buildErr; e != nil {
		fmt.Println(e)
		return 2
	}
	sort.Slice(sel, func(i, j int) bool {
		return weight(sel[i]) > weight(sel[j]) || weight(sel[i]) == weight(sel[j]) && sel[i] < sel[j]
	})
	thorough := c.tier == "thorough"
	tier := b2i(thorough)
	limit := budget * 2 / 3
	known := loadKnown(filepath.Join(c.verif, "KNOWN_FINDINGS.txt"), c.prop)

	st := &stats{encoded: map[string]int{}, incomplete: map[string]int{}, timeHarness: map[string]float64{}}
	var mu sync.Mutex
	var confirmed, unconfirmed, knownHits []*found
	var traces []*nativeCase
	var traceObs [][]ObsVal
	skipped := 0
	stop := false
	perKnown := map[string]bool{}
	done := make(chan bool)
	defer close(done)
	go func() {
		hard := t0.Add(budget + 100*time.Second)
		for {
			select {
			case <-done:
				return
			case <-time.After(time.Second):
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 12<<30 {
				haltBiggest("out of memory")
			}
			if time.Since(t0) > budget {
				haltAll("time budget of the run used up")
			}
			if time.Now().After(hard) {
				// a solver or a replay does not come back
				mu.Lock()
				st.incomplete["stopped at the end of the time budget"] = 1
				os.Exit(c.report(t0, st, confirmed, knownHits, nil, 0))
			}
		}
	}()
	// A first round gives every harness a little time, so that a few hard
	// ones do not keep the others from being looked at.
	first := 60 * time.Second
	if thorough {
		first = 120 * time.Second
	}
	todo := sel
	if budget > 60*time.Second {
		// the light ones first
		todo = nil
		for i := len(sel) - 1; i >= 0; i-- {
			todo = append(todo, sel[i])
		}
	}
	for round := 0; round < 2 && len(todo) > 0; round++ {
		var again []string
		ch := make(chan string)
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for n := range ch {
					left := budget - time.Since(t0)
					mu.Lock()
					s := stop
					mu.Unlock()
					if s || left < 5*time.Second {
						mu.Lock()
						skipped++
						if !s {
							st.incomplete["time budget of the run used up before "+n] = 1
						}
						mu.Unlock()
						continue
					}
					if left > limit {
						left = limit
					}
					if round == 0 && left > first {
						left = first
					}
					tried := 0
					// confirm natively what the solver finds, a few per harness
					onViol := func(v *Violation) {
						cs := mkCase(n, v.Choices, v.Model, tier)
						cs.Label, cs.Kind, cs.Sched = v.Label, v.Kind, v.Sched
						f := &found{v: v, c: cs, harness: n}
						key := f.harness + "|" + f.v.Label
						for _, k := range known {
							if k.re.MatchString(key) {
								f.known = k.what
							}
						}
						mu.Lock()
						dup := f.known != "" && perKnown[f.known]
						mu.Unlock()
						if dup || f.known == "" && tried >= 6 {
							return
						}
						if f.known == "" {
							tried++
						}
						f.run = c.native([]*nativeCase{f.c})[0]
						mu.Lock()
						defer mu.Unlock()
						switch {
						case !bad(f.run):
							unconfirmed = append(unconfirmed, f)
							st.incomplete[fmt.Sprintf("counterexample does not reproduce (%s): %s: %s", f.run.Outcome, f.harness, f.v.Label)]++
						case f.known != "":
							perKnown[f.known] = true
							knownHits = append(knownHits, f)
						default:
							confirmed = append(confirmed, f)
							if !stop {
								stop = true
								haltAll("stopped after the first confirmed violation")
							}
						}
					}
					r := runOne(p, n, 400, left, thorough, onViol)
					mu.Lock()
					if round == 0 && r.E.incomplete["time limit reached"] > 0 && !stop {
						again = append(again, n)
						mu.Unlock()
						continue
					}
					st.add(r, n)
					for _, t := range r.Traces {
						traces = append(traces, mkCase(n, t.Choices, t.Model, tier))
						traceObs = append(traceObs, t.Obs)
					}
					mu.Unlock()
				}
			}()
		}
		for _, n := range todo {
			ch <- n
		}
		close(ch)
		wg.Wait()
		todo = again
		sort.Slice(todo, func(i, j int) bool {
			return weight(todo[i]) > weight(todo[j]) || weight(todo[i]) == weight(todo[j]) && todo[i] < todo[j]
		})
	}

	// the end states of sample paths, compared with the real code
	validated := 0
	var samples []interface{}
	if len(traces) > 0 {
		parts := make([][]nativeRun, workers)
		var wg sync.WaitGroup
		per := (len(traces) + workers - 1) / workers
		for w := 0; w < workers; w++ {
			lo, hi := w*per, (w+1)*per
			if lo > len(traces) {
				lo = len(traces)
			}
			if hi > len(traces) {
				hi = len(traces)
			}
			wg.Add(1)
			go func(w, lo, hi int) {
				defer wg.Done()
				parts[w] = c.native(traces[lo:hi])
			}(w, lo, hi)
		}
		wg.Wait()
		i := 0
		for _, part := range parts {
			for _, r := range part {
				tc, want := traces[i], traceObs[i]
				i++
				ok := r.Outcome == "ok" && len(r.Obs) == len(want)
				for k := 0; ok && k < len(want); k++ {
					ok = want[k].Name == r.ObsName[k] && want[k].Val == r.Obs[k]
				}
				if ok {
					validated++
					if len(samples) < 4 && i%7 == 1 {
						samples = append(samples, map[string]interface{}{"harness": tc.Harness, "choices": tc.Choices, "vars": tc.Vars, "observed_natively": r.Obs, "names": r.ObsName})
					}
					continue
				}
				if bad(r) {
					// the real code fails where the encoding says it does not
					f := &found{v: &Violation{Harness: tc.Harness, Label: r.Label, Kind: r.Outcome}, c: tc, run: r, harness: tc.Harness}
					isKnown := false
					for _, k := range known {
						if k.re.MatchString(f.harness + "|" + r.Label) {
							isKnown = true
						}
					}
					if !isKnown {
						confirmed = append(confirmed, f)
					}
					continue
				}
				st.incomplete[fmt.Sprintf("trace of %s differs natively (%s)", tc.Harness, r.Outcome)]++
				if os.Getenv("SYMDEBUG") != "" {
					fmt.Println("TRACE", tc.Harness, tc.Choices, tc.Vars, want, r)
				}
			}
		}
	}
	if skipped > 0 && len(confirmed) > 0 {
		st.incomplete[fmt.Sprintf("%d harnesses not run after the first confirmed violation", skipped)] = 1
	}

	return c.report(t0, st, confirmed, knownHits, samples, validated)
}

// report prints the verdict, writes the evidence and gives the exit code.
func (c *Checker) report(t0 time.Time, st *stats, confirmed, knownHits []*found, samples []interface{}, validated int) int {
	seenKnown := map[string]bool{}
	for _, f := range knownHits {
		if !seenKnown[f.known] {
			seenKnown[f.known] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, f.known)
		}
	}
	sort.Slice(confirmed, func(i, j int) bool { return confirmed[i].harness < confirmed[j].harness })
	seen := map[string]bool{}
	shown := 0
	for _, f := range confirmed {
		k := f.harness + f.v.Label
		if seen[k] {
			continue
		}
		seen[k] = true
		if shown >= 10 {
			break
		}
		shown++
		path := c.saveReplay(f, shown)
		fmt.Printf("  %s: %s %s\n    natively: %s %s\n    input: choices %v vars %v\n", f.harness, f.v.Label, f.v.Pos, f.run.Outcome, f.run.Label, f.c.Choices, f.c.Vars)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, path)
	}
	for _, k := range sortedKeys(st.incomplete) {
		fmt.Printf("INCONCLUSIVE: %s (%d)\n", k, st.incomplete[k])
	}
	c.evidence(t0, st, confirmed, samples, validated, sortedKeys2(seenKnown))
	fmt.Printf("%s %s: %d harnesses, %d obligations (%d discharged), %d solver queries, %.1fs solver, %d traces validated, %.1fs\n", c.prop, c.tier, st.harnesses, st.oblig, st.discharged, st.queries, st.solver.Seconds(), validated, time.Since(t0).Seconds())
	if len(confirmed) > 0 {
		return 1
	}
	return 0
}

func sortedKeys(m map[string]int) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}
func sortedKeys2(m map[string]bool) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}

// weight orders harnesses: long ones first.
func weight(n string) int {
	w := 0
	if strings.Contains(n, "Bits/") {
		w = 1
		for i, s := range []string{"17-33", "34-50", "51-64"} {
			if strings.HasSuffix(n, s) {
				w += i + 1
			}
		}
	}
	return w
}

func (s *stats) add(r *Result, n string) {
	e := r.E
	s.harnesses++
	s.states += e.paths
	s.transitions += e.instrs
	s.oblig += e.oblig
	s.discharged += e.discharged
	s.rewritten += e.byRewriting
	s.queries += e.sv.Queries
	s.sat += e.sv.BySat
	s.unsat += e.sv.ByUnsat
	s.unknown += e.sv.Unknowns
	s.oneshots += e.sv.OneShots
	s.cacheHits += e.sv.CacheHits
	s.solver += e.sv.Time
	s.lia += e.liaHits
	s.merges += e.merges
	for _, a := range []Audit{e.liaAudit, e.rwAudit} {
		s.auditSteps += a.Steps
		s.auditOK += a.Confirmed
		s.auditNo += a.NoAnswer
	}
	if e.concMax > 0 {
		s.concurrent++
		if e.concMax == 1 {
			s.oneBlock++
		}
	}
	if e.maxIter > s.maxIter {
		s.maxIter = e.maxIter
	}
	for f, k := range e.encoded {
		s.encoded[f] += k
	}
	for k, v := range e.incomplete {
		s.incomplete[n+": "+k] += v
	}
	if e.covers["end"] {
		s.ends++
	} else if len(r.Violations) == 0 && len(e.incomplete) == 0 {
		s.incomplete[n+": vacuous (no path reaches the end)"]++
	}
	s.timeHarness[n] = r.Wall.Seconds()
}

func (c *Checker) saveReplay(f *found, k int) string {
	d := filepath.Join(c.verif, "replays")
	os.MkdirAll(d, 0o755)
	p := filepath.Join(d, fmt.Sprintf("%s-%d.json", c.prop, k))
	b, _ := json.Marshal(f.c)
	os.WriteFile(p, append(b, '\n'), 0o644)
	return p
}

func (c *Checker) evidence(t0 time.Time, st *stats, viol []*found, samples []interface{}, validated int, known []string) {
	var fns []string
	for f := range st.encoded {
		if strings.Contains(f, "superwhiskers/crunch") {
			fns = append(fns, strings.ReplaceAll(f, "github.com/superwhiskers/", ""))
		}
	}
	sort.Strings(fns)
	for _, f := range viol {
		samples = append(samples, map[string]interface{}{"violation": f.v.Label, "harness": f.harness, "case": f.c, "natively": f.run.Outcome + " " + f.run.Label})
		if len(samples) > 10 {
			break
		}
	}
	if samples == nil {
		samples = []interface{}{}
	}
	inc := sortedKeys(st.incomplete)
	cov := map[string]interface{}{
		"states":                        st.states,
		"transitions":                   st.transitions,
		"traces_validated_against_impl": validated,
		"samples":                       samples,
		"obligations":                   st.oblig,
		"discharged":                    st.discharged,
		"rule":                          "states: symbolic path segments explored; transitions: SSA instructions of the real code and the harnesses executed symbolically; obligations: assertions and end-of-path checks decided for all values of their symbolic inputs",
		"harnesses":                     st.harnesses,
		"harnesses_reaching_their_end":  st.ends,
		"functions_encoded":             fns,
		"bounds":                        bounds(c.prop, c.tier),
		"solver": map[string]interface{}{
			"queries": st.queries, "sat": st.sat, "unsat": st.unsat, "no_answer": st.unknown,
			"one_shot_retries": st.oneshots, "answered_by_a_known_model": st.cacheHits, "seconds": st.solver.Seconds(),
			"engines": "z3 5.3.2 (incremental), z3 and cvc5 1.1.2 (one shot)",
		},
		"front_end": map[string]interface{}{
			"obligations_settled_by_rewriting": st.rewritten, "branches_settled_by_linear_arithmetic": st.lia,
			"steps_eligible_for_confirmation": st.auditSteps, "confirmed_by_smt": st.auditOK, "smt_no_answer": st.auditNo,
			"states_merged": st.merges, "deepest_loop_unrolling": st.maxIter,
		},
		"inconclusive":         inc,
		"known_findings_seen":  known,
		"seconds_per_harness":  top(st.timeHarness, 12),
		"everything_concluded": len(inc) == 0,
	}
	if st.concurrent > 0 {
		cov["interleaving"] = map[string]interface{}{
			"operations_interrupted_at_every_step":    st.concurrent,
			"of_these_one_atomic_block_on_every_path": st.oneBlock,
			"note": "an operation that is one atomic block can be interrupted only before its first look at the buffer, so it is atomic against any number of goroutines and interruptions, not only against the one interruption explored",
		}
	}
	ev := map[string]interface{}{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "model_checking",
		"coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": len(viol),
		"assumptions": []string{
			"go/ssa (golang.org/x/tools) represents the source faithfully; the engine's semantics of its instructions is checked by replaying sample paths natively (traces_validated_against_impl)",
			"symbolic slices have length and capacity up to 2^20; loops over elements are unrolled for the counts listed under bounds",
			"64-bit platform, gc toolchain",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(c.verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(c.verif, "evidence", c.prop+".json"), append(b, '\n'), 0o644)
}

func top(m map[string]float64, n int) map[string]float64 {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return m[ks[i]] > m[ks[j]] })
	if len(ks) > n {
		ks = ks[:n]
	}
	o := map[string]float64{}
	for _, k := range ks {
		o[k] = float64(int(m[k]*100)) / 100
	}
	return o
}
