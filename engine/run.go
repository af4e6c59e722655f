package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Prog struct {
	prog *ssa.Program
	h    *ssa.Package
	pkgs []*packages.Package
	// the generator's program: library calls go to the model in h
	model bool
}

func (p *Prog) engine(unroll int) *Engine {
	e := newEngine(p.prog, unroll)
	if p.model {
		e.model = p.h
	}
	return e
}

func loadProg(dir string, overlay map[string][]byte, tags string) (*Prog, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, BuildFlags: []string{"-tags=symexec," + tags}, Overlay: overlay,
		Env: append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=", "GOWORK=", "CGO_ENABLED=0")}
	pkgs, err := packages.Load(cfg, "./h")
	if err != nil {
		return nil, err
	}
	var errs []string
	var all []*packages.Package
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		all = append(all, p)
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, ps := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	return &Prog{prog: prog, h: ps[0], pkgs: all}, nil
}

type Result struct {
	Name       string
	Err        string
	E          *Engine
	Wall       time.Duration
	Violations []*Violation
	Traces     []Trace
}

// initState runs the package initialisers and returns the start state
// and the registered harnesses.
func (e *Engine) initState(p *Prog) (*State, map[string]Value) {
	st := &State{locks: map[string]*Term{}, names: map[string]int{}}
	save := e.unroll
	e.unroll = 1 << 20
	xs := e.call(p.h.Func("init"), nil, nil, st, -1, "")
	e.unroll = save
	if len(xs) != 1 || xs[0].kind != exReturn {
		panic(unsup("package initialisation does not complete"))
	}
	st = xs[0].st
	for g, id := range e.globals {
		_ = g
		if o, ok := st.heap.get(id); ok {
			e.initH[id] = o
		}
	}
	hs := map[string]Value{}
	g := e.globalPtr(st, p.h.Var("All")).(PtrV)
	s := st.heap.at(g.Obj).(*CellObj).V.(SliceV)
	if s.Obj != 0 {
		arr := st.heap.at(s.Obj).(*CellObj).V.(*ArrayV)
		for i := uint64(0); i < s.Len.C; i++ {
			sv := arr.E[s.Off.C+i].(*StructV)
			hs[sv.F[0].(StrV).S] = sv.F[1]
		}
	}
	return st, hs
}

func listHarnesses(p *Prog) (names []string, err error) {
	e := p.engine(1 << 20)
	e.chosen = map[string]uint64{}
	defer time.AfterFunc(60*time.Second, func() { e.halt("time limit reached") }).Stop()
	defer e.sv.close()
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				err = fmt.Errorf("initialisation: %s", u.msg)
				return
			}
			panic(r)
		}
	}()
	_, hs := e.initState(p)
	for n := range hs {
		names = append(names, n)
	}
	sort.Strings(names)
	return
}

// running engines, for the watchdog
var (
	liveMu sync.Mutex
	live   = map[*Engine]bool{}
)

func haltAll(why string) {
	liveMu.Lock()
	for e := range live {
		e.halt(why)
	}
	liveMu.Unlock()
}

func haltBiggest(why string) {
	liveMu.Lock()
	var big *Engine
	for e := range live {
		if big == nil || e.tb.size.Load() > big.tb.size.Load() {
			big = e
		}
	}
	if big != nil {
		big.halt(why)
	}
	liveMu.Unlock()
}

func runOne(p *Prog, name string, unroll int, limit time.Duration, thorough bool, onViol func(*Violation)) (res *Result) {
	e := p.engine(unroll)
	if thorough {
		e.sv.oneShotMs = 300000
		e.sv.timeout = 10000
		e.maxTraces = 6
	}
	e.harness = name
	e.thorough = thorough
	e.onViol = onViol
	res = &Result{Name: name, E: e}
	t0 := time.Now()
	timer := time.AfterFunc(limit, func() { e.halt("time limit reached") })
	liveMu.Lock()
	live[e] = true
	liveMu.Unlock()
	guard := func(f func()) {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupported); ok {
					e.inc("%s", u.msg)
				} else {
					e.inc("engine error: %v", r)
					if os.Getenv("SYMDEBUG") != "" {
						panic(r)
					}
				}
			}
		}()
		f()
	}
	defer func() {
		timer.Stop()
		liveMu.Lock()
		delete(live, e)
		liveMu.Unlock()
		if e.sv.err != nil {
			e.inc("solver: %v", e.sv.err)
		}
		e.sv.close()
		if e.au != nil {
			e.au.close()
			e.sv.Queries += e.au.Queries
			e.sv.Time += e.au.Time
			e.sv.ByUnsat += e.au.ByUnsat
			if e.au.err != nil {
				e.inc("solver: %v", e.au.err)
			}
		}
		res.Wall = time.Since(t0)
		res.Violations = e.violations
		res.Traces = e.traces
		// drop the big tables
		e.rmemo, e.fns, e.initH, e.lia, e.pending = nil, nil, nil, nil, nil
		e.tb = newTB()
		e.sv.models, e.sv.tb = nil, nil
	}()
	guard(func() {
		st0, hs := e.initState(p)
		e.encoded = map[string]int{}
		e.instrs, e.paths, e.merges, e.maxIter = 0, 0, 0, 0
		f, ok := hs[name]
		if !ok {
			panic(unsup("no harness %s", name))
		}
		st0.locks = map[string]*Term{}
		st0.heap.freeze()
		// one run per combination of alternatives (sym.Choose), in
		// lexicographic order
		e.pending = []map[string]uint64{{}}
		for len(e.pending) > 0 && e.tb.stop.Load() == nil {
			k := len(e.pending) - 1
			e.chosen, e.pending = e.pending[k], e.pending[:k]
			e.runs++
			e.paths++
			e.depth = 0
			e.lia, e.rmemo = map[*PC]*liaCtx{}, map[readKey]*Term{}
			guard(func() { e.finish(e.callValue(f, nil, nil, st0.fork(), -1)) })
		}
		if len(e.pending) > 0 {
			e.inc("%s", *e.tb.stop.Load())
		}
	})
	return
}

func runAll(p *Prog, names []string, workers, unroll int, limit time.Duration, thorough bool) []*Result {
	out := make([]*Result, len(names))
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				out[i] = runOne(p, names[i], unroll, limit, thorough, nil)
			}
		}()
	}
	for i := range names {
		ch <- i
	}
	close(ch)
	wg.Wait()
	return out
}
