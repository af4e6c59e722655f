package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"time"
)

func main() {
	dir := flag.String("dir", "/verif/harness", "harness module")
	only := flag.String("run", "", "regexp of harness names")
	list := flag.Bool("list", false, "list")
	workers := flag.Int("j", 8, "workers")
	unroll := flag.Int("unroll", 400, "loop bound")
	limit := flag.Int("limit", 300, "seconds per harness")
	thorough := flag.Bool("thorough", false, "larger bounds")
	prop := flag.String("prop", "", "decide this property")
	tier := flag.String("tier", "quick", "quick or thorough")
	budget := flag.Int("budget", 0, "seconds for the whole check")
	overlay := flag.String("overlay", "", "JSON overlay file")
	tags := flag.String("tags", "", "extra build tags")
	filter := flag.String("filter", "", "regexp of harness names (default: those of the property)")
	rep := flag.String("replay", "", "run this recorded counterexample against the real code")
	flag.Parse()
	if *rep != "" {
		self, _ := os.Executable()
		os.Exit((&Checker{verif: filepath.Dir(filepath.Dir(self)), dir: *dir}).replay(*rep))
	}
	if *prop != "" {
		self, _ := os.Executable()
		c := &Checker{prop: *prop, tier: *tier, verif: filepath.Dir(filepath.Dir(self)), dir: *dir, tags: *tags}
		fmt.Sscan(os.Getenv("VERIF_SEED"), &c.seed)
		if *overlay != "" {
			b, err := os.ReadFile(*overlay)
			var o struct{ Replace map[string]string }
			if err == nil {
				err = json.Unmarshal(b, &o)
			}
			if err != nil {
				fmt.Println("overlay:", err)
				os.Exit(2)
			}
			c.overlay = o.Replace
		}
		f := *filter
		if f == "" {
			f = "^" + *prop + "/"
			if *prop == "C19" {
				f = "^C(0[1-9]|1[0-6]|20|21|22)/v3/"
			}
		}
		if *budget == 0 {
			*budget = 600
			if *tier == "thorough" {
				*budget = 5400
			}
		}
		os.Exit(c.run(f, *workers, time.Duration(*budget)*time.Second))
	}
	t0 := time.Now()
	p, err := loadProg(*dir, nil, *tags)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	names, err := listHarnesses(p)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Printf("loaded in %.1fs, %d harnesses\n", time.Since(t0).Seconds(), len(names))
	re := regexp.MustCompile(*only)
	var sel []string
	for _, n := range names {
		if re.MatchString(n) {
			sel = append(sel, n)
		}
	}
	if *list {
		for _, n := range sel {
			fmt.Println(n)
		}
		return
	}
	for _, r := range runAll(p, sel, *workers, *unroll, time.Duration(*limit)*time.Second, *thorough) {
		e := r.E
		fmt.Printf("%-50s %.1fs q=%d hit=%d solver=%.1fs paths=%d merges=%d/%d oblig=%d/%d instr=%d iter=%d traces=%d oneshot=%d lia=%d audit=%v %v\n", r.Name, r.Wall.Seconds(), e.sv.Queries, e.sv.CacheHits, e.sv.Time.Seconds(), e.paths, e.merges, e.mergeFails, e.discharged, e.oblig, e.instrs, e.maxIter, len(r.Traces), e.sv.OneShots, e.liaHits, e.liaAudit, e.rwAudit)
		var ks []string
		for k := range e.incomplete {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println("    INCOMPLETE", k, e.incomplete[k])
		}
		if !e.covers["end"] {
			fmt.Println("    NO END")
		}
		for _, v := range r.Violations {
			fmt.Printf("    VIOL %s [%s] %v vars=%v\n", v.Label, v.Pos, v.Choices, v.Model.Vars)
		}
	}
}
