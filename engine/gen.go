package main

import (
	"crypto/sha256"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"

	"go/types"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Property C23: the generator's main, executed symbolically on top of the
// file system of harness/gen/model.go.

func loadGenerator(harness, tmp string) (*Prog, error) {
	work := filepath.Join(tmp, "gen.work")
	src := filepath.Join(repo, "generation")
	os.WriteFile(work, []byte(fmt.Sprintf("go 1.26.0\n\nuse (\n\t%s\n\t%s\n)\n", harness, src)), 0o644)
	model, err := os.ReadFile(filepath.Join(harness, "gen", "model.go"))
	if err != nil {
		return nil, err
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: src, BuildFlags: []string{"-tags=symexec"},
		Overlay: map[string][]byte{filepath.Join(src, "verif_model.go"): model},
		Env:     append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=", "GOWORK="+work, "CGO_ENABLED=0")}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, ps := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	return &Prog{prog: prog, h: ps[0], pkgs: pkgs, model: true}, nil
}

// modelled finds the replacement of a library function.
func (e *Engine) modelled(pkg, recv, name string) *ssa.Function {
	if e.model == nil || pkg == e.model.Pkg.Path() {
		return nil
	}
	n := "verif_" + strings.ReplaceAll(pkg, "/", "_") + "_"
	if recv != "" {
		n += recv + "_"
	}
	return e.model.Func(n + name)
}

// pure functions evaluated when all their arguments are concrete
var pure = map[string]interface{}{
	"strings.Join": strings.Join, "strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix,
	"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.Contains": strings.Contains,
	"strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll, "strings.Index": strings.Index,
	"strings.LastIndex": strings.LastIndex, "strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper,
	"strings.TrimSpace": strings.TrimSpace, "strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft,
	"strings.TrimRight": strings.TrimRight, "strings.Repeat": strings.Repeat, "strings.EqualFold": strings.EqualFold,
	"strings.Count": strings.Count, "path/filepath.Ext": filepath.Ext, "path/filepath.Base": filepath.Base, "path/filepath.Dir": filepath.Dir,
	"path/filepath.Join": filepath.Join, "path/filepath.Clean": path.Clean, "path.Ext": path.Ext, "path.Base": path.Base,
	"path.Dir": path.Dir, "path.Join": path.Join, "path.Clean": path.Clean, "path/filepath.IsAbs": filepath.IsAbs,
	"strings.IndexByte": strings.IndexByte, "strings.LastIndexByte": strings.LastIndexByte, "strings.ContainsAny": strings.ContainsAny,
	"strings.IndexAny": strings.IndexAny, "strings.Title": strings.Title, "strings.Compare": strings.Compare, "strings.ContainsRune": strings.ContainsRune,
	"strings.Split": strings.Split, "strings.SplitN": strings.SplitN, "strings.SplitAfter": strings.SplitAfter, "strings.Fields": strings.Fields,
	"strings.Cut": strings.Cut, "strings.CutPrefix": strings.CutPrefix, "strings.CutSuffix": strings.CutSuffix,
	"path/filepath.FromSlash": filepath.FromSlash, "path/filepath.ToSlash": filepath.ToSlash, "path/filepath.Split": filepath.Split,
	"path/filepath.Rel": filepath.Rel, "path/filepath.Match": filepath.Match, "path.Match": path.Match, "strconv.Atoi": strconv.Atoi,
	"path/filepath.VolumeName": filepath.VolumeName,
	"strconv.Itoa":             strconv.Itoa, "strconv.Quote": strconv.Quote,
	"verif_path_filepath_Clean": path.Clean,
}

func (e *Engine) evalPure(f interface{}, args []Value, st *State) ([]Value, bool) {
	fv := reflect.ValueOf(f)
	var in []reflect.Value
	for i, a := range args {
		t := fv.Type().In(i)
		switch t.Kind() {
		case reflect.String:
			s, ok := a.(StrV)
			if !ok || s.Opaque {
				return nil, false
			}
			in = append(in, reflect.ValueOf(s.S))
		case reflect.Int:
			x, ok := a.(*Term)
			if !ok || !isC(x) {
				return nil, false
			}
			in = append(in, reflect.ValueOf(int(x.C)))
		case reflect.Uint8, reflect.Int32:
			x, ok := a.(*Term)
			if !ok || !isC(x) {
				return nil, false
			}
			if t.Kind() == reflect.Uint8 {
				in = append(in, reflect.ValueOf(byte(x.C)))
			} else {
				in = append(in, reflect.ValueOf(rune(x.C)))
			}
		case reflect.Slice:
			s, ok := a.(SliceV)
			if !ok || !isC(s.Len) || !isC(s.Off) {
				return nil, false
			}
			var l []string
			if s.Obj != 0 && s.Len.C > 0 {
				c, ok := st.heap.at(s.Obj).(*CellObj)
				if !ok {
					return nil, false
				}
				arr, ok := c.V.(*ArrayV)
				if !ok {
					return nil, false
				}
				for k := uint64(0); k < s.Len.C; k++ {
					x, ok := arr.E[s.Off.C+k].(StrV)
					if !ok || x.Opaque {
						return nil, false
					}
					l = append(l, x.S)
				}
			}
			in = append(in, reflect.ValueOf(l))
		default:
			return nil, false
		}
	}
	var out []reflect.Value
	if fv.Type().IsVariadic() {
		out = fv.CallSlice(in)
	} else {
		out = fv.Call(in)
	}
	var res []Value
	for _, o := range out {
		switch o.Kind() {
		case reflect.String:
			res = append(res, StrV{S: o.String()})
		case reflect.Int:
			res = append(res, e.tb.Const(64, uint64(o.Int())))
		case reflect.Bool:
			res = append(res, e.tb.Bool(o.Bool()))
		case reflect.Slice:
			arr := &ArrayV{}
			for k := 0; k < o.Len(); k++ {
				arr.E = append(arr.E, StrV{S: o.Index(k).String()})
			}
			n := e.tb.Const(64, uint64(o.Len()))
			res = append(res, SliceV{e.alloc(st, &CellObj{V: arr}), e.tb.Const(64, 0), n, n})
		case reflect.Interface:
			if !o.IsNil() {
				return nil, false
			}
			res = append(res, IfaceV{})
		}
	}
	return res, true
}

// genIntrinsic is consulted before a function of the generator's program
// is executed.
func (e *Engine) genIntrinsic(fn *ssa.Function, pkg, recv, name string, args []Value, st *State, pos string) ([]Exit, bool) {
	if pkg == e.model.Pkg.Path() {
		switch name {
		case "verifOf":
			iv, ok := args[0].(IfaceV)
			if !ok || iv.T == nil {
				return ret(st, PtrV{}), true
			}
			if p, ok := iv.T.(*types.Pointer); ok {
				if n, ok := p.Elem().(*types.Named); ok && n.Obj().Name() == "File" && n.Obj().Pkg().Path() == "os" {
					return ret(st, iv.V), true
				}
			}
			return ret(st, PtrV{}), true
		}
	}
	key := pkg + "." + name
	if pkg == e.model.Pkg.Path() {
		key = name
	}
	if f, ok := pure[key]; ok && recv == "" {
		if vs, ok := e.evalPure(f, args, st); ok {
			return ret(st, vs...), true
		}
	}
	if m := e.modelled(pkg, recv, name); m != nil {
		return e.execFunc(m, args, nil, st, -1), true
	}
	return nil, false
}

// nativeGenerator runs the real generator on the files of a model.
func (c *Checker) nativeGenerator(cs *nativeCase) nativeRun {
	d, err := os.MkdirTemp(c.tmp, "case")
	if err != nil {
		return nativeRun{Outcome: "error", Label: err.Error()}
	}
	defer os.RemoveAll(d)
	os.Chmod(d, 0o755)
	for _, x := range []string{"fresh", "used"} {
		os.Mkdir(filepath.Join(d, x), 0o755)
	}
	content := func(arr, lenVar string) []byte {
		b := make([]byte, cs.Vars[lenVar+":20"])
		for i := range b {
			b[i] = byte(cs.Arrs[arr+":8"][strconv.Itoa(i)])
		}
		return b
	}
	put := func(dir, name string, b []byte) {
		p := filepath.Join(d, dir, name)
		os.WriteFile(p, b, 0o666)
		os.Chmod(p, 0o666)
	}
	names := []string{"a_go"}
	if strings.Contains(cs.Harness, "/two-") {
		names = append(names, "b.log")
	}
	for _, x := range names {
		t := content("T"+x, "template-"+x)
		for _, dir := range []string{"fresh", "used"} {
			put(dir, "_"+x+".go", t)
		}
		if cs.Choices["exists-"+x] == 1 {
			put("used", x+".generated.go", content("G"+x, "before-"+x))
		}
	}
	if cs.Choices["subdirectory"] == 1 {
		os.Mkdir(filepath.Join(d, "used", "_sub.go"), 0o755)
	}
	for _, dir := range []string{"fresh", "used"} {
		if out, err := runGenerator(c.bin, filepath.Join(d, dir)); err != nil {
			return nativeRun{Outcome: "panic", Label: fmt.Sprintf("%v: %s", err, out)}
		}
	}
	sum := func(dir, name string) string {
		b, err := os.ReadFile(filepath.Join(d, dir, name))
		if err != nil {
			return err.Error()
		}
		return fmt.Sprintf("%d bytes %x", len(b), sha256.Sum256(b))
	}
	for _, x := range names {
		f, u := sum("fresh", x+".generated.go"), sum("used", x+".generated.go")
		if f != u {
			return nativeRun{Outcome: "assert", Label: fmt.Sprintf("%s.generated.go: %s instead of %s", x, u, f)}
		}
		if _, err := os.Stat(filepath.Join(d, "fresh", x+".generated.go")); err != nil {
			return nativeRun{Outcome: "assert", Label: "no output file " + x + ".generated.go"}
		}
		b, _ := os.ReadFile(filepath.Join(d, "fresh", x+".generated.go"))
		if string(b) != string(content("T"+x, "template-"+x)) {
			return nativeRun{Outcome: "assert", Label: "a template without directives is not copied"}
		}
		if b, _ := os.ReadFile(filepath.Join(d, "used", "_"+x+".go")); string(b) != string(content("T"+x, "template-"+x)) {
			return nativeRun{Outcome: "assert", Label: "the template changed"}
		}
	}
	return nativeRun{Outcome: "ok"}
}
