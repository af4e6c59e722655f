package main

import (
	"fmt"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"golang.org/x/tools/go/packages"
)

const repo = "/repo"

// asNobody makes a command run as an unprivileged user where that is
// possible: the generator writes files, and is the code under test.
func asNobody(cmd *exec.Cmd) {
	if os.Getuid() == 0 {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	}
}

func copyFile(from, to string) error {
	b, err := os.ReadFile(from)
	if err != nil {
		return err
	}
	return os.WriteFile(to, b, 0o644)
}

// buildGenerator compiles /repo/generation into tmp.
func buildGenerator(tmp string) (string, error) {
	for _, f := range []string{"go.mod", "go.sum"} {
		if err := copyFile(filepath.Join(repo, "generation", f), filepath.Join(tmp, "generation."+f[3:])); err != nil {
			return "", err
		}
	}
	bin := filepath.Join(tmp, "generator")
	cmd := exec.Command("go", "build", "-mod=mod", "-modfile="+filepath.Join(tmp, "generation.mod"), "-o", bin, ".")
	cmd.Dir = filepath.Join(repo, "generation")
	cmd.Env = append(goEnv(), "GOWORK=off")
	if out, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("the generator does not build: %v\n%s", err, out)
	}
	os.Chmod(tmp, 0o755)
	return bin, nil
}

// runGenerator runs it over dir, whose files it may change.
func runGenerator(bin, dir string) (string, error) {
	os.Chmod(dir, 0o777)
	cmd := exec.Command(bin, "-generation", "complex", "-directory", dir)
	cmd.Dir = dir
	asNobody(cmd)
	var out strings.Builder
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		cmd = exec.Command(bin, "-generation", "complex", "-directory", dir)
		cmd.Dir = dir
		cmd.Stdout, cmd.Stderr = &out, &out
		if err = cmd.Start(); err != nil {
			return "", err
		}
	}
	t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	return out.String(), err
}

// regenerate runs the generator over copies of v3's templates.  over maps
// the generated files of /repo/v3 to the new ones; problem tells why there
// are none.
func regenerate(tmp string) (over map[string]string, problem string, err error) {
	bin, err := buildGenerator(tmp)
	if err != nil {
		return
	}
	dir := filepath.Join(tmp, "regenerated")
	if err = os.Mkdir(dir, 0o755); err != nil {
		return
	}
	tpl, _ := filepath.Glob(filepath.Join(repo, "v3", "_*.go"))
	for _, f := range tpl {
		if err = copyFile(f, filepath.Join(dir, filepath.Base(f))); err != nil {
			return
		}
	}
	log, e := runGenerator(bin, dir)
	if e != nil {
		return nil, fmt.Sprintf("the generator fails: %v: %s", e, log), nil
	}
	over = map[string]string{}
	gen, _ := filepath.Glob(filepath.Join(dir, "*.generated.go"))
	for _, f := range gen {
		over[filepath.Join(repo, "v3", filepath.Base(f))] = f
	}
	shipped, _ := filepath.Glob(filepath.Join(repo, "v3", "*.generated.go"))
	for _, f := range shipped {
		if over[f] == "" {
			problem = "the generator writes no " + filepath.Base(f) + ": " + log
		}
	}
	return
}

// api lists what package v3 exports.
func api(overlay map[string]string) (map[string]string, []string, error) {
	ov := map[string][]byte{}
	for k, f := range overlay {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, nil, err
		}
		ov[k] = b
	}
	cfg := &packages.Config{Mode: packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps | packages.NeedName | packages.NeedFiles,
		Dir: filepath.Join(repo, "v3"), Overlay: ov, Env: append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=", "GOWORK=off", "CGO_ENABLED=0")}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	for _, e := range pkgs[0].Errors {
		errs = append(errs, e.Error())
	}
	m := map[string]string{}
	if pkgs[0].Types == nil {
		return m, errs, nil
	}
	q := func(p *types.Package) string { return p.Name() }
	sc := pkgs[0].Types.Scope()
	for _, n := range sc.Names() {
		o := sc.Lookup(n)
		if !o.Exported() {
			continue
		}
		m[n] = types.ObjectString(o, q)
		t, ok := o.(*types.TypeName)
		if !ok {
			continue
		}
		if s, ok := t.Type().Underlying().(*types.Struct); ok {
			m[n] = "type " + n + " struct"
			for i := 0; i < s.NumFields(); i++ {
				if f := s.Field(i); f.Exported() {
					m[n+"."+f.Name()] = types.TypeString(f.Type(), q)
				}
			}
		}
		ms := types.NewMethodSet(types.NewPointer(t.Type()))
		for i := 0; i < ms.Len(); i++ {
			if f := ms.At(i).Obj(); f.Exported() {
				s := f.Type().(*types.Signature)
				m[n+"."+f.Name()+"()"] = typesOnly(s, q)
			}
		}
	}
	return m, errs, nil
}

// typesOnly renders a signature without its parameters' names.
func typesOnly(s *types.Signature, q types.Qualifier) string {
	one := func(t *types.Tuple) string {
		var l []string
		for i := 0; i < t.Len(); i++ {
			l = append(l, types.TypeString(t.At(i).Type(), q))
		}
		return "(" + strings.Join(l, ", ") + ")"
	}
	v := ""
	if s.Variadic() {
		v = " variadic"
	}
	return one(s.Params()) + one(s.Results()) + v
}

// compareAPI: what differs between the shipped and the regenerated
// package.
func compareAPI(over map[string]string) (problems []string, err error) {
	a, errs, err := api(nil)
	if err != nil {
		return
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("v3 does not compile: %s", strings.Join(errs, "\n"))
	}
	b, errs, err := api(over)
	if err != nil {
		return
	}
	if len(errs) > 0 {
		return []string{"the regenerated package does not compile: " + strings.Join(errs, "; ")}, nil
	}
	for k, x := range a {
		if y, ok := b[k]; !ok {
			problems = append(problems, "the regenerated package lacks "+k)
		} else if x != y {
			problems = append(problems, fmt.Sprintf("%s is %s in the shipped package and %s in the regenerated one", k, x, y))
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			problems = append(problems, "only the regenerated package has "+k)
		}
	}
	sort.Strings(problems)
	return
}

// regen prepares C19: the overlay under which the harnesses are decided,
// or what is already wrong before that.
func (c *Checker) regen(log io.Writer) (problems []string, err error) {
	over, problem, err := regenerate(c.tmp)
	if err != nil {
		return
	}
	if problem != "" {
		return []string{problem}, nil
	}
	if problems, err = compareAPI(over); err != nil || len(problems) > 0 {
		return
	}
	if c.overlay == nil {
		c.overlay = map[string]string{}
	}
	for k, f := range over {
		c.overlay[k] = f
		fmt.Fprintln(log, "regenerated", filepath.Base(k))
	}
	return
}
