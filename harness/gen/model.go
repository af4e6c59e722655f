//go:build symexec

// This file is overlaid into /repo/generation when property C23 is
// decided: a file system, the functions of the standard library the
// generator reaches it through (verif_PKG_FUNC, verif_PKG_TYPE_METHOD
// replace PKG.FUNC and the methods of *PKG.TYPE), and the harnesses.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"time"

	"verif/harness/sym"
)

var All []sym.H

func init() {
	All = []sym.H{
		{Name: "C23/one-template", F: func() { verifHarness(1) }},
		{Name: "C23/two-templates", F: func() { verifHarness(2) }},
		{Name: "C23/one-small", F: func() { verifMost = 8; verifHarness(1) }},
		{Name: "C23/one-tiny", F: func() { verifMost = 2; verifHarness(1) }},
		{Name: "C23/two-small", F: func() { verifMost = 3; verifHarness(2) }},
	}
}

const verifDir = "/d"

// verifNode is a file.
type verifNode struct {
	name string
	data []byte
	dir  bool
}

type verifHandle struct {
	n    *verifNode
	pos  int64
	flag int
	shut bool
	list int
}

var (
	verifFS     []*verifNode
	verifCwd    = "/w"
	verifTemps  int
	errNotExist = errors.New("file does not exist")
	errExist    = errors.New("file exists")
	errInvalid  = errors.New("invalid argument")
	errClosed   = errors.New("file already closed")
)

func verifPath(name string) string {
	if !strings.HasPrefix(name, "/") {
		name = verifCwd + "/" + name
	}
	return verif_path_filepath_Clean(name)
}

func verifFind(name string) *verifNode {
	p := verifPath(name)
	for _, n := range verifFS {
		if n.name == p {
			return n
		}
	}
	return nil
}

func verifAdd(name string, data []byte) *verifNode {
	n := &verifNode{name: verifPath(name), data: data}
	verifFS = append(verifFS, n)
	return n
}

// engine primitives

// verifOf gives the pointer inside an interface value.
func verifOf(x interface{}) *verifHandle { panic(0) }

func verif_path_filepath_Clean(name string) string { panic(0) }

func verif_os_Getwd() (string, error) { return verifCwd, nil }

func verif_os_Chdir(dir string) error { verifCwd = verifPath(dir); return nil }

func verif_path_filepath_Abs(name string) (string, error) { return verifPath(name), nil }

func verif_os_OpenFile(name string, flag int, perm os.FileMode) (*verifHandle, error) {
	n := verifFind(name)
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, errNotExist
		}
		n = verifAdd(name, nil)
	} else if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, errExist
	}
	if flag&os.O_TRUNC != 0 && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		n.data = nil
	}
	return &verifHandle{n: n, flag: flag}, nil
}

func verif_os_Open(name string) (*verifHandle, error) {
	return verif_os_OpenFile(name, os.O_RDONLY, 0)
}

func verif_os_Create(name string) (*verifHandle, error) {
	return verif_os_OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func verif_os_CreateTemp(dir, pattern string) (*verifHandle, error) {
	verifTemps++
	if dir == "" {
		dir = "/tmp"
	}
	s := []string{"", "1", "2", "3", "4"}[verifTemps]
	if strings.Contains(pattern, "*") {
		pattern = strings.Replace(pattern, "*", s, 1)
	} else {
		pattern += s
	}
	return verif_os_OpenFile(dir+"/"+pattern, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

func verif_io_ioutil_TempFile(dir, pattern string) (*verifHandle, error) {
	return verif_os_CreateTemp(dir, pattern)
}

func (h *verifHandle) writable() bool { return h.flag&(os.O_WRONLY|os.O_RDWR) != 0 }

func verifPut(n *verifNode, b []byte, at int64) {
	end := at + int64(len(b))
	if len(b) == 0 {
		return
	}
	if end > int64(len(n.data)) {
		d := make([]byte, end)
		copy(d, n.data)
		n.data = d
	} else {
		// the file's bytes are nobody's slice
		d := make([]byte, len(n.data))
		copy(d, n.data)
		n.data = d
	}
	copy(n.data[at:], b)
}

func verif_os_File_Write(h *verifHandle, b []byte) (int, error) {
	if h.shut {
		return 0, errClosed
	}
	if !h.writable() {
		return 0, errInvalid
	}
	if h.flag&os.O_APPEND != 0 {
		h.pos = int64(len(h.n.data))
	}
	verifPut(h.n, b, h.pos)
	h.pos += int64(len(b))
	return len(b), nil
}

func verif_os_File_WriteAt(h *verifHandle, b []byte, off int64) (int, error) {
	if h.shut {
		return 0, errClosed
	}
	if !h.writable() || off < 0 || h.flag&os.O_APPEND != 0 {
		return 0, errInvalid
	}
	verifPut(h.n, b, off)
	return len(b), nil
}

func verifCut(n *verifNode, size int64) error {
	if size < 0 {
		return errInvalid
	}
	d := make([]byte, size)
	copy(d, n.data)
	n.data = d
	return nil
}

func verif_os_File_Truncate(h *verifHandle, size int64) error {
	if h.shut {
		return errClosed
	}
	if !h.writable() {
		return errInvalid
	}
	return verifCut(h.n, size)
}

func verif_os_Truncate(name string, size int64) error {
	n := verifFind(name)
	if n == nil {
		return errNotExist
	}
	return verifCut(n, size)
}

func verif_os_File_Seek(h *verifHandle, off int64, whence int) (int64, error) {
	switch whence {
	case 1:
		off += h.pos
	case 2:
		off += int64(len(h.n.data))
	}
	if off < 0 {
		return 0, errInvalid
	}
	h.pos = off
	return off, nil
}

func verif_os_File_Read(h *verifHandle, b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if h.pos >= int64(len(h.n.data)) {
		return 0, io.EOF
	}
	k := copy(b, h.n.data[h.pos:])
	h.pos += int64(k)
	return k, nil
}

func verif_os_File_Sync(h *verifHandle) error                 { return nil }
func verif_os_File_Chmod(h *verifHandle, m os.FileMode) error { return nil }
func verif_os_Chmod(name string, m os.FileMode) error         { return nil }
func verif_os_MkdirAll(name string, perm os.FileMode) error   { return nil }
func verif_os_File_Name(h *verifHandle) string                { return h.n.name }
func verif_os_File_Chdir(h *verifHandle) error                { verifCwd = h.n.name; return nil }
func verif_os_File_Stat(h *verifHandle) (os.FileInfo, error)  { return verifInfo{h.n}, nil }
func verif_os_IsNotExist(err error) bool                      { return err == errNotExist }
func verif_os_IsExist(err error) bool                         { return err == errExist }
func verif_os_Lstat(name string) (os.FileInfo, error)         { return verif_os_Stat(name) }
func verif_io_ioutil_ReadFile(name string) ([]byte, error)    { return verif_os_ReadFile(name) }
func verif_io_ReadAll(r io.Reader) ([]byte, error)            { return verifAll(r) }
func verif_io_ioutil_ReadAll(r io.Reader) ([]byte, error)     { return verifAll(r) }

func verif_os_File_Close(h *verifHandle) error {
	if h.shut {
		return errClosed
	}
	h.shut = true
	return nil
}

func verifReadAll(h *verifHandle) ([]byte, error) {
	d := make([]byte, int64(len(h.n.data))-h.pos)
	copy(d, h.n.data[h.pos:])
	h.pos = int64(len(h.n.data))
	return d, nil
}

// verifAll reads everything from r.
func verifAll(r io.Reader) ([]byte, error) {
	if h := verifOf(r); h != nil {
		return verifReadAll(h)
	}
	d := make([]byte, sym.MaxLen)
	n := 0
	for {
		k, err := r.Read(d[n:])
		n += k
		if err == io.EOF {
			return d[:n], nil
		}
		if err != nil {
			return d[:n], err
		}
	}
}

func verif_os_File_WriteTo(h *verifHandle, w io.Writer) (int64, error) {
	d, err := verifReadAll(h)
	if err != nil || len(d) == 0 {
		return 0, err
	}
	k, err := w.Write(d)
	return int64(k), err
}

func verif_os_File_ReadFrom(h *verifHandle, r io.Reader) (int64, error) {
	d, err := verifAll(r)
	if err != nil || len(d) == 0 {
		return 0, err
	}
	k, err := verif_os_File_Write(h, d)
	return int64(k), err
}

func verif_io_Copy(w io.Writer, r io.Reader) (int64, error) {
	d, err := verifAll(r)
	if err != nil || len(d) == 0 {
		return 0, err
	}
	k, err := w.Write(d)
	return int64(k), err
}

func verif_os_File_WriteString(h *verifHandle, s string) (int, error) {
	return verif_os_File_Write(h, []byte(s))
}

func verif_os_ReadFile(name string) ([]byte, error) {
	n := verifFind(name)
	if n == nil {
		return nil, errNotExist
	}
	d := make([]byte, len(n.data))
	copy(d, n.data)
	return d, nil
}

func verif_os_WriteFile(name string, b []byte, perm os.FileMode) error {
	h, err := verif_os_OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = verif_os_File_Write(h, b)
	return err
}

func verif_io_ioutil_WriteFile(name string, b []byte, perm os.FileMode) error {
	return verif_os_WriteFile(name, b, perm)
}

func verif_os_Remove(name string) error {
	n := verifFind(name)
	if n == nil {
		return errNotExist
	}
	var left []*verifNode
	for _, x := range verifFS {
		if x != n {
			left = append(left, x)
		}
	}
	verifFS = left
	return nil
}

func verif_os_Rename(from, to string) error {
	n := verifFind(from)
	if n == nil {
		return errNotExist
	}
	if n.name == verifPath(to) {
		return nil
	}
	_ = verif_os_Remove(to)
	n.name = verifPath(to)
	return nil
}

func verif_os_Stat(name string) (os.FileInfo, error) {
	n := verifFind(name)
	if n == nil {
		return nil, errNotExist
	}
	return verifInfo{n}, nil
}

// verifInfo is both an os.FileInfo and an os.DirEntry.
type verifInfo struct{ n *verifNode }

func (i verifInfo) Name() string               { return i.n.name[strings.LastIndex(i.n.name, "/")+1:] }
func (i verifInfo) Size() int64                { return int64(len(i.n.data)) }
func (i verifInfo) IsDir() bool                { return i.n.dir }
func (i verifInfo) Sys() interface{}           { return nil }
func (i verifInfo) ModTime() (t time.Time)     { return }
func (i verifInfo) Type() os.FileMode          { return i.Mode() & os.ModeType }
func (i verifInfo) Info() (os.FileInfo, error) { return i, nil }
func (i verifInfo) Mode() os.FileMode {
	if i.n.dir {
		return os.ModeDir | 0755
	}
	return 0644
}

func verifIn(n *verifNode, dir string) bool {
	return strings.HasPrefix(n.name, dir+"/") && !strings.Contains(n.name[len(dir)+1:], "/")
}

func verif_os_File_Readdir(h *verifHandle, k int) (l []os.FileInfo, err error) {
	for _, n := range verifFS {
		if verifIn(n, h.n.name) {
			l = append(l, verifInfo{n})
		}
	}
	return
}

func verif_os_File_ReadDir(h *verifHandle, k int) ([]os.DirEntry, error) {
	return verif_os_ReadDir(h.n.name)
}

func verif_os_File_Readdirnames(h *verifHandle, k int) (l []string, err error) {
	for _, n := range verifFS {
		if verifIn(n, h.n.name) {
			l = append(l, verifInfo{n}.Name())
		}
	}
	return
}

func verif_os_ReadDir(name string) (l []os.DirEntry, err error) {
	d := verifFind(name)
	if d == nil {
		return nil, errNotExist
	}
	for _, n := range verifFS {
		if verifIn(n, d.name) {
			l = append(l, verifInfo{n})
		}
	}
	return
}

func verif_io_ioutil_ReadDir(name string) (l []os.FileInfo, err error) {
	d := verifFind(name)
	if d == nil {
		return nil, errNotExist
	}
	for _, n := range verifFS {
		if verifIn(n, d.name) {
			l = append(l, verifInfo{n})
		}
	}
	return
}

// Comparisons of whole slices.  Those found equal are noted; the harness
// adds their equality at the index it looks at.

var verifSame [][2][]byte

func verif_bytes_Equal(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	if len(a) == 0 {
		return true
	}
	if len(a) <= 16 {
		d := byte(0)
		for i := range a {
			d |= a[i] ^ b[i]
		}
		return d == 0
	}
	if sym.Bool("equal") {
		verifSame = append(verifSame, [2][]byte{sym.Snapshot(a), sym.Snapshot(b)})
		return true
	}
	k := sym.Int("differ")
	sym.Assume(k >= 0)
	sym.Assume(k < len(a))
	sym.Assume(a[k] != b[k])
	return false
}

func verif_bytes_HasPrefix(a, p []byte) bool {
	return len(a) >= len(p) && verif_bytes_Equal(a[:len(p)], p)
}

func verif_bytes_HasSuffix(a, p []byte) bool {
	return len(a) >= len(p) && verif_bytes_Equal(a[len(a)-len(p):], p)
}

func verif_bytes_Compare(a, b []byte) int {
	if verif_bytes_Equal(a, b) {
		return 0
	}
	if sym.Bool("less") {
		return -1
	}
	return 1
}

func verif_bytes_Buffer_ReadFrom(b *bytes.Buffer, r io.Reader) (int64, error) {
	d, err := verifReadAll(verifOf(r))
	if err != nil {
		return 0, err
	}
	k, err := b.Write(d)
	return int64(k), err
}

// The rest of the library.

var (
	verif_os_Stdin, verif_os_Stdout, verif_os_Stderr       = &verifHandle{}, &verifHandle{}, &verifHandle{}
	verif_os_ErrNotExist, verif_io_fs_ErrNotExist          = errNotExist, errNotExist
	verif_os_ErrExist, verif_io_fs_ErrExist                = errExist, errExist
	verif_path_filepath_SkipDir, verif_io_fs_SkipDir       = errSkipDir, errSkipDir
	verif_path_filepath_SkipAll, verif_io_fs_SkipAll       = errSkipAll, errSkipAll
	verif_path_filepath_ErrBadPattern, verif_os_ErrInvalid = errInvalid, errInvalid
	verif_os_Args                                          = []string{"generation", "-directory=" + verifDir, "-generation=complex"}
	errSkipDir, errSkipAll                                 = errors.New("skip this directory"), errors.New("skip everything and stop the walk")
)

func verif_errors_Is(err, target error) bool { return err == target }

// verifExit is the panic that stands for the end of the process.
type verifExit struct{}

func verif_os_Exit(int)                       { panic(verifExit{}) }
func verif_log_Fatal(...interface{})          { panic(verifExit{}) }
func verif_log_Fatalln(...interface{})        { panic(verifExit{}) }
func verif_log_Fatalf(string, ...interface{}) { panic(verifExit{}) }
func verif_log_Print(...interface{})          {}
func verif_log_Println(...interface{})        {}
func verif_log_Printf(string, ...interface{}) {}
func verif_log_SetFlags(int)                  {}
func verif_log_SetPrefix(string)              {}

func verifStd(w io.Writer) bool {
	h := verifOf(w)
	return h != nil && (h == verif_os_Stdout || h == verif_os_Stderr)
}

func verif_fmt_Fprintf(w io.Writer, f string, a ...interface{}) (int, error) {
	if verifStd(w) {
		return 0, nil
	}
	return w.Write([]byte(fmt.Sprintf(f, a...)))
}

func verif_fmt_Fprint(w io.Writer, a ...interface{}) (int, error) {
	if verifStd(w) {
		return 0, nil
	}
	return w.Write([]byte(fmt.Sprint(a...)))
}

func verif_fmt_Fprintln(w io.Writer, a ...interface{}) (int, error) {
	if verifStd(w) {
		return 0, nil
	}
	return w.Write([]byte(fmt.Sprintln(a...)))
}

func verif_path_filepath_Glob(pattern string) (l []string, err error) {
	dir := filepath.Dir(pattern)
	for _, n := range verifFS {
		if !verifIn(n, verifPath(dir)) {
			continue
		}
		base := verifInfo{n}.Name()
		if ok, _ := filepath.Match(filepath.Base(pattern), base); ok {
			if dir == "." && !strings.HasPrefix(pattern, ".") {
				l = append(l, base)
			} else {
				l = append(l, filepath.Join(dir, base))
			}
		}
	}
	return
}

func verif_path_filepath_WalkDir(root string, f func(string, os.DirEntry, error) error) error {
	d := verifFind(root)
	if d == nil {
		return f(root, nil, errNotExist)
	}
	err := f(root, verifInfo{d}, nil)
	if err == errSkipDir || err == errSkipAll {
		return nil
	}
	if err != nil || !d.dir {
		return err
	}
	for _, n := range verifFS {
		if !verifIn(n, d.name) {
			continue
		}
		if err := f(filepath.Join(root, verifInfo{n}.Name()), verifInfo{n}, nil); err != nil {
			if err == errSkipAll || err == errSkipDir && !n.dir {
				return nil
			}
			if err != errSkipDir {
				return err
			}
		}
	}
	return nil
}

func verif_path_filepath_Walk(root string, f func(string, os.FileInfo, error) error) error {
	return verif_path_filepath_WalkDir(root, func(p string, d os.DirEntry, err error) error {
		if d == nil {
			return f(p, nil, err)
		}
		return f(p, d.(verifInfo), err)
	})
}

func verif_sort_Strings(x []string) {
	for i := 1; i < len(x); i++ {
		for j := i; j > 0 && x[j] < x[j-1]; j-- {
			x[j], x[j-1] = x[j-1], x[j]
		}
	}
}

func verif_internal_bytealg_IndexByteString(s string, c byte) int {
	r := -1
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			r = i
		}
	}
	return r
}

func verif_internal_bytealg_IndexByte(s []byte, c byte) int {
	r := -1
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			r = i
		}
	}
	return r
}

func verif_internal_bytealg_CountString(s string, c byte) (n int) {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return
}

func verif_internal_bytealg_Count(s []byte, c byte) (n int) {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return
}

func verif_bytes_IndexByte(s []byte, c byte) int     { return verif_internal_bytealg_IndexByte(s, c) }
func verif_bytes_Contains(s, sep []byte) bool        { return verif_bytes_Index(s, sep) >= 0 }
func verif_bytes_ContainsRune(s []byte, r rune) bool { return verif_bytes_IndexByte(s, byte(r)) >= 0 }

func verif_bytes_Index(s, sep []byte) int {
	r := -1
	for i := len(s) - len(sep); i >= 0; i-- {
		d := byte(0)
		for k := range sep {
			d |= s[i+k] ^ sep[k]
		}
		if d == 0 {
			r = i
		}
	}
	return r
}

// verif_bytes_TrimSpace knows ASCII spaces only.
func verif_bytes_TrimSpace(s []byte) []byte {
	space := func(c byte) bool { return c == ' ' || c-9 < 5 }
	lo, hi := 0, len(s)
	for lo < hi && space(s[lo]) {
		lo++
	}
	for lo < hi && space(s[hi-1]) {
		hi--
	}
	return s[lo:hi]
}

// strings.Builder: the text of each

type verifBuilder struct {
	b *strings.Builder
	s string
}

var verifBuilders []*verifBuilder

func verifBuilt(b *strings.Builder) *verifBuilder {
	for _, x := range verifBuilders {
		if x.b == b {
			return x
		}
	}
	x := &verifBuilder{b: b}
	verifBuilders = append(verifBuilders, x)
	return x
}

func verif_strings_Builder_WriteString(b *strings.Builder, s string) (int, error) {
	verifBuilt(b).s += s
	return len(s), nil
}

func verif_strings_Builder_Write(b *strings.Builder, p []byte) (int, error) {
	verifBuilt(b).s += string(p)
	return len(p), nil
}

func verif_strings_Builder_WriteByte(b *strings.Builder, c byte) error {
	verifBuilt(b).s += string([]byte{c})
	return nil
}

func verif_strings_Builder_WriteRune(b *strings.Builder, c rune) (int, error) {
	s := string([]byte{byte(c)})
	verifBuilt(b).s += s
	return len(s), nil
}

func verif_strings_Builder_Grow(b *strings.Builder, n int)   {}
func verif_strings_Builder_Reset(b *strings.Builder)         { verifBuilt(b).s = "" }
func verif_strings_Builder_Len(b *strings.Builder) int       { return len(verifBuilt(b).s) }
func verif_strings_Builder_String(b *strings.Builder) string { return verifBuilt(b).s }

// the command line

func verifFlag(name, def string) string {
	switch name {
	case "directory":
		return verifDir
	case "generation":
		return "complex"
	}
	return def
}

func verif_flag_String(name, def, usage string) *string {
	s := verifFlag(name, def)
	return &s
}
func verif_flag_StringVar(p *string, name, def, usage string) { *p = verifFlag(name, def) }
func verif_flag_Bool(name string, def bool, usage string) *bool {
	return &def
}
func verif_flag_BoolVar(p *bool, name string, def bool, usage string) { *p = def }
func verif_flag_Int(name string, def int, usage string) *int          { return &def }
func verif_flag_Parse()                                               {}

// Templates without directives: the regular expressions match nowhere.

type verifRegexp struct{}

func verif_regexp_MustCompile(s string) *verifRegexp          { return &verifRegexp{} }
func verif_regexp_Compile(s string) (*verifRegexp, error)     { return &verifRegexp{}, nil }
func verif_regexp_Regexp_Match(r *verifRegexp, b []byte) bool { return false }
func verif_regexp_Regexp_ReplaceAllFunc(r *verifRegexp, src []byte, f func([]byte) []byte) []byte {
	d := make([]byte, len(src))
	copy(d, src)
	return d
}

// verifMost bounds the sizes of the files, for loops over their bytes.
var verifMost int

func verifLen(name string) int {
	n := sym.Len(name)
	if verifMost != 0 {
		sym.Assume(n <= verifMost)
	}
	return n
}

// verifHarness: k templates, each with arbitrary contents without
// directives, in any order in the directory; their output files may be
// there already, with arbitrary contents.
func verifHarness(k int) {
	names := []string{"a_go", "b.log"}[:k]
	if k == 2 && sym.Choose("order", 2) == 1 {
		names = []string{"b.log", "a_go"}
	}
	verifFS = []*verifNode{{name: verifDir, dir: true}, {name: "/w", dir: true}, {name: verifDir + "/lib.go", data: sym.Bytes("other", 5, 5)}}
	tpl := map[string][]byte{}
	for _, x := range names {
		c := verifLen("template-" + x)
		b := sym.Bytes("T"+x, c, c)
		tpl[x] = sym.Snapshot(b)
		verifAdd(verifDir+"/_"+x+".go", b)
		if sym.Choose("exists-"+x, 2) == 1 {
			c := verifLen("before-" + x)
			verifAdd(verifDir+"/"+x+".generated.go", sym.Bytes("G"+x, c, c))
		}
	}
	if k == 1 && sym.Choose("subdirectory", 2) == 1 {
		verifAdd(verifDir+"/_sub.go", nil).dir = true
	}
	if v, p := sym.Try(main); p {
		_, exit := v.(verifExit)
		sym.Assert(exit, "C23: the generator panics")
	}
	j := int(sym.UintN("j", 20))
	for _, p := range verifSame {
		if j < len(p[0]) {
			sym.Assume(p[0][j] == p[1][j])
		}
	}
	for _, x := range names {
		n := verifFind(verifDir + "/" + x + ".generated.go")
		sym.Assert(n != nil, "C23: no output file for "+x)
		want := tpl[x]
		sym.Assert(len(n.data) == len(want), "C23: the output for "+x+" does not have the generated text's length")
		if j < len(want) {
			sym.Assert(n.data[j] == want[j], "C23: the output for "+x+" differs from the generated text")
		}
		t := verifFind(verifDir + "/_" + x + ".go")
		sym.Assert(t != nil && len(t.data) == len(want) && (j >= len(want) || t.data[j] == want[j]), "C23: the template of "+x+" changed")
	}
	sym.Cover("end")
}
