// simgen writes the build overlay for the simulator: patched standard-library
// files, the repository's own non-test sources with a scheduling point before
// every statement, and the harness as test files of the main package.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simgen: "+f+"\n", a...)
	os.Exit(2)
}

func check(err error) {
	if err != nil {
		die("%v", err)
	}
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	harness := flag.String("harness", "", "")
	flag.Parse()
	replace := map[string]string{}
	n := 0
	put := func(target string, content []byte) {
		n++
		p := filepath.Join(*out, fmt.Sprintf("f%03d_%s", n, filepath.Base(target)))
		check(os.WriteFile(p, content, 0o644))
		replace[target] = p
	}

	b, err := exec.Command("go", "env", "GOROOT").Output()
	check(err)
	src := filepath.Join(strings.TrimSpace(string(b)), "src")
	texts := map[string]string{}
	for _, p := range stdPatches {
		if _, ok := texts[p.file]; !ok {
			b, err := os.ReadFile(filepath.Join(src, p.file))
			check(err)
			texts[p.file] = string(b)
		}
		if c := strings.Count(texts[p.file], p.old); c != 1 {
			die("%s: %d matches for %q", p.file, c, p.old)
		}
		texts[p.file] = strings.Replace(texts[p.file], p.old, p.new, 1)
	}
	for _, f := range sorted(texts) {
		put(filepath.Join(src, f), []byte(texts[f]))
	}
	for _, f := range sorted(stdFiles) {
		put(filepath.Join(src, f), []byte(stdFiles[f]))
	}

	// The repository.
	dirs := map[string][]string{}
	check(filepath.WalkDir(*repo, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			base := d.Name()
			if p != *repo && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "vendor" || base == "contract") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			dirs[filepath.Dir(p)] = append(dirs[filepath.Dir(p)], p)
		}
		return nil
	}))
	for _, dir := range sorted(dirs) {
		pkg := ""
		for _, f := range dirs[dir] {
			text, err := os.ReadFile(f)
			check(err)
			newText, name := instrument(f, string(text))
			put(f, []byte(newText))
			pkg = name
		}
		put(filepath.Join(dir, "zz_sim_hook.go"), []byte(fmt.Sprintf(hookFile, pkg, filepath.Base(dir))))
	}
	put(filepath.Join(*repo, "zz_sim_sites.go"), []byte(fmt.Sprintf("package main\n\nconst zzSimSites = %d\n\nvar zzSimSync = %#v\n\nconst zzSimSenders = %d\n\nconst zzSimMonth = %d\n", sites, syncSites, senders, monthSeen)))
	// The harness.
	hs, err := filepath.Glob(filepath.Join(*harness, "*.go"))
	check(err)
	sort.Strings(hs)
	for _, h := range hs {
		replace[filepath.Join(*repo, "zz_verif_"+strings.TrimSuffix(filepath.Base(h), ".go")+"_test.go")] = h
	}
	js, err := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	check(err)
	check(os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0o644))
}

func sorted[V any](m map[string]V) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

const hookFile = `package %s

import (
	"runtime"
	"time"
)

func zzSimY(site int) { runtime.SimY(site) }

func zzSimNow() time.Time {
	t := time.Now()
	if runtime.SimSkew != nil {
		t = time.SimWall(t, time.Duration(runtime.SimSkew()))
	}
	return t
}

func zzSimReg(name string, save func() func(), reset func()) {
	runtime.SimGlobals = append(runtime.SimGlobals, runtime.SimGlobal{Name: %q + "." + name, Save: save, Reset: reset})
}

func zzSimSave[T any](p *T) func() func() {
	return func() func() {
		v := *p
		return func() { *p = v }
	}
}

func zzSimZero[T any](p *T) func() {
	return func() {
		var z T
		*p = z
	}
}

var _ = zzSimReg

// zzSimSender lets one of the simulation's keys stand for the key of the
// builder the repository whitelists by address.
func zzSimSender[S, T any, A ~[20]byte](f func(S, T) (A, error)) func(S, T) (A, error) {
	return func(s S, t T) (A, error) {
		a, err := f(s, t)
		if p := runtime.SimAlias; p != nil && err == nil {
			a = A(p([20]byte(a)))
		}
		return a, err
	}
}
`

// sites counts the statements instrumented so far; syncSites are those that
// take or release a lock, and those that follow them.
// senders counts the places that find out who signed a transaction.
var (
	sites     int
	syncSites []int
	senders   int
)

func lockCall(s ast.Stmt) bool {
	var e ast.Expr
	switch x := s.(type) {
	case *ast.ExprStmt:
		e = x.X
	case *ast.DeferStmt:
		e = x.Call
	}
	c, ok := e.(*ast.CallExpr)
	if !ok {
		return false
	}
	f, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	switch f.Sel.Name {
	case "Lock", "Unlock", "RLock", "RUnlock":
		return true
	}
	return false
}

type insertion struct {
	off, del int
	text     string
}

// month stands for the number of slots in thirty days, the API's statistics
// window: no run could reach its end otherwise.
const month = 48

// monthSeen is the window of the instrumented code: month if the literal was
// found, and the real one otherwise.
var monthSeen = 216000

func scaleMonth(file, text string) string {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, text, parser.SkipObjectResolution)
	check(err)
	if f.Name.Name != "api" {
		return text
	}
	var at []int
	ast.Inspect(f, func(n ast.Node) bool {
		if l, ok := n.(*ast.BasicLit); ok && l.Value == "216000" {
			at = append(at, fset.Position(l.Pos()).Offset)
		}
		return true
	})
	for i := len(at) - 1; i >= 0; i-- {
		text = text[:at[i]] + fmt.Sprintf("%-6d", month) + text[at[i]+6:]
		monthSeen = month
	}
	return text
}

func instrument(file, text string) (string, string) {
	text = scaleMonth(file, text)
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, text, parser.ParseComments|parser.SkipObjectResolution)
	check(err)
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var ins []insertion
	list := func(l []ast.Stmt) {
		prevSync := false
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			sites++
			if prevSync || lockCall(s) {
				syncSites = append(syncSites, sites)
			}
			prevSync = lockCall(s)
			ins = append(ins, insertion{off(s.Pos()), 0, fmt.Sprintf("zzSimY(%d); ", sites)})
		}
	}
	timeName := ""
	for _, im := range f.Imports {
		if im.Path.Value == `"time"` {
			timeName = "time"
			if im.Name != nil {
				timeName = im.Name.Name
			}
		}
	}
	usedNow := false
	ast.Inspect(f, func(n ast.Node) bool { return visitExpr(n, list, &ins, off, timeName, &usedNow) })
	senderCalls(f, &ins, off)
	// Package-level variables, so that every simulated process has its own.
	var tail strings.Builder
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			vs := s.(*ast.ValueSpec)
			for i, name := range vs.Names {
				if name.Name == "_" {
					continue
				}
				reset := "zzSimZero(&" + name.Name + ")"
				if len(vs.Values) > 0 {
					reset = "zzSimSave(&" + name.Name + ")()"
					if len(vs.Values) == len(vs.Names) && pure(vs.Values[i]) {
						e := text[off(vs.Values[i].Pos()):off(vs.Values[i].End())]
						reset = "func() { " + name.Name + " = " + e + " }"
					}
				}
				fmt.Fprintf(&tail, "\nfunc init() { zzSimReg(%q, zzSimSave(&%s), %s) }\n", name.Name, name.Name, reset)
			}
		}
	}
	if usedNow {
		fmt.Fprintf(&tail, "\nvar _ = %s.Now\n", timeName)
	}
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	var b strings.Builder
	at := 0
	for _, i := range ins {
		b.WriteString(text[at:i.off])
		b.WriteString(i.text)
		at = i.off + i.del
	}
	b.WriteString(text[at:])
	b.WriteString(tail.String())
	return b.String(), f.Name.Name
}

func nowCall(n ast.Node, ins *[]insertion, off func(token.Pos) int, timeName string, used *bool) {
	c, ok := n.(*ast.CallExpr)
	if !ok || timeName == "" || len(c.Args) != 0 {
		return
	}
	s, ok := c.Fun.(*ast.SelectorExpr)
	if !ok || s.Sel.Name != "Now" {
		return
	}
	if id, ok := s.X.(*ast.Ident); ok && id.Name == timeName {
		*ins = append(*ins, insertion{off(s.Pos()), off(s.End()) - off(s.Pos()), "zzSimNow"})
		*used = true
	}
}

// senderCalls wraps go-ethereum's types.Sender.
func senderCalls(f *ast.File, ins *[]insertion, off func(token.Pos) int) {
	name := ""
	for _, im := range f.Imports {
		if im.Path.Value == `"github.com/ethereum/go-ethereum/core/types"` {
			name = "types"
			if im.Name != nil {
				name = im.Name.Name
			}
		}
	}
	if name == "" {
		return
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok && s.Sel.Name == "Sender" {
			if id, ok := s.X.(*ast.Ident); ok && id.Name == name {
				*ins = append(*ins, insertion{off(s.Pos()), 0, "zzSimSender("}, insertion{off(s.End()), 0, ")"})
				senders++
			}
		}
		return true
	})
}

func visitExpr(n ast.Node, list func([]ast.Stmt), ins *[]insertion, off func(token.Pos) int, timeName string, used *bool) bool {
	switch x := n.(type) {
	case *ast.BlockStmt:
		list(x.List)
	case *ast.CaseClause:
		list(x.Body)
	case *ast.CommClause:
		list(x.Body)
	case *ast.SwitchStmt:
		if x.Init != nil {
			walkClause(x.Init, list, ins, off, timeName, used)
		}
		if x.Tag != nil {
			walkClause(x.Tag, list, ins, off, timeName, used)
		}
		for _, c := range x.Body.List {
			walkClause(c, list, ins, off, timeName, used)
		}
		return false
	case *ast.TypeSwitchStmt:
		for _, c := range x.Body.List {
			walkClause(c, list, ins, off, timeName, used)
		}
		return false
	case *ast.SelectStmt:
		for _, c := range x.Body.List {
			walkClause(c, list, ins, off, timeName, used)
		}
		return false
	default:
		nowCall(n, ins, off, timeName, used)
	}
	return true
}

func walkClause(c ast.Node, list func([]ast.Stmt), ins *[]insertion, off func(token.Pos) int, timeName string, used *bool) {
	ast.Inspect(c, func(m ast.Node) bool { return visitExpr(m, list, ins, off, timeName, used) })
}

// pure reports whether evaluating e again gives a fresh, equal value without
// side effects.
func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			switch f := x.Fun.(type) {
			case *ast.Ident:
				switch f.Name {
				case "make", "new", "uint64", "int64", "uint32", "int", "uint", "int32", "string", "float64", "byte", "len":
				default:
					ok = false
				}
			case *ast.SelectorExpr:
				if id, is := f.X.(*ast.Ident); !is || id.Name != "big" || f.Sel.Name != "NewInt" {
					ok = false
				}
			case *ast.MapType, *ast.ArrayType:
			default:
				ok = false
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		}
		return true
	})
	return ok
}
