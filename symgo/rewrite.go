package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Sources of the repository are executed with the clock, the random source and, in the in-memory
// engine, the file system replaced by models that harnesses control. The same substitution is made
// for symbolic and native execution, so that a counterexample replays exactly.

type subst struct {
	pkg   string            // model package
	names map[string]string // selector -> name in the model package ("" for the same)
	only  string            // part of the path of the files it applies to
	root  map[string]string // further names, in the client's package only
}

func same(names ...string) map[string]string {
	m := map[string]string{}
	for _, n := range names {
		m[n] = n
	}
	return m
}

func prefixed(p string, names ...string) map[string]string {
	m := map[string]string{}
	for _, n := range names {
		m[n] = p + n
	}
	return m
}

var substs = map[string]subst{
	"time": {pkg: "rt", names: same("Now", "Since", "Until"),
		root: same("Timer", "NewTimer", "After", "AfterFunc", "Sleep", "Tick", "Ticker", "NewTicker")},
	"math/rand":    {pkg: "rt", names: prefixed("Rand", "Int63", "Int63n", "Int31", "Int31n", "Int", "Intn", "Uint32", "Uint64", "Read")},
	"math/rand/v2": {pkg: "rt", names: prefixed("Rand2", "Int64", "Int64N", "Int32", "Int32N", "Int", "IntN", "Uint32", "Uint64", "Uint64N", "Uint32N", "N")},
	"crypto/rand":  {pkg: "rt", names: map[string]string{"Read": "RandRead"}},
	"os": {pkg: "mf", only: "internal/engine/memdb", names: same("File", "Open", "Create", "OpenFile", "CreateTemp", "Rename", "Remove", "RemoveAll",
		"Stat", "Lstat", "ReadFile", "WriteFile", "Truncate", "Chmod", "Link", "Mkdir", "MkdirAll")},
	"sync":     {pkg: "rt", only: "internal/engine/memdb", names: same("Mutex", "RWMutex")},
	"net/http": {pkg: "mq", root: same("NewRequest", "NewRequestWithContext")},
}

// cmdSubsts are the substitutions in the copy of the main program.
var cmdSubsts = map[string]subst{
	"time": {pkg: "rt", names: same("Now", "Since", "Until", "Timer", "NewTimer", "After", "AfterFunc", "Sleep", "Tick", "Ticker", "NewTicker")},
	"math/rand": {pkg: "rt", names: prefixed("Rand", "Int63", "Int63n", "Int31", "Int31n", "Int", "Intn", "Uint32", "Uint64", "Read",
		"New", "NewSource", "Float64", "Rand")},
	"os":                                {pkg: "mc", names: same("Exit")},
	"os/signal":                         {pkg: "mc", names: same("Notify", "NotifyContext", "Stop", "Reset", "Ignore")},
	"log":                               {pkg: "mc", names: same("Fatal", "Fatalf", "Fatalln", "Print", "Printf", "Println")},
	"net":                               {pkg: "mc", names: same("Listen")},
	"net/http":                          {pkg: "mc", names: same("Server", "ListenAndServe")},
	"context":                           {pkg: "mc", names: same("WithTimeout", "WithDeadline")},
	"github.com/alexflint/go-arg":       {pkg: "mc", names: same("MustParse", "Parse")},
	modPath + "internal/engine/memdb":   {pkg: "mc", names: map[string]string{"New": "NewMemdb"}},
	modPath + "internal/engine/mongodb": {pkg: "mc", names: map[string]string{"New": "NewMongodb"}},
}

const modPath = "github.com/hyperonym/ratus/"

// cmdSource returns the source of the main program as a package with an exported main function.
func cmdSource(path string, src []byte) ([]byte, error) {
	if o, ok := rewriteSrc(path, src, cmdSubsts, false); ok {
		src = o
	}
	f, err := parser.ParseFile(token.NewFileSet(), path, src, parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	out := append([]byte{}, src...)
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
			out[fd.Name.Pos()-f.FileStart] = 'M'
		}
	}
	copy(out[f.Name.Pos()-f.FileStart:], "prog")
	return out, nil
}

// cmdSources returns the copy of the main program.
func cmdSources(repo string) (map[string][]byte, error) {
	fs, err := filepath.Glob(filepath.Join(repo, "cmd", "ratus", "*.go"))
	if err != nil {
		return nil, err
	}
	out := map[string][]byte{}
	for _, p := range fs {
		if strings.HasSuffix(p, "_test.go") {
			continue
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return nil, err
		}
		if out[filepath.Join(repo, vDir, "prog", filepath.Base(p))], err = cmdSource(p, src); err != nil {
			return nil, err
		}
	}
	return out, nil
}

// rewriteSrc returns the source with the substitutions made.
func rewriteSrc(path string, src []byte, substs map[string]subst, root bool) ([]byte, bool) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, path, src, parser.ParseComments)
	if err != nil {
		return nil, false
	}
	type edit struct {
		lo, hi int
		s      string
	}
	var es []edit
	imports := map[string]bool{}
	tail := ""
	for _, im := range f.Imports {
		ip, _ := strconv.Unquote(im.Path.Value)
		sb, ok := substs[ip]
		if !ok || (sb.only != "" && !strings.Contains(path, sb.only)) {
			continue
		}
		name := filepath.Base(ip)
		if ip == "math/rand/v2" {
			name = "rand"
		} else if strings.HasSuffix(ip, "/go-arg") {
			name = "arg"
		}
		if im.Name != nil {
			name = im.Name.Name
		}
		if name == "_" || name == "." {
			continue
		}
		keep := ""
		ast.Inspect(f, func(n ast.Node) bool {
			s, ok := n.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			x, ok := s.X.(*ast.Ident)
			if !ok || x.Name != name || x.Obj != nil {
				return true
			}
			to, ok := sb.names[s.Sel.Name]
			if !ok && root {
				to, ok = sb.root[s.Sel.Name]
			}
			if ok {
				es = append(es, edit{fs.Position(s.Pos()).Offset, fs.Position(s.End()).Offset, "zz" + sb.pkg + "." + to})
				imports[sb.pkg] = true
				keep = s.Sel.Name
			}
			return true
		})
		if keep != "" {
			if keep == "File" || keep == "Mutex" || keep == "RWMutex" || keep == "Timer" || keep == "Ticker" || keep == "Server" || keep == "Rand" {
				tail += fmt.Sprintf("\nvar _ %s.%s\n", name, keep)
			} else if keep == "N" {
				tail += fmt.Sprintf("\nvar _ = %s.%s[int]\n", name, keep)
			} else {
				tail += fmt.Sprintf("\nvar _ = %s.%s\n", name, keep)
			}
		}
	}
	if len(es) == 0 {
		return nil, false
	}
	end := fs.Position(f.Name.End()).Offset
	for _, p := range sortedKeys(imports) {
		es = append(es, edit{end, end, `; import zz` + p + ` "` + modPath + vDir + "/" + p + `"`})
	}
	sort.SliceStable(es, func(i, j int) bool { return es[i].lo > es[j].lo })
	out := append([]byte{}, src...)
	for _, e := range es {
		out = append(out[:e.lo:e.lo], append([]byte(e.s), out[e.hi:]...)...)
	}
	return append(out, tail...), true
}

// repoSources returns the repository's own sources with the substitutions made, where there are any.
func repoSources(repo string) (map[string][]byte, error) {
	out := map[string][]byte{}
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			b := fi.Name()
			if p != repo && (strings.HasPrefix(b, ".") || b == "testdata" || b == "examples" || b == "node_modules" || b == "zzverif" || b == "cmd") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if o, ok := rewriteSrc(p, src, substs, filepath.Dir(p) == filepath.Clean(repo)); ok {
			out[p] = o
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	cs, err := cmdSources(repo)
	for p, o := range cs {
		out[p] = o
	}
	return out, err
}

// harnessPkgs returns the model packages that hold the given harness functions.
func harnessPkgs(verif string, names []string) ([]string, error) {
	want := map[string]bool{}
	for _, n := range names {
		want[n] = true
	}
	files, err := filepath.Glob(filepath.Join(verif, "model", "h*", "*.go"))
	if err != nil {
		return nil, err
	}
	got := map[string]bool{}
	for _, p := range files {
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if err != nil {
			return nil, err
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && want[fd.Name.Name] {
				got[filepath.Base(filepath.Dir(p))] = true
				want[fd.Name.Name] = false
			}
		}
	}
	for _, n := range names {
		if want[n] {
			return nil, fmt.Errorf("no harness %s", n)
		}
	}
	return sortedKeys(got), nil
}
