package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"
)

// The native side: the same harnesses compiled with the real compiler against the real code,
// fed with the values of a solver model.

type replayCase struct {
	Harness string            `json:"harness"`
	Prop    string            `json:"prop"`
	Args    map[string]int64  `json:"args"`
	Vars    map[string]string `json:"vars"`
}

type replayOut struct {
	Fails   []string `json:"fails"`
	Reached []string `json:"reached"`
	Obs     []string `json:"obs"`
	Stopped bool     `json:"stopped"`
	Panic   string   `json:"panic"`
	Hang    bool     `json:"hang"`
	Err     string   `json:"err"`
}

type Replayer struct {
	dir string
	bin string
	err error
	wg  sync.WaitGroup
	sec float64
}

// repoOverlay writes the substituted sources of the repository for native replay.
func repoOverlay(repo, tmp string, rep map[string]string) error {
	ss, err := repoSources(repo)
	if err != nil {
		return err
	}
	for _, p := range sortedKeys(ss) {
		dst := filepath.Join(tmp, fmt.Sprintf("o%d.go", len(rep)))
		if err := os.WriteFile(dst, ss[p], 0o644); err != nil {
			return err
		}
		rep[p] = dst
	}
	return nil
}

// NewReplayer starts building the replay binary in the background.
func NewReplayer(repo, verif string, pkgs []string) *Replayer {
	r := &Replayer{}
	r.wg.Add(1)
	go func() {
		defer r.wg.Done()
		t0 := time.Now()
		r.err = r.build(repo, verif, pkgs)
		r.sec = time.Since(t0).Seconds()
	}()
	return r
}

func (r *Replayer) build(repo, verif string, pkgs []string) error {
	tmp, err := os.MkdirTemp("", "symgo-replay-")
	if err != nil {
		return err
	}
	r.dir = tmp
	files, err := overlayFiles(filepath.Join(verif, "model"), filepath.Join(repo, vDir))
	if err != nil {
		return err
	}
	rep := map[string]string{}
	var regs []string
	imports := map[string]bool{}
	for dst, src := range files {
		if strings.HasSuffix(dst, "_sym.go") || strings.HasSuffix(dst, "_test.go") {
			continue
		}
		rep[dst] = src
		f, err := parser.ParseFile(token.NewFileSet(), src, nil, 0)
		if err != nil {
			return err
		}
		pkg := filepath.Base(filepath.Dir(dst))
		if !slices.Contains(pkgs, pkg) {
			continue
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if ok && fd.Recv == nil && fd.Name.IsExported() && fd.Type.Params.NumFields() == 0 && fd.Type.Results.NumFields() == 0 {
				regs = append(regs, fmt.Sprintf("\t%q: %s.%s,\n", fd.Name.Name, pkg, fd.Name.Name))
				imports[pkg] = true
			}
		}
	}
	sort.Strings(regs)
	mod := "github.com/hyperonym/ratus/" + vDir
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n\t\"" + mod + "/rt\"\n")
	for _, p := range sortedKeys(imports) {
		b.WriteString("\t\"" + mod + "/" + p + "\"\n")
	}
	b.WriteString(")\n\nfunc main() { rt.Main(map[string]func(){\n" + strings.Join(regs, "") + "}) }\n")
	mf := filepath.Join(tmp, "main.go")
	if err := os.WriteFile(mf, []byte(b.String()), 0o644); err != nil {
		return err
	}
	rep[filepath.Join(repo, vDir, "zzreplay", "main.go")] = mf
	if err := repoOverlay(repo, tmp, rep); err != nil {
		return err
	}
	if err := depOverlay(rep, tmp); err != nil {
		return err
	}
	oj, _ := json.Marshal(map[string]any{"Replace": rep})
	of := filepath.Join(tmp, "overlay.json")
	if err := os.WriteFile(of, oj, 0o644); err != nil {
		return err
	}
	bin := filepath.Join(tmp, "replay")
	cmd := exec.Command(goRoot+"/bin/go", "build", "-overlay", of, "-o", bin, "./"+vDir+"/zzreplay")
	cmd.Dir = repo
	if cmd.Env, err = goEnv(repo, verif); err != nil {
		return err
	}
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("replay build: %v\n%s", err, out)
	}
	r.bin = bin
	return nil
}

func (r *Replayer) Wait() error {
	r.wg.Wait()
	return r.err
}

func (r *Replayer) Close() {
	r.wg.Wait()
	if r.dir != "" && strings.Contains(r.dir, "symgo-replay-") {
		os.RemoveAll(r.dir)
	}
}

// Run executes one case in a process of its own.
func (r *Replayer) Run(c replayCase, limit time.Duration) replayOut {
	if err := r.Wait(); err != nil {
		return replayOut{Err: err.Error()}
	}
	in, _ := json.Marshal(c)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, r.bin)
	cmd.Stdin = bytes.NewReader(in)
	cmd.Dir = r.dir
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	var o replayOut
	if ctx.Err() != nil {
		o.Hang = true
		return o
	}
	if i := bytes.LastIndex(so.Bytes(), []byte("RESULT ")); i >= 0 {
		line := so.Bytes()[i+7:]
		if j := bytes.IndexByte(line, '\n'); j >= 0 {
			line = line[:j]
		}
		if e := json.Unmarshal(line, &o); e == nil {
			return o
		}
	}
	if err != nil {
		s := se.String()
		if i := strings.Index(s, "panic:"); i >= 0 {
			s = s[i:]
		}
		if len(s) > 600 {
			s = s[:600]
		}
		if strings.HasPrefix(s, "panic:") || strings.HasPrefix(s, "fatal error:") {
			o.Panic = s
		} else {
			o.Err = fmt.Sprintf("%v: %s", err, s)
		}
	}
	return o
}

// RunAll executes the cases on all processors.
func (r *Replayer) RunAll(cs []replayCase, limit time.Duration, n int, until time.Time) []replayOut {
	out := make([]replayOut, len(cs))
	ch := make(chan int)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := range ch {
				if time.Now().After(until) {
					out[k] = replayOut{Err: "out of time"}
					continue
				}
				out[k] = r.Run(cs[k], limit)
			}
		}()
	}
	for k := range cs {
		ch <- k
	}
	close(ch)
	wg.Wait()
	return out
}

// depOverlay writes the hooked dependencies for the native build.
func depOverlay(rep map[string]string, tmp string) error {
	ds, err := depSources()
	if err != nil {
		return err
	}
	for _, p := range sortedKeys(ds) {
		dst := filepath.Join(tmp, fmt.Sprintf("d%d.go", len(rep)))
		if err := os.WriteFile(dst, ds[p], 0o644); err != nil {
			return err
		}
		rep[p] = dst
	}
	return nil
}
