package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

const zzPath = "github.com/dogmatiq/testkit/internal/zzverif"

// workspace is a scratch directory holding the overlay, the module file copy
// and the native replay binaries.
type workspace struct {
	dir     string
	repo    string
	verif   string
	modfile string
	overlay map[string][]byte // absolute path in /repo -> content
	ovFile  string
	bins    map[string]string
	bubble  map[string]bool // packages that need testing/synctest
}

const goRoot = "/opt/veriftools/go1.24.13"

func newWorkspace(repo, verif string, pkgs []string) (*workspace, error) {
	dir, err := os.MkdirTemp("", "gosym-")
	if err != nil {
		return nil, err
	}
	ws := &workspace{dir: dir, repo: repo, verif: verif, overlay: map[string][]byte{}, bins: map[string]string{}, bubble: map[string]bool{}}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(dir, "testkit"+filepath.Ext(f)), b, 0o644); err != nil {
			return nil, err
		}
	}
	ws.modfile = filepath.Join(dir, "testkit.mod")
	repl := map[string]string{}
	add := func(rel, src string, content []byte) {
		dst := filepath.Join(repo, "internal", "zzverif", rel)
		ws.overlay[dst] = content
		repl[dst] = src
	}
	for _, pk := range pkgs {
		files, err := filepath.Glob(filepath.Join(verif, "harness", pk, "*.go"))
		if err != nil {
			return nil, err
		}
		if len(files) == 0 {
			return nil, fmt.Errorf("no harness files for %s", pk)
		}
		for _, f := range files {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			add(filepath.Join(pk, filepath.Base(f)), f, b)
			if pk != "nd" && bytes.Contains(b, []byte("nd.Bubble(")) {
				ws.bubble[pk] = true
			}
		}
		if pk == "nd" || pk == "kit" {
			continue
		}
		src := fmt.Sprintf("package main\n\nimport (\n\t\"%s/nd\"\n\th \"%s/%s\"\n)\n\nfunc main() { nd.Main(h.Harnesses) }\n", zzPath, zzPath, pk)
		f := filepath.Join(dir, "run_"+pk+".go")
		if err := os.WriteFile(f, []byte(src), 0o644); err != nil {
			return nil, err
		}
		add(filepath.Join("run_"+pk, "main.go"), f, []byte(src))
	}
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	ws.ovFile = filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ws.ovFile, b, 0o644); err != nil {
		return nil, err
	}
	return ws, nil
}

func (ws *workspace) close() { os.RemoveAll(ws.dir) }

func (ws *workspace) env() []string {
	var env []string
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "GOROOT", "GOMODCACHE", "GOPATH", "CGO_ENABLED", "PATH", "PWD", "GOCACHE", "GOSUMDB":
			continue
		}
		env = append(env, e)
	}
	cache := os.Getenv("GOCACHE")
	if cache == "" {
		cache = "/root/.cache/go-build"
	}
	return append(env,
		"PATH="+goRoot+"/bin:"+os.Getenv("PATH"),
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GOSUMDB=off", "CGO_ENABLED=1",
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE="+cache,
		"GOFLAGS=-mod=mod -modfile="+ws.modfile,
	)
}

func (ws *workspace) load(pkgs []string) (*Program, error) {
	os.Setenv("PATH", goRoot+"/bin:"+os.Getenv("PATH"))
	var pats []string
	for _, p := range pkgs {
		pats = append(pats, zzPath+"/"+p)
	}
	return loadProgram(ws.repo, ws.overlay, ws.env(), nil, pats...)
}

func (ws *workspace) build(pkg string, race bool) (string, error) {
	key := pkg
	if race {
		key += "-race"
	}
	if b, ok := ws.bins[key]; ok {
		return b, nil
	}
	out := filepath.Join(ws.dir, "native-"+key)
	args := []string{"build", "-overlay", ws.ovFile, "-o", out}
	if race {
		args = append(args, "-race")
	}
	args = append(args, zzPath+"/run_"+pkg)
	cmd := exec.Command(goRoot+"/bin/go", args...)
	cmd.Dir = ws.repo
	cmd.Env = ws.env()
	if ws.bubble[pkg] {
		cmd.Env = append(cmd.Env, "GOEXPERIMENT=synctest")
	}
	if msg, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("native build failed: %v\n%s", err, msg)
	}
	ws.bins[key] = out
	return out, nil
}

// nativeRun is one request to the native binary.
type nativeRun struct {
	Inputs map[string]string `json:"inputs"`
	Repeat int               `json:"repeat"`
}

type nativeResult struct {
	Index   int      `json:"index"`
	Status  string   `json:"status"` // ok, violation, assume, missing, crash, hang, race
	Label   string   `json:"label"`
	Detail  string   `json:"detail"`
	Trace   []string `json:"trace"`
	Reached []string `json:"reached"`
	Runs    int      `json:"runs"`
}

// native runs harness on each request in one or more processes.
func (ws *workspace) native(pkg, harness string, race bool, reqs []nativeRun, per time.Duration) ([]nativeResult, error) {
	bin, err := ws.build(pkg, race)
	if err != nil {
		return nil, err
	}
	results := make([]nativeResult, len(reqs))
	for i := range results {
		results[i] = nativeResult{Index: i, Status: "none"}
	}
	next := 0
	for next < len(reqs) {
		f := filepath.Join(ws.dir, "reqs.json")
		b, _ := json.Marshal(reqs[next:])
		if err := os.WriteFile(f, b, 0o644); err != nil {
			return nil, err
		}
		cwd, err := os.MkdirTemp(ws.dir, "cwd")
		if err != nil {
			return nil, err
		}
		ctx, cancel := context.WithCancel(context.Background())
		cmd := exec.CommandContext(ctx, bin, harness, f)
		cmd.Dir = cwd
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
		var errb bytes.Buffer
		cmd.Stderr = &limitWriter{b: &errb, n: 1 << 16}
		out, _ := cmd.StdoutPipe()
		if err := cmd.Start(); err != nil {
			cancel()
			return nil, err
		}
		lines := make(chan string, 64)
		go func() {
			sc := bufio.NewScanner(out)
			sc.Buffer(make([]byte, 1<<20), 1<<24)
			for sc.Scan() {
				lines <- sc.Text()
			}
			close(lines)
		}()
		started := -1
		hang := false
		timer := time.NewTimer(per)
	loop:
		for {
			select {
			case l, ok := <-lines:
				if !ok {
					break loop
				}
				if !timer.Stop() {
					select {
					case <-timer.C:
					default:
					}
				}
				timer.Reset(per)
				if strings.HasPrefix(l, "@START ") {
					fmt.Sscanf(l, "@START %d", &started)
				} else if strings.HasPrefix(l, "@RESULT ") {
					var r nativeResult
					if json.Unmarshal([]byte(l[8:]), &r) == nil {
						r.Index += next
						results[r.Index] = r
						started = -1
					}
				}
			case <-timer.C:
				hang = true
				cancel()
				break loop
			}
		}
		cancel()
		werr := cmd.Wait()
		done := next
		for done < len(reqs) && results[done].Status != "none" {
			done++
		}
		if done == len(reqs) {
			break
		}
		if done > next && started == -1 && !hang {
			// the process ended itself after reporting a failed assertion or
			// assumption; the remaining requests need a new one
			next = done
			continue
		}
		// the process ended inside request `done`
		r := nativeResult{Index: done, Detail: tailText(errb.String(), 1500)}
		switch {
		case hang:
			r.Status, r.Label = "hang", "no-termination"
		case strings.Contains(errb.String(), "WARNING: DATA RACE"):
			r.Status, r.Label = "race", "data-race"
			r.Detail = headText(errb.String(), 3000)
		case strings.Contains(errb.String(), "all goroutines are asleep"):
			r.Status, r.Label = "hang", "deadlock"
		default:
			r.Status, r.Label = "crash", "unexpected-panic"
			if werr != nil && r.Detail == "" {
				r.Detail = werr.Error()
			}
			if i := strings.Index(errb.String(), "fatal error:"); i >= 0 {
				r.Label = "fatal-error"
			}
			r.Detail = headText(errb.String(), 1500)
		}
		results[done] = r
		next = done + 1
	}
	return results, nil
}

type limitWriter struct {
	b *bytes.Buffer
	n int
}

func (w *limitWriter) Write(p []byte) (int, error) {
	if w.b.Len() < w.n {
		w.b.Write(p)
	}
	return len(p), nil
}

func tailText(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func headText(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}
