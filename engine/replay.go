package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// replayer compiles the harnesses natively together with the repository's
// current code and runs recorded inputs against it.
type replayer struct {
	prog *Program
	tmp  string
	bins map[string]string
	errs map[string]string
}

func newReplayer(prog *Program, tmp string) *replayer {
	return &replayer{prog: prog, tmp: tmp, bins: map[string]string{}, errs: map[string]string{}}
}

const replayTest = `package PKG

import (
	"fmt"
	"os"
	"runtime/debug"
	"testing"
	"testing/synctest"

	"github.com/chanjarster/gears/zzverif/sym"
)

var zzEntries = map[string]func(){ENTRIES}

func TestZZReplay(t *testing.T) {
	f := zzEntries[os.Getenv("GOSYM_ENTRY")]
	if f == nil {
		fmt.Println("REPLAY-UNAVAILABLE no entry")
		return
	}
	sym.LoadFile(os.Getenv("GOSYM_REPLAY"))
	synctest.Test(t, func(t *testing.T) {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := sym.IsStop(r); ok {
					return
				}
				fmt.Println("REPLAY-FAIL panic:", r)
				debug.PrintStack()
				os.Exit(3)
			}
		}()
		sym.Start()
		f()
	})
	if d := sym.Divergence(); d != "" {
		fmt.Println("REPLAY-DIVERGED", d)
	} else {
		fmt.Println("REPLAY-DONE")
	}
}
`

func (r *replayer) build(pkg string) (string, string) {
	if b, ok := r.bins[pkg]; ok {
		return b, r.errs[pkg]
	}
	name := pkg[strings.LastIndex(pkg, "/")+1:]
	var dir string
	rel := strings.TrimPrefix(pkg, modPath+"/")
	dir = filepath.Join(r.prog.repo, rel)
	ov := map[string]string{}
	odir := filepath.Join(r.tmp, "ov-"+safeName.ReplaceAllString(rel, "_"))
	os.MkdirAll(odir, 0o755)
	i := 0
	put := func(path string, b []byte) {
		i++
		f := filepath.Join(odir, safeName.ReplaceAllString(strings.TrimPrefix(path, "/"), "_"))
		os.WriteFile(f, b, 0o644)
		ov[path] = f
	}
	for p, b := range r.prog.overlay {
		put(p, b)
	}
	for p, b := range r.prog.instrumented() {
		put(p, b)
	}
	var ents strings.Builder
	pkgName := name
	if sp := r.prog.byPath[pkg]; sp != nil {
		pkgName = sp.Pkg.Name()
		for _, m := range sortedKeysM(sp.Members) {
			if fn := sp.Func(m); fn != nil && fn.Object() != nil && fn.Object().Exported() && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 0 && fn.Signature.Recv() == nil {
				if strings.HasPrefix(rel, "zzverif/") || strings.HasPrefix(m, "ZZ") {
					ents.WriteString("\"" + m + "\": " + m + ", ")
				}
			}
		}
	}
	put(filepath.Join(dir, "zz_replay_test.go"), []byte(strings.NewReplacer("PKG", pkgName, "ENTRIES", ents.String()).Replace(replayTest)))
	b, _ := json.Marshal(map[string]any{"Replace": ov})
	ovf := filepath.Join(odir, "overlay.json")
	os.WriteFile(ovf, b, 0o644)
	bin := filepath.Join(odir, "replay.test")
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", "test", "-c", "-vet=off", "-ldflags=-checklinkname=0", "-overlay", ovf, "-o", bin, pkg)
	cmd.Dir = r.prog.repo
	cmd.Env, _ = goEnv(r.prog.repo, r.tmp)
	out, err := cmd.CombinedOutput()
	if err != nil {
		r.bins[pkg] = ""
		r.errs[pkg] = err.Error() + " " + string(out)
	} else {
		r.bins[pkg] = bin
	}
	return r.bins[pkg], r.errs[pkg]
}

// run replays natively. Result: reproduced, holds, diverged, unavailable; ok or mismatch for kind "validate".
func (r *replayer) run(entry string, rf replayFile, file string) (string, string) {
	if os.Getenv("GOSYM_NOREPLAY") != "" {
		return "unavailable", "disabled"
	}
	bin, e := r.build(entryPkg(entry))
	if bin == "" {
		return "unavailable", e
	}
	writeJSON(file, rf)
	dir, err := os.MkdirTemp(r.tmp, "run")
	if err != nil {
		return "unavailable", err.Error()
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	limit := "15s"
	if rf.Kind == "hang" {
		limit = "4s"
	}
	cmd := exec.CommandContext(ctx, bin, "-test.run", "TestZZReplay", "-test.timeout", limit, "-test.v")
	cmd.Dir = dir
	var env []string
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "PATH=") || strings.HasPrefix(kv, "GOROOT=") {
			env = append(env, kv)
		}
	}
	cmd.Env = append(env, "GOSYM_ENTRY="+entry[strings.LastIndex(entry, ".")+1:], "GOSYM_REPLAY="+file, "TMPDIR="+dir, "HOME="+dir, "GOTRACEBACK=all")
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	cmd.Run()
	out := buf.String()
	fatal := strings.Contains(out, "fatal error:") || strings.Contains(out, "\npanic:") || strings.HasPrefix(out, "panic:")
	hang := strings.Contains(out, "test timed out") || strings.Contains(out, "deadlock:") || ctx.Err() != nil
	done := strings.Contains(out, "REPLAY-DONE")
	div := strings.Contains(out, "REPLAY-DIVERGED")
	failed := strings.Contains(out, "REPLAY-FAIL") || ((fatal || hang) && !strings.Contains(out, "REPLAY-UNAVAILABLE"))
	if strings.Contains(out, "REPLAY-UNAVAILABLE") {
		return "unavailable", out
	}
	if rf.Kind == "probe" { // only what the run itself shows counts
		switch {
		case div || hang:
			return "diverged", out
		case strings.Contains(out, "REPLAY-FAIL"):
			return "reproduced", out
		case done:
			return "holds", out
		}
		return "diverged", out
	}
	if rf.Kind == "validate" {
		switch {
		case failed:
			return "mismatch", out
		case div:
			return "mismatch", out
		case done:
			return "ok", out
		}
		return "unavailable", out
	}
	rep := false
	switch rf.Kind {
	case "assert":
		rep = strings.Contains(out, "REPLAY-FAIL assert: "+rf.Label+"\n")
	case "panic", "exit":
		rep = strings.Contains(out, "REPLAY-FAIL panic") || (fatal && !strings.Contains(out, "test timed out"))
	case "deadlock", "hang":
		rep = hang
	case "race":
		rep = failed
	}
	switch {
	case rep:
		return "reproduced", out
	case failed:
		return "reproduced", out
	case div:
		return "diverged", out
	case done && rf.Kind == "race":
		return "race by happens-before analysis of the replayed schedule", out
	case done:
		return "holds", out
	}
	return "diverged", out
}

func sortedKeysM[V any](m map[string]V) []string {
	k := map[string]int{}
	for s := range m {
		k[s] = 1
	}
	return sortedKeys(k)
}

// replayMain runs a recorded counterexample again.
func replayMain(args []string) {
	var rf replayFile
	b, err := os.ReadFile(args[0])
	if err != nil || json.Unmarshal(b, &rf) != nil {
		fmt.Println("cannot read", args[0], err)
		return
	}
	tmp, _ := os.MkdirTemp("", "gosym")
	defer os.RemoveAll(tmp)
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	prog, err := loadProgram(repo, filepath.Join(verifDir(), "harness"), tmp, []string{entryPkg(rf.Entry)})
	if err != nil {
		fmt.Println(err)
		return
	}
	st, out := newReplayer(prog, tmp).run(rf.Entry, rf, filepath.Join(tmp, "replay.json"))
	fmt.Println(out)
	fmt.Println("result:", st)
}
