package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gosym run|check ...")
		os.Exit(0)
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(20 << 30)
	switch os.Args[1] {
	case "run":
		devRun(os.Args[2:])
	case "check":
		os.Exit(checkMain(os.Args[2:]))
	case "replay":
		replayMain(os.Args[2:])
	case "props":
		for _, k := range sortedKeysM(propTable) {
			fmt.Println(k)
		}
	}
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func devRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	entry := fs.String("entry", "", "pkg.Func under zzverif")
	nw := fs.Int("j", 8, "")
	tmo := fs.Int("t", 120, "seconds")
	intm := fs.Bool("int", false, "")
	race := fs.Bool("race", false, "")
	mo := fs.Bool("maporder", false, "")
	fires := fs.Int("fires", 6, "")
	qms := fs.Int("q", 10000, "")
	pre := fs.Int("preempt", -1, "")
	params := fs.String("p", "", "k=v,...")
	prof := fs.String("prof", "", "")
	trace := fs.Bool("trace", false, "")
	nopor := fs.Bool("nopor", false, "")
	nodpor := fs.Bool("nodpor", false, "")
	maxp := fs.Int("maxpaths", 0, "")
	loop := fs.Int("loop", 2000, "")
	fs.Parse(args)
	tmp, _ := os.MkdirTemp("", "gosym")
	defer os.RemoveAll(tmp)
	t0 := time.Now()
	pk := *entry
	pk = pk[:strings.LastIndex(pk, ".")]
	prog, err := loadProgram(*repo, filepath.Join(verifDir(), "harness"), tmp, []string{modPath + "/zzverif/" + pk})
	if err != nil {
		fmt.Println(err)
		return
	}
	fmt.Printf("load %.1fs\n", time.Since(t0).Seconds())
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	cfg := defaultCfg()
	cfg.Name = *entry
	cfg.Entry = modPath + "/zzverif/" + *entry
	cfg.QueryMs = *qms
	cfg.IntMode = *intm
	cfg.RaceOn = *race
	cfg.MapOrder = *mo
	cfg.MaxFires = *fires
	cfg.Preempt = *pre
	cfg.Trace = *trace
	cfg.NoPOR = *nopor
	cfg.NoDPOR = *nodpor || *pre >= 0
	cfg.MaxPaths = *maxp
	cfg.MaxLoop = *loop
	cfg.Deadline = time.Now().Add(time.Duration(*tmo) * time.Second)
	for _, kv := range strings.Split(*params, ",") {
		if k, v, ok := strings.Cut(kv, "="); ok {
			n := 0
			fmt.Sscan(v, &n)
			cfg.Params[k] = n
		}
	}
	r := explore(prog, cfg, *nw)
	printResult(r)
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	fmt.Printf("heap sys %d MB\n", ms.Sys>>20)
}

func defaultCfg() *Config {
	return &Config{QueryMs: 10000, MaxSteps: 3_000_000, MaxLoop: 2000, MaxConc: 64, MaxFires: 6, Preempt: -1, Params: map[string]int{}, started: time.Now()}
}

func printResult(r *Result1) {
	fmt.Printf("== %s: paths %d %v asserts %d steps %d scheds %d wall %.1fs complete=%v\n", r.Name, r.Paths, r.Ends, r.Asserts, r.Steps, r.Scheds, r.Wall.Seconds(), r.Complete)
	fmt.Printf("   solver: %d queries (%d sat %d unsat %d unknown) %.1fs max %.2fs errors %d restarts %d cached %d\n", r.Stats.Queries, r.Stats.Sat, r.Stats.Unsat, r.Stats.Unknown, r.Stats.Time.Seconds(), r.Stats.MaxQuery.Seconds(), r.Stats.Errors, r.Stats.Restarts, r.Stats.Cached)
	fmt.Printf("   covers: %v\n", r.Reached)
	for _, k := range sortedKeys(r.Incon) {
		fmt.Printf("   inconclusive x%d: %s\n", r.Incon[k], k)
	}
	for _, v := range r.Viols {
		fmt.Printf("   VIOL %s: %s | %s\n", v.Kind, v.Label, v.Detail)
		for _, in := range v.Inputs {
			if in.Kind == "bytes" {
				fmt.Printf("      %s = %q\n", in.Name, in.B)
			} else {
				fmt.Printf("      %s = %d\n", in.Name, in.V)
			}
		}
		for i, s := range v.Sched {
			if i < len(v.Sched)-25 {
				continue
			}
			fmt.Printf("      sched g%d %s %s\n", s.G, s.What, s.Pos)
		}
		fmt.Println("     ", strings.ReplaceAll(v.Stack, "\n", "\n      "))
	}
}
