package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Entry is one harness of a property with its bounds.
type Entry struct {
	Fn       string
	Quick    P // parameters (bounds) of the quick tier
	Thorough P
	Int      bool // integer (not bit-vector) encoding is tried first
	Race     bool
	MapOrder bool
	Fires    int
	Loop     int
	QMs      int
	Preempt  int // 0: unbounded, n>0: at most n preemptions
	Secs     [2]int
	Covers   []string // labels that have to be reached
	Bounds   string
	Env      []string // assumptions
}

type P map[string]int

// Prop is a property with the harnesses that decide it.
type Prop struct {
	ID      string
	Entries []Entry
	Assume  []string
	Outside string
}

type replayFile struct {
	Property string
	Entry    string
	Kind     string
	Label    string
	Detail   string
	Inputs   []ReplayVal
	Params   map[string]int
	Sched    []SchedStep
	Stack    []string
	Status   string
	Output   string
}

type knownFinding struct {
	Property string `json:"property"`
	Entry    string `json:"entry"`
	Kind     string `json:"kind"`
	Label    string `json:"label"`
	Where    string `json:"where"`
	What     string `json:"what"`
}

func loadKnown(dir, prop string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(dir, "KNOWN_FINDINGS.jsonl"))
	if err != nil {
		return nil
	}
	var r []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		var k knownFinding
		if strings.HasPrefix(l, "{") && json.Unmarshal([]byte(l), &k) == nil && k.Property == prop {
			r = append(r, k)
		}
	}
	return r
}

type entryReport struct {
	Entry      string         `json:"harness"`
	Bounds     string         `json:"bounds"`
	Params     map[string]int `json:"parameters"`
	Paths      int            `json:"paths"`
	Ends       map[string]int `json:"path_ends"`
	Asserts    int            `json:"assertions_decided"`
	Queries    int            `json:"solver_queries"`
	Unsat      int            `json:"unsat"`
	Sat        int            `json:"sat"`
	Unknown    int            `json:"unknown"`
	SolverS    float64        `json:"solver_s"`
	WallS      float64        `json:"wall_s"`
	Complete   bool           `json:"complete"`
	Incon      map[string]int `json:"inconclusive,omitempty"`
	Reached    map[string]int `json:"covers_reached"`
	Violations []string       `json:"violations,omitempty"`
	Validated  int            `json:"paths_validated_natively"`
	Probed     int            `json:"unfinished_paths_run_natively,omitempty"`
	Mismatch   []string       `json:"native_mismatches,omitempty"`
}

var safeName = regexp.MustCompile(`[^A-Za-z0-9_.-]+`)

func checkMain(args []string) int {
	if len(args) == 0 {
		fmt.Println("usage: gosym check <property> [quick|thorough]")
		return 0
	}
	id := args[0]
	tier := os.Getenv("VERIF_TIER")
	if len(args) > 1 {
		tier = args[1]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	pr := propTable[id]
	if pr == nil {
		fmt.Println("unknown property", id)
		return 0
	}
	t0 := time.Now()
	vdir := verifDir()
	evDir := filepath.Join(vdir, "evidence")
	os.MkdirAll(filepath.Join(evDir, "replay"), 0o755)
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Println(err)
		return 0
	}
	defer os.RemoveAll(tmp)

	pk := map[string]bool{}
	var pats []string
	for _, e := range pr.Entries {
		p := entryPkg(e.Fn)
		if !pk[p] {
			pk[p] = true
			pats = append(pats, p)
		}
	}
	prog, lerr := loadProgram(repo, filepath.Join(vdir, "harness"), tmp, pats)
	loadS := time.Since(t0).Seconds()

	var reps []entryReport
	funcs := map[string]bool{}
	var tot SolverStats
	var steps, nodes int64
	var samples []any
	nviol, nknown, validated := 0, 0, 0
	var notes []string
	known := loadKnown(vdir, id)
	maxSecs := 0
	if lerr != nil {
		notes = append(notes, "not encoded: "+lerr.Error())
		fmt.Println("INCONCLUSIVE", id, "cannot load:", lerr)
	} else {
		rb := newReplayer(prog, tmp)
		for _, e := range pr.Entries {
			cfg := defaultCfg()
			cfg.Name = e.Fn
			cfg.Entry = entryPkg(e.Fn) + "." + e.Fn[strings.LastIndex(e.Fn, ".")+1:]
			cfg.IntMode, cfg.RaceOn, cfg.MapOrder = e.Int, e.Race, e.MapOrder
			cfg.QueryMs = 10000
			secs := 60
			ps := e.Quick
			if e.Secs[0] > 0 {
				secs = e.Secs[0]
			}
			if tier == "thorough" {
				if e.Thorough != nil {
					ps = e.Thorough
				}
				secs = 600
				if e.Secs[1] > 0 {
					secs = e.Secs[1]
				}
				cfg.QueryMs = 30000
			}
			if e.QMs > 0 {
				cfg.QueryMs = e.QMs
			}
			if e.Fires > 0 {
				cfg.MaxFires = e.Fires
			}
			if e.Loop > 0 {
				cfg.MaxLoop = e.Loop
			}
			if e.Preempt > 0 {
				cfg.Preempt = e.Preempt
				cfg.NoDPOR = true
			}
			for k, v := range ps {
				cfg.Params[k] = v
				if k == "fires" {
					cfg.MaxFires = v
				}
				if k == "preempt" {
					cfg.Preempt = v
					cfg.NoDPOR = true
				}
			}
			maxSecs += secs
			cfg.started = time.Now()
			cfg.Deadline = cfg.started.Add(time.Duration(secs) * time.Second)
			cfg.KeepSamples = 3
			r := explore(prog, cfg, runtime.NumCPU())
			rep := entryReport{Entry: e.Fn, Bounds: e.Bounds, Params: cfg.Params, Paths: r.Paths, Ends: r.Ends, Asserts: r.Asserts,
				Queries: r.Stats.Queries, Sat: r.Stats.Sat, Unsat: r.Stats.Unsat, Unknown: r.Stats.Unknown, SolverS: r2(r.Stats.Time.Seconds()),
				WallS: r2(r.Wall.Seconds()), Complete: r.Complete, Incon: r.Incon, Reached: r.Reached}
			covers := append([]string{"end"}, e.Covers...)
			if len(r.Viols) == 0 {
				for _, c := range covers {
					if r.Reached[c] == 0 {
						rep.Incon["cover not reached: "+c]++
						rep.Complete = false
					}
				}
			}
			tot.add(&r.Stats)
			steps += r.Steps
			nodes += int64(r.Paths) + int64(r.Scheds)
			for f := range r.Funcs {
				if strings.Contains(f, modPath) && !strings.Contains(f, "/zzverif/") {
					funcs[f] = true
				}
			}
			for i, s := range r.Samples {
				if i < 2 {
					samples = append(samples, map[string]any{"harness": e.Fn, "path": s})
				}
			}
			// translation validation: run some of the explored paths natively
			if len(r.Viols) == 0 {
				for i, pi := range r.PathInputs {
					if len(samples) < 12 {
						samples = append(samples, map[string]any{"harness": e.Fn, "inputs_of_a_path": showInputs(pi)})
					}
					rf := replayFile{Property: id, Entry: e.Fn, Kind: "validate", Inputs: pi, Params: cfg.Params}
					fn := filepath.Join(tmp, fmt.Sprintf("val%d.json", i))
					st, out := rb.run(e.Fn, rf, fn)
					switch st {
					case "ok":
						rep.Validated++
						validated++
					case "unavailable":
						notes = append(notes, e.Fn+": native validation not available: "+firstLine(out))
					default:
						rep.Mismatch = append(rep.Mismatch, st+": "+lastN(out, 400))
					}
					if st == "unavailable" {
						break
					}
				}
			}
			// where the encoding ends, the solver's inputs for the way there are run on the real code
			if len(r.Viols) == 0 {
				for i, pi := range r.CutInputs {
					rf := replayFile{Property: id, Entry: e.Fn, Kind: "probe", Inputs: pi, Params: cfg.Params}
					path := filepath.Join(evDir, "replay", safeName.ReplaceAllString(fmt.Sprintf("%s-%s-cut%d.json", id, e.Fn, i), "_"))
					st, out := rb.run(e.Fn, rf, path)
					if st == "unavailable" {
						os.Remove(path)
						break
					}
					rep.Probed++
					if st != "reproduced" {
						os.Remove(path)
						continue
					}
					rf.Status, rf.Output = st, lastN(out, 6000)
					writeJSON(path, rf)
					desc := "fails on the real code, beyond what could be encoded: " + failLine(out)
					if k := matchKnown(known, e.Fn, &Violation{Kind: "assert", Label: strings.TrimPrefix(failLine(out), "REPLAY-FAIL assert: "), Inputs: pi}); k != nil {
						nknown++
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
						continue
					}
					rep.Violations = append(rep.Violations, desc)
					nviol++
					fmt.Printf("  %s %s\n", e.Fn, desc)
					for _, in := range pi {
						fmt.Printf("    %s\n", showInput(in))
					}
					fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
					break
				}
			}
			for i, v := range r.Viols {
				desc := fmt.Sprintf("%s: %s (%s)", v.Kind, v.Label, v.Detail)
				path := filepath.Join(evDir, "replay", safeName.ReplaceAllString(fmt.Sprintf("%s-%s-%d.json", id, e.Fn, i), "_"))
				rf := replayFile{Property: id, Entry: e.Fn, Kind: v.Kind, Label: v.Label, Detail: v.Detail, Inputs: v.Inputs, Params: cfg.Params,
					Sched: v.Sched, Stack: strings.Split(v.Stack, "\n")}
				st, out := rb.run(e.Fn, rf, path)
				rf.Status, rf.Output = st, lastN(out, 6000)
				writeJSON(path, rf)
				if k := matchKnown(known, e.Fn, v); k != nil {
					nknown++
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
					continue
				}
				rep.Violations = append(rep.Violations, desc+" ["+st+"]")
				if st == "holds" || (v.Kind == "hang" && st != "reproduced") {
					notes = append(notes, fmt.Sprintf("%s: counterexample not confirmed by the real code, not reported: %s", e.Fn, desc))
					rep.Incon["unconfirmed counterexample: "+desc]++
					rep.Complete = false
					fmt.Printf("UNCONFIRMED %s %s %s\n", id, e.Fn, desc)
					continue
				}
				nviol++
				fmt.Printf("  %s %s\n  replay against the real code: %s\n", e.Fn, desc, st)
				for _, in := range v.Inputs {
					fmt.Printf("    %s\n", showInput(in))
				}
				for j, s := range v.Sched {
					if j < 60 {
						fmt.Printf("    g%d %s %s\n", s.G, s.What, s.Pos)
					}
				}
				fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			}
			reps = append(reps, rep)
			fmt.Printf("%-28s paths %d asserts %d queries %d solver %.1fs wall %.1fs complete=%v violations %d validated %d\n", e.Fn, r.Paths, r.Asserts, r.Stats.Queries, r.Stats.Time.Seconds(), r.Wall.Seconds(), rep.Complete, len(rep.Violations), rep.Validated)
			for _, k := range sortedKeys(rep.Incon) {
				fmt.Printf("   INCONCLUSIVE x%d %s\n", rep.Incon[k], k)
			}
			for _, m := range rep.Mismatch {
				fmt.Printf("   NATIVE MISMATCH %s\n", m)
			}
			if nviol >= 3 {
				break
			}
		}
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, strings.ReplaceAll(f, modPath+"/", ""))
	}
	sort.Strings(fl)
	complete := lerr == nil
	for _, r := range reps {
		complete = complete && r.Complete
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": nodes, "transitions": steps, "traces_validated_against_impl": validated,
			"rule":              "states: completed symbolic paths plus scheduling decisions; transitions: SSA instructions executed symbolically; traces validated: paths whose solver model was run natively on the compiled code with the same result",
			"samples":           samples,
			"exhaustive":        complete,
			"functions_encoded": fl,
			"harnesses":         reps,
			"solver": map[string]any{"queries": tot.Queries, "sat": tot.Sat, "unsat": tot.Unsat, "unknown": tot.Unknown,
				"time_s": r2(tot.Time.Seconds()), "max_query_s": r2(tot.MaxQuery.Seconds()), "errors": tot.Errors, "answered_from_cache": tot.Cached},
			"outside_bounds": pr.Outside,
			"known_findings": nknown,
			"load_s":         r2(loadS),
			"notes":          notes,
		},
		"assumptions": append([]string{
			"sequentially consistent memory (justified by the race check where goroutines share data)",
			"the checker's model of Go (interpreter over go/ssa, modelled runtime, sync, atomic, time) is trusted; paths are validated natively by sample",
		}, pr.Assume...),
		"wall_s": r2(time.Since(t0).Seconds()), "violations": nviol,
	}
	writeJSON(filepath.Join(evDir, id+".json"), ev)
	fmt.Printf("%s %s: violations %d known %d complete=%v queries %d solver %.1fs wall %.1fs\n", id, tier, nviol, nknown, complete, tot.Queries, tot.Time.Seconds(), time.Since(t0).Seconds())
	if nviol > 0 {
		return 1
	}
	return 0
}

func matchKnown(ks []knownFinding, entry string, v *Violation) *knownFinding {
	for i := range ks {
		k := &ks[i]
		if k.Entry == entry && k.Kind == v.Kind && k.Label == v.Label && (k.Where == "" || strings.Contains(v.Stack, k.Where)) {
			return k
		}
	}
	return nil
}

func entryPkg(fn string) string {
	pk := fn[:strings.LastIndex(fn, ".")]
	if strings.HasPrefix(pk, "./") {
		return modPath + "/" + pk[2:]
	}
	return modPath + "/zzverif/" + pk
}

func r2(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func firstLine(s string) string {
	s, _, _ = strings.Cut(s, "\n")
	return s
}

func lastN(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func writeJSON(name string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		err = os.WriteFile(name, append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Println("cannot write", name, err)
	}
}

// failLine is the line of a replay's output that tells of a failure.
func failLine(out string) string {
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "REPLAY-FAIL") {
			return l
		}
	}
	return firstLine(out)
}

func showInput(in ReplayVal) string {
	if in.Kind == "bytes" {
		return fmt.Sprintf("%s = %q", in.Name, in.B)
	}
	return fmt.Sprintf("%s = %d", in.Name, in.V)
}

func showInputs(l []ReplayVal) []string {
	var r []string
	for _, x := range l {
		r = append(r, showInput(x))
	}
	return r
}
