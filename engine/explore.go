package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Result of exploring one harness.
type Result1 struct {
	Name       string
	Paths      int
	Ends       map[string]int
	Viols      []*Violation
	Incon      map[string]int
	Reached    map[string]int
	Asserts    int
	Steps      int64
	Scheds     int64
	Funcs      map[string]int
	Stats      SolverStats
	Wall       time.Duration
	Complete   bool
	Samples    []string
	PathInputs [][]ReplayVal
	CutInputs  [][]ReplayVal // of paths the encoding could not follow to their end
}

type explorer struct {
	mu    sync.Mutex
	cond  *sync.Cond
	queue []PathItem
	busy  int
	stop  bool
	res   *Result1
	seen  map[string]bool
	cfg   *Config
	nCut  int
	nOK   int
}

func explore(prog *Program, cfg *Config, nw int) *Result1 {
	t0 := time.Now()
	ex := &explorer{cfg: cfg, res: &Result1{Name: cfg.Name, Ends: map[string]int{}, Incon: map[string]int{}, Reached: map[string]int{}, Funcs: map[string]int{}}, seen: map[string]bool{}}
	ex.cond = sync.NewCond(&ex.mu)
	ex.queue = []PathItem{{model: Model{}}}
	i := strings.LastIndex(cfg.Entry, ".")
	pk := prog.byPath[cfg.Entry[:i]]
	var fn *ssa.Function
	if pk != nil {
		pk.Build()
		fn = pk.Func(cfg.Entry[i+1:])
	}
	if fn == nil {
		ex.res.Incon["no harness "+cfg.Entry]++
		return ex.res
	}
	var wg sync.WaitGroup
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := newWorker(prog, cfg)
			defer func() { ex.collect(w); w.close() }()
			for {
				it, ok := ex.pop()
				if !ok {
					return
				}
				p := w.runPath(it, fn)
				ex.done(p)
				if int(w.ts.next) > 4_000_000 {
					ex.collect(w)
					w.close()
					w = newWorker(prog, cfg)
				}
			}
		}()
	}
	wg.Wait()
	ex.res.Wall = time.Since(t0)
	ex.res.Complete = !ex.stop && len(ex.res.Incon) == 0
	return ex.res
}

func (ex *explorer) collect(w *Worker) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	r := ex.res
	r.Stats.add(&w.stats)
	for f, n := range w.funcsSeen {
		r.Funcs[f.String()] += n
	}
	for m, n := range w.unsupSeen {
		r.Incon[m] += n
	}
}

func (ex *explorer) pop() (PathItem, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop {
			return PathItem{}, false
		}
		if n := len(ex.queue); n > 0 {
			it := ex.queue[n-1]
			ex.queue = ex.queue[:n-1]
			ex.busy++
			return it, true
		}
		if ex.busy == 0 {
			ex.cond.Broadcast()
			return PathItem{}, false
		}
		ex.cond.Wait()
	}
}

func (ex *explorer) done(p *Path) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.busy--
	r := ex.res
	r.Paths++
	r.Ends[p.endKind]++
	r.Asserts += p.asserts
	r.Steps += int64(p.steps)
	r.Scheds += int64(p.nSched)
	for k := range p.reached {
		r.Reached[k]++
	}
	for _, m := range p.incon {
		r.Incon[m]++
	}
	switch p.endKind {
	case "unsupported", "limit", "unknown", "deadline", "engine", "bound-incon":
		r.Incon[p.endKind+": "+p.endMsg]++
	}
	for _, v := range p.viols {
		k := v.Kind + "|" + v.Label
		if !ex.seen[k] {
			ex.seen[k] = true
			r.Viols = append(r.Viols, v)
		}
	}
	if len(r.Samples) < 5 {
		r.Samples = append(r.Samples, fmt.Sprintf("%s: %s (decisions %d, constraints %d)", p.endKind, p.endMsg, len(p.dec), len(p.pc)))
	}
	if p.endKind == "ok" && p.okInputs != nil {
		ex.nOK++
		// the first paths and a later one
		if len(r.PathInputs) < ex.cfg.KeepSamples {
			r.PathInputs = append(r.PathInputs, p.okInputs)
		} else if ex.nOK&(ex.nOK-1) == 0 {
			r.PathInputs[len(r.PathInputs)-1] = p.okInputs
		}
	}
	if p.endKind != "ok" && p.okInputs != nil {
		ex.nCut++
		if len(r.CutInputs) < 16 {
			r.CutInputs = append(r.CutInputs, p.okInputs)
		} else if n := ex.nCut; n%(n/16) == 0 {
			r.CutInputs[8+n/(n/16)%8] = p.okInputs
		}
	}
	ex.queue = append(ex.queue, p.alts...)
	if p.endKind == "deadline" || time.Now().After(ex.cfg.Deadline) {
		if len(ex.queue) > 0 || p.endKind == "deadline" {
			ex.stop = true
			r.Incon["deadline reached"]++
		}
	}
	if ex.cfg.MaxPaths > 0 && r.Paths >= ex.cfg.MaxPaths && len(ex.queue) > 0 {
		ex.stop = true
		r.Incon["path limit reached"]++
	}
	if len(r.Viols) >= 3 || (len(r.Viols) > 0 && time.Since(ex.cfg.started) > 15*time.Second) {
		ex.stop = true
	}
	ex.cond.Broadcast()
}

// runPath executes one path from the decision prefix.
func (w *Worker) runPath(it PathItem, fn *ssa.Function) (p *Path) {
	w.pathSeq++
	m := Model{}
	for k, v := range it.model {
		m[k] = v
	}
	p = &Path{w: w, cfg: w.cfg, id: w.pathSeq, prefix: it.prefix, varSeen: map[int32]bool{}, known: map[int32]bool{},
		addrs: map[Value]uint64{}, syncs: map[*Value]*SyncObj{}, shadow: map[*Value]*shadowCell{}, reached: map[string]bool{},
		ghosts: map[string]*Value{}, extra: map[string]any{}}
	p.planNodes = it.nodes
	p.setModel(m)
	p.now = w.ts.BV(uint64(startTime), 64)
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathEnd:
				p.endKind, p.endMsg = x.kind, x.msg
			case unsupported:
				p.endKind, p.endMsg = "unsupported", x.msg
				if os.Getenv("GOSYM_DEBUG") != "" && p.cur != nil {
					p.endMsg += "\n" + p.cur.stack()
				}
			case goPanic:
				p.endKind, p.endMsg = "engine", "stray panic "+p.panicText(x.val)
			default:
				if os.Getenv("GOSYM_DEBUG") != "" {
					panic(r)
				}
				p.endKind, p.endMsg = "engine", fmt.Sprint(r)
				if p.cur != nil {
					p.endMsg += " at " + p.cur.where()
				}
			}
		}
		if (p.endKind == "unsupported" || p.endKind == "engine") && w.cfg.KeepSamples > 0 && len(p.gors) == 1 && len(p.viols) == 0 {
			p.okInputs = append([]ReplayVal{}, p.inputsOf(p.model)...)
		}
		p.analyse()
		p.undoAll()
	}()
	p.bootAll(fn)
	main := &Gor{id: 0}
	main.tickInit()
	p.gors = []*Gor{main}
	p.cur = main
	p.pushCall(main, &FuncVal{fn: fn}, nil, -1, 0)
	p.run(main)
	p.endKind = "ok"
	if w.cfg.KeepSamples > 0 && len(p.gors) == 1 && len(p.viols) == 0 {
		p.okInputs = append([]ReplayVal{}, p.inputsOf(p.model)...)
	}
	return p
}

const startTime = int64(946684800) * 1e9

func (p *Path) bootAll(fn *ssa.Function) { p.ensureInit(fn.Pkg) }

func (p *Path) undoAll() {
	for i := len(p.undo) - 1; i >= 0; i-- {
		*p.undo[i].a = p.undo[i].old
	}
	for i := len(p.undoFns) - 1; i >= 0; i-- {
		p.undoFns[i]()
	}
	p.undo = nil
	p.undoFns = nil
}

func sortedKeys(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
