// Command verifsim runs simulated executions of the concurrency packages.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"log"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe/internal/verifsim/kit"
)

// Scenario is one workload with its oracle.
type Scenario struct {
	Name   string
	Weight int
	Tune   kit.Tune
	Run    func(w *kit.W)
	// Rare scenarios are long: they take one run of every Rare.
	Rare int
	// Race marks scenarios that also run under the race detector.
	Race bool
}

var props = map[string][]Scenario{}

func register(prop string, s ...Scenario) { props[prop] = append(props[prop], s...) }

// Report is the outcome of one run.
type Report struct {
	Prop      string             `json:"prop"`
	Scenario  string             `json:"scenario"`
	Seed      uint64             `json:"seed"`
	Status    int                `json:"status"`
	Class     string             `json:"class"`
	Msg       string             `json:"msg"`
	Hash      string             `json:"hash"`
	Steps     uint64             `json:"steps"`
	Now       int64              `json:"now"`
	Choices   []uint32           `json:"choices"`
	Decisions []runtime.SimDec   `json:"decisions,omitempty"`
	Config    *runtime.SimConfig `json:"config,omitempty"`
	Overflow  bool               `json:"overflow,omitempty"`
	Events    []string           `json:"events,omitempty"`
	Sched     []string           `json:"sched,omitempty"`
	Dump      string             `json:"dump,omitempty"`
}

// Spec is a run to execute exactly.
type Spec struct {
	Prop      string             `json:"prop"`
	Scenario  string             `json:"scenario"`
	Seed      uint64             `json:"seed"`
	Choices   []uint32           `json:"choices"`
	HasChoice bool               `json:"has_choices"`
	Config    *runtime.SimConfig `json:"config"`
	Replay    bool               `json:"replay"`
	Decisions []runtime.SimDec   `json:"decisions"`
	// Search: try that many schedule seeds with the given choices.
	Search int  `json:"search"`
	Full   bool `json:"full"`
}

type stats struct {
	Runs      int            `json:"runs"`
	Steps     uint64         `json:"steps"`
	Switches  uint64         `json:"switches"`
	Preempts  uint64         `json:"preempts"`
	Kinds     [8]uint64      `json:"kinds"`
	SimNs     int64          `json:"sim_ns"`
	Jumps     uint64         `json:"clock_jumps"`
	Stalls    uint64         `json:"stalls"`
	Holds     uint64         `json:"holds"`
	Drops     uint64         `json:"pool_drops"`
	Env       uint64         `json:"env_choices"`
	Idle      uint64         `json:"idle_advances"`
	Fair      int            `json:"fair_phase_runs"`
	Multi     int            `json:"multi_goroutine_runs"`
	MaxG      int            `json:"max_goroutines"`
	Strat     map[string]int `json:"strategies"`
	Faults    map[string]int `json:"faults"`
	Cover     map[string]int `json:"cover"`
	Scenarios map[string]int `json:"scenarios"`
	Known     map[string]int `json:"known"`
	Samples   []string       `json:"samples"`
	WallS     float64        `json:"wall_s"`
	// Next is set when the worker stopped early to be restarted there.
	Next int `json:"next,omitempty"`
	// Timeout is set when the wall limit ended the batch.
	Timeout bool `json:"timeout,omitempty"`
}

var stratNames = []string{"serial", "random", "pct", "replay", "roundrobin"}

func find(prop, name string) *Scenario {
	for i := range props[prop] {
		if props[prop][i].Name == name {
			return &props[prop][i]
		}
	}
	return nil
}

func classOf(status int, msg string) string {
	switch status {
	case runtime.SimDeadlock:
		return "deadlock"
	case runtime.SimNoProgress:
		return "no-progress"
	case runtime.SimExit:
		return "os.Exit"
	case runtime.SimPanic:
		l := strings.SplitN(msg, "\n", 2)[0]
		return l
	}
	return strings.SplitN(msg, ":", 2)[0]
}

func runOne(s *Scenario, w *kit.W, cfg *runtime.SimConfig) runtime.SimResult {
	n := raceErrors()
	kit.Log.Reset(w)
	r := runtime.SimRun(cfg, func() { s.Run(w) })
	if r.Status == runtime.SimExit {
		r.Msg += " " + kit.Log.Last()
	}
	if kit.RaceMode {
		// The oracles belong to the other build: here only the race detector
		// judges.
		r.Status, r.Msg = runtime.SimOK, ""
		if raceErrors() > n {
			r.Status, r.Msg = runtime.SimFailed, raceText()
		}
	}
	return r
}

func report(prop string, s *Scenario, w *kit.W, cfg *runtime.SimConfig, r runtime.SimResult, full bool) *Report {
	rep := &Report{Prop: prop, Scenario: s.Name, Seed: w.Seed, Status: r.Status, Msg: r.Msg,
		Hash: fmt.Sprintf("%016x", r.Hash), Steps: r.Steps, Now: r.Now, Choices: w.Choices, Overflow: r.Overflow}
	if r.Status != runtime.SimOK {
		rep.Class = classOf(r.Status, r.Msg)
	}
	if full {
		c := *cfg
		c.Replay = nil
		rep.Config = &c
		rep.Decisions = runtime.SimDecisions()
		for _, e := range w.Events {
			rep.Events = append(rep.Events, fmt.Sprintf("#%d t=%dns g%d %s %d %d", e.Seq, e.T, e.G, e.Name, e.A, e.B))
		}
		for i, d := range rep.Decisions {
			if i >= 200 {
				rep.Sched = append(rep.Sched, "...")
				break
			}
			rep.Sched = append(rep.Sched, describe(d))
		}
		if r.Status == runtime.SimDeadlock || r.Status == runtime.SimNoProgress {
			buf := make([]byte, 1<<21)
			n := runtime.Stack(buf, true)
			rep.Dump = string(buf[:n])
		}
	}
	return rep
}

var kindNames = []string{"chan", "lock", "atomic", "spawn", "memory", "func", "yield", "block"}

func describe(d runtime.SimDec) string {
	at := ""
	if d.PC != 0 {
		fr, _ := runtime.CallersFrames([]uintptr{uintptr(d.PC)}).Next()
		f := fr.File
		if i := strings.Index(f, "/concurrency/"); i >= 0 {
			f = f[i+1:]
		}
		at = fmt.Sprintf(" at %s (%s:%d)", fr.Function, f, fr.Line)
	}
	switch d.Class {
	case 0:
		return fmt.Sprintf("g%d preempted before %s op #%d%s; g%d runs", d.G, kindNames[d.Kind], d.N, at, d.Val)
	case 1:
		return fmt.Sprintf("g%d blocked or exited (#%d); g%d runs", d.G, d.N, d.Val)
	case 2:
		return fmt.Sprintf("g%d at op #%d%s: clock jumps to the next timer", d.G, d.N, at)
	}
	return fmt.Sprintf("g%d environment choice #%d = %d", d.G, d.N, d.Val)
}

func emit(v any) {
	b, _ := json.Marshal(v)
	os.Stdout.Write(append(b, '\n'))
}

// warmup fills the process-wide caches (reflect, json) that would otherwise
// make a run depend on the runs before it.
func warmup(prop string) {
	w := kit.NewW(1, prop)
	cfg := runtime.SimConfig{Seed: 1, Strategy: runtime.SimStratSerial, SoftSteps: 200000, MaxSteps: 400000, NumCPU: 2}
	runOne(&Scenario{Run: warmTypes}, w, &cfg)
	w = kit.NewW(1, prop)
	cfg.SoftSteps, cfg.MaxSteps = 4000000, 8000000
	runOne(&Scenario{Run: settleCaches}, w, &cfg)
	for i := range props[prop] {
		s := &props[prop][i]
		if kit.RaceMode && !s.Race || s.Rare > 0 {
			continue
		}
		for seed := uint64(1); seed <= 16; seed++ {
			w := kit.NewW(seed, prop)
			cfg := runtime.SimConfig{Seed: seed, Strategy: runtime.SimStratSerial, SoftSteps: 200000, MaxSteps: 400000, NumCPU: 2}
			runOne(s, w, &cfg)
		}
	}
}

func main() {
	prop := flag.String("prop", "", "property")
	base := flag.Uint64("base", 1, "base seed")
	start := flag.Int("start", 0, "first run index")
	stride := flag.Int("stride", 1, "index stride")
	count := flag.Int("count", 100, "number of runs")
	secs := flag.Float64("secs", 0, "wall limit")
	state := flag.String("state", "", "progress file")
	hashes := flag.String("hashes", "", "file for the run hashes")
	spec := flag.String("spec", "", "execute the runs of this file (JSON lines)")
	mini := flag.String("minimize", "", "minimise the failing run of this file")
	known := flag.String("known", "", "known finding classes, comma separated scenario/class")
	only := flag.String("only", "", "only this scenario")
	list := flag.Bool("list", false, "list scenarios")
	hashOnly := flag.Bool("trace", false, "print every run's hash (determinism test)")
	flag.Parse()

	// C25 runs every race-enabled scenario of the other properties.
	var names []string
	for p := range props {
		names = append(names, p)
	}
	sort.Strings(names)
	for _, p := range names {
		for _, s := range props[p] {
			if s.Race {
				s.Name = p + "/" + s.Name
				register("C25", s)
			}
		}
	}

	debug.SetGCPercent(-1)
	runtime.GOMAXPROCS(1)
	runtime.MemProfileRate = 0
	kit.RaceMode = raceMode
	log.SetOutput(kit.Log)
	log.SetFlags(0)

	if *list {
		for p, ss := range props {
			for _, s := range ss {
				fmt.Println(p, s.Name, s.Race)
			}
		}
		return
	}
	if *spec != "" {
		runSpecs(*spec)
		return
	}
	if *mini != "" {
		minimize(*mini, *secs)
		return
	}
	var table, rare []*Scenario
	for i := range props[*prop] {
		s := &props[*prop][i]
		if *only != "" && s.Name != *only {
			continue
		}
		if kit.RaceMode && !s.Race {
			continue
		}
		if s.Rare > 0 && *only == "" {
			rare = append(rare, s)
			continue
		}
		wt := s.Weight
		if wt == 0 {
			wt = 1
		}
		for k := 0; k < wt; k++ {
			table = append(table, s)
		}
	}
	if len(table) == 0 {
		fmt.Fprintln(os.Stderr, "no scenario for", *prop)
		os.Exit(2)
	}
	kn := map[string]bool{}
	for _, k := range strings.Split(*known, "\x1f") {
		if k != "" {
			kn[k] = true
		}
	}
	warmup(*prop)
	var sf *os.File
	if *state != "" {
		sf, _ = os.Create(*state)
	}
	st := stats{Strat: map[string]int{}, Faults: map[string]int{}, Cover: map[string]int{}, Scenarios: map[string]int{}, Known: map[string]int{}}
	var hs []byte
	t0 := realNow()
	var ms runtime.MemStats
	for i := 0; i < *count; i++ {
		idx := *start + i**stride
		seed := *base<<32 + uint64(idx)
		s := table[int((seed*0x9e3779b97f4a7c15)>>33)%len(table)]
		for k, x := range rare {
			if idx%x.Rare == x.Rare/2+k {
				s = x
			}
		}
		if sf != nil {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], uint64(idx)+1)
			sf.WriteAt(b[:], 0)
		}
		cfg := kit.Config(seed, s.Tune)
		w := kit.NewW(seed, *prop)
		r := runOne(s, w, &cfg)
		st.Runs++
		st.Steps += r.Steps
		st.Switches += r.Switches
		st.Preempts += r.Preempts
		for k := range r.Kinds {
			st.Kinds[k] += r.Kinds[k]
		}
		st.SimNs += r.Now
		st.Jumps += r.Jumps
		st.Stalls += r.Stalls
		st.Holds += r.Holds
		st.Drops += r.Drops
		st.Env += r.EnvNon0
		st.Idle += r.Idle
		if r.Fair {
			st.Fair++
		}
		if r.MaxG > 1 && r.Preempts+r.Switches > 2 {
			st.Multi++
		}
		if r.MaxG > st.MaxG {
			st.MaxG = r.MaxG
		}
		st.Strat[stratNames[cfg.Strategy]]++
		st.Scenarios[s.Name]++
		for k, v := range w.Faults {
			st.Faults[k] += v
		}
		for k, v := range w.Cover {
			st.Cover[k] += v
		}
		if r.MaxG > 1 && r.Preempts+r.Switches > 2 {
			hs = binary.LittleEndian.AppendUint64(hs, r.Hash)
		}
		if *hashOnly {
			fmt.Println(idx, s.Name, r.Status, r.Steps, fmt.Sprintf("%016x", r.Hash))
		}
		if len(st.Samples) < 3 {
			st.Samples = append(st.Samples, sample(s, w, &cfg, r))
		}
		if r.Status != runtime.SimOK {
			if kn[s.Name+"/"+classOf(r.Status, r.Msg)] {
				st.Known[s.Name+"/"+classOf(r.Status, r.Msg)]++
			} else {
				emit(map[string]any{"violation": report(*prop, s, w, &cfg, r, true)})
				break
			}
		}
		if i%64 == 63 {
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 192<<20 {
				runtime.GC()
				runtime.ReadMemStats(&ms)
			}
			if ms.HeapAlloc > 1<<30 || ms.StackInuse > 1<<30 {
				st.Next = i + 1
				break
			}
			if *secs > 0 && (realNow()-t0) > int64(*secs*1e9) {
				st.Timeout = true
				break
			}
		}
	}
	st.WallS = float64(realNow()-t0) / 1e9
	if *hashes != "" {
		os.WriteFile(*hashes, hs, 0o644)
	}
	emit(map[string]any{"stats": st})
}

func sample(s *Scenario, w *kit.W, cfg *runtime.SimConfig, r runtime.SimResult) string {
	var fs []string
	for k, v := range w.Faults {
		fs = append(fs, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(fs)
	return fmt.Sprintf("seed=%d scenario=%s strategy=%s steps=%d switches=%d preemptions=%d simulated_ns=%d goroutines=%d workload=%v faults=%v hash=%016x",
		w.Seed, s.Name, stratNames[cfg.Strategy], r.Steps, r.Switches, r.Preempts, r.Now, r.MaxG, w.Choices, fs, r.Hash)
}

func realNow() int64 { return time.Now().UnixNano() }

func runSpecs(path string) {
	data, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	dec := json.NewDecoder(bytes.NewReader(data))
	for dec.More() {
		var sp Spec
		if err := dec.Decode(&sp); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		runSpec(sp)
	}
}

func runSpec(sp Spec) {
	s := find(sp.Prop, sp.Scenario)
	if s == nil {
		fmt.Fprintln(os.Stderr, "no such scenario", sp.Prop, sp.Scenario)
		os.Exit(2)
	}
	warmup(sp.Prop)
	n := 1
	if sp.Search > 0 {
		n = sp.Search
	}
	for i := 0; i < n; i++ {
		seed := sp.Seed
		cfg := kit.Config(seed, s.Tune)
		if sp.Config != nil {
			cfg = *sp.Config
		}
		if sp.Replay {
			cfg.Strategy = runtime.SimStratReplay
			cfg.Replay = sp.Decisions
		}
		if i > 0 {
			cfg = kit.Config(seed+uint64(i)*1000003, s.Tune)
		}
		w := kit.NewW(sp.Seed, sp.Prop)
		if sp.HasChoice {
			w.SetReplay(sp.Choices)
		}
		r := runOne(s, w, &cfg)
		if r.Status != runtime.SimOK || i == n-1 {
			emit(map[string]any{"run": report(sp.Prop, s, w, &cfg, r, sp.Full || r.Status != runtime.SimOK)})
			return
		}
	}
}
