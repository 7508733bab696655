package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"

	"verif.local/sim/simrt"
)

// Op is one generated operation of a client.
type Op struct {
	K string   `json:"k"`
	I []int    `json:"i,omitempty"`
	S []string `json:"s,omitempty"`
}

func (o Op) i(n int) int {
	if n < len(o.I) {
		return o.I[n]
	}
	return 0
}

func (o Op) s(n int) string {
	if n < len(o.S) {
		return o.S[n]
	}
	return ""
}

// Plan is one generated workload: everything of a run except the schedule and the faults.
type Plan struct {
	P       string         `json:"p"`
	Cfg     map[string]int `json:"cfg,omitempty"`
	Setup   []Op           `json:"setup,omitempty"`
	Clients [][]Op         `json:"clients"`
	MapSeed uint64         `json:"mapseed,omitempty"`
	Entropy uint64         `json:"entropy,omitempty"`
	EntMode int            `json:"entmode,omitempty"`
	Rate    int            `json:"rate,omitempty"` // fault rate, permille
	Est     int64          `json:"est,omitempty"`
	Cold    bool           `json:"cold,omitempty"` // must be the first run of a process
}

func (p *Plan) cfg(k string) int { return p.Cfg[k] }

// bigN is a size beyond the usual: past the points where implementations
// change over to something else (batches, blocks, indexes, growth).
func bigN(r *simrt.Rng) int {
	return []int{17, 20, 33, 40, 65, 70, 100, 129, 150, 200, 257, 300}[r.Intn(12)]
}

// Violation is a verdict.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// Outcome of one run.
type Outcome struct {
	Viol     *Violation
	Hash     uint64
	Trace    uint64
	Steps    int64
	Switches int64
	SimNS    int64
	Strategy string
	Kinds    map[string]int64
	Probes   map[string]int64
	Dec      []simrt.Decision
	Faults   []simrt.Fault
	Ops      int
	Inconcl  int
}

// Env is what a property's harness gets.
type Env struct {
	S      *simrt.Sim
	P      *Plan
	viol   []Violation
	logs   [64][]string
	probes map[string]int64
	incon  int
}

// Failf records an oracle violation (from a task or from the check phase).
func (e *Env) Failf(class, f string, a ...any) {
	e.viol = append(e.viol, Violation{"oracle:" + class, fmt.Sprintf(f, a...)})
}

// Logf adds to the client's event log (part of the determinism hash).
func (e *Env) Logf(c int, f string, a ...any) {
	e.logs[c] = append(e.logs[c], fmt.Sprintf(f, a...))
}

// Probe counts a rare condition; check phase only or single-threaded by simulation.
func (e *Env) Probe(name string) { simrt.Count("probe:" + name) }

// Prop is a property's simulation harness.
type Prop struct {
	ID       string
	Gen      func(r *simrt.Rng) *Plan
	Build    func(e *Env) func() // spawns tasks, returns the post-run check
	ColdMod  int                 // every ColdMod-th run is the first of a fresh process
	MaxSteps int64
	Quick    int // runs
	Thorough int
	Secs     float64 // quick time cap, default 20
	Real     string
	Stub     string
	Rule     string
	NotSeen  []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// genPlan derives the idx-th plan of a check.
func genPlan(p *Prop, seed uint64, idx int) (*Plan, uint64) {
	h := uint64(14695981039346656037)
	for _, c := range p.ID {
		h = simrt.Mix(h, uint64(c))
	}
	rs := simrt.Mix(simrt.Mix(seed, h), uint64(idx))
	r := simrt.NewRng(rs)
	pl := p.Gen(r)
	pl.P = p.ID
	if pl.Entropy == 0 {
		pl.Entropy = r.U64()
	}
	if p.ColdMod > 0 && idx%p.ColdMod == 0 {
		pl.Cold = true
	}
	return pl, simrt.Mix(rs, 0x5c4ed)
}

var warmed bool

// execute runs one plan under one schedule.
func execute(p *Prop, pl *Plan, o simrt.Options) (out *Outcome) {
	if !pl.Cold && !warmed {
		warmUp()
		warmed = true
	}
	o.MapSeed, o.Entropy, o.EntMode = pl.MapSeed, pl.Entropy, pl.EntMode
	o.EstSteps = pl.Est
	o.MaxSteps = p.MaxSteps
	o.Strategy = -1
	s := simrt.New(o)
	e := &Env{S: s, P: pl}
	simrt.ResetMainEntropy(pl.Entropy)
	simrt.Rate = pl.Rate
	races := runtime.RaceErrors()
	out = &Outcome{Kinds: map[string]int64{}}
	for _, c := range pl.Clients {
		out.Ops += len(c)
	}
	var check func()
	guard := func(stage string, f func()) {
		defer func() {
			if r := recover(); r != nil {
				simrt.S = nil
				e.viol = append(e.viol, Violation{"panic", fmt.Sprintf("%s: %v\n%s", stage, r, debug.Stack())})
			}
		}()
		f()
		simrt.Settle()
	}
	guard("setup", func() { check = p.Build(e) })
	if len(e.viol) == 0 {
		s.Run()
		switch {
		case s.Panic != "":
			e.viol = append(e.viol, Violation{"panic", s.Panic})
		case s.Deadlock != "":
			e.viol = append(e.viol, Violation{"deadlock", s.Deadlock})
		case s.StepLimit:
			e.viol = append(e.viol, Violation{"no-progress", fmt.Sprintf("not finished after %d steps", s.Steps)})
		default:
			if check != nil {
				guard("check", check)
			}
		}
	}
	if runtime.RaceErrors() > races {
		e.viol = append([]Violation{{"race", "data race reported by the race detector (see report)"}}, e.viol...)
	}
	if len(e.viol) > 0 {
		v := e.viol[0]
		out.Viol = &v
	}
	out.Hash = s.Hash()
	out.Steps, out.Switches, out.SimNS = s.Steps, s.Switches, s.SimTime()
	out.Strategy = s.StrategyName()
	out.Dec, out.Faults = s.DecLog, s.FaultLog
	out.Inconcl = e.incon
	s.Kinds(func(k string, n int64) { out.Kinds[k] += n })
	t := simrt.Mix(uint64(s.Steps), s.Hash())
	for i := range e.logs {
		for _, l := range e.logs[i] {
			for j := 0; j < len(l); j++ {
				t = t*1099511628211 ^ uint64(l[j])
			}
			t = simrt.Mix(t, uint64(i))
		}
	}
	out.Trace = t
	if os.Getenv("DST_LOG") != "" {
		for i := range e.logs {
			for _, l := range e.logs[i] {
				fmt.Fprintf(os.Stderr, "[%d] %s\n", i, l)
			}
		}
	}
	return out
}

// Replay is the replay file.
type Replay struct {
	Property  string           `json:"property"`
	Class     string           `json:"class"`
	Message   string           `json:"message"`
	Seed      uint64           `json:"seed"`
	Run       int              `json:"run"`
	How       string           `json:"how_to_replay"`
	Minimised string           `json:"minimised"`
	Trace     []string         `json:"trace"`
	Prefix    []int            `json:"prefix_runs,omitempty"` // runs executed before in the same process
	Plan      *Plan            `json:"plan"`
	Dec       []simrt.Decision `json:"decisions"`
	Faults    []simrt.Fault    `json:"faults"`
	BySeed    uint64           `json:"schedule_seed,omitempty"` // crash or hang: nothing was recorded, the schedule is derived again
	Report    string           `json:"report,omitempty"`
}

// trial input/output between minimiser and subprocess
type trialIn struct {
	Replay Replay `json:"replay"`
	Search int    `json:"search"`
}

type trialOut struct {
	Hit    bool             `json:"hit"`
	Class  string           `json:"class"`
	Msg    string           `json:"msg"`
	Dec    []simrt.Decision `json:"dec"`
	Faults []simrt.Fault    `json:"faults"`
	Trace  uint64           `json:"trace"`
}

func runTrial(in trialIn) trialOut {
	p := props[in.Replay.Property]
	if p == nil {
		fail(3, "unknown property %q", in.Replay.Property)
	}
	for _, idx := range in.Replay.Prefix {
		pl, ss := genPlan(p, in.Replay.Seed, idx)
		if pl.Cold {
			continue
		}
		execute(p, pl, simrt.Options{Seed: ss})
	}
	opt := simrt.Options{Replay: true, Dec: in.Replay.Dec, Faults: in.Replay.Faults}
	if in.Replay.BySeed != 0 {
		opt = simrt.Options{Seed: in.Replay.BySeed}
	}
	o := execute(p, in.Replay.Plan, opt)
	if o.Viol != nil && (o.Viol.Class == in.Replay.Class || in.Replay.Class == "") {
		return trialOut{Hit: true, Class: o.Viol.Class, Msg: o.Viol.Msg, Dec: in.Replay.Dec, Faults: in.Replay.Faults, Trace: o.Trace}
	}
	if in.Search > 0 && !in.Replay.Plan.Cold {
		for k := 0; k < in.Search; k++ {
			o := execute(p, in.Replay.Plan, simrt.Options{Seed: simrt.Mix(uint64(k), 77)})
			if o.Viol == nil {
				continue
			}
			if o.Viol.Class != in.Replay.Class {
				break // process state is spoilt
			}
			return trialOut{Hit: true, Class: o.Viol.Class, Msg: o.Viol.Msg, Dec: o.Dec, Faults: o.Faults, Trace: o.Trace}
		}
	}
	return trialOut{}
}

func fail(code int, f string, a ...any) {
	fmt.Fprintf(os.Stderr, "dst: "+f+"\n", a...)
	os.Exit(code)
}

func mustJSON(v any) []byte {
	var b bytes.Buffer
	enc := json.NewEncoder(&b)
	enc.SetEscapeHTML(false)
	if err := enc.Encode(v); err != nil {
		fail(3, "%v", err)
	}
	return b.Bytes()
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}
