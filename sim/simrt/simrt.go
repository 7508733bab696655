// Package simrt is the deterministic simulator: one task runs at a time, every
// scheduling decision, delay and fault comes from a seed (or from a recorded
// decision list), and the clock is virtual.
//
// The package (like everything under verif.local/sim) is compiled WITHOUT race
// instrumentation and hides its own channel hand-offs from the race detector,
// so the detector sees only the happens-before edges that the code under test
// creates itself.  Rules that follow from that: no maps shared between tasks.
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"unsafe"
)

// Rng is a splitmix64 generator.
type Rng struct{ s uint64 }

// NewRng returns a generator.
func NewRng(seed uint64) *Rng { return &Rng{s: seed} }

// Mix hashes two words.
func Mix(a, b uint64) uint64 {
	x := a*0x9E3779B97F4A7C15 ^ (b + 0x632BE59BD9B4E019 + (a << 6) + (a >> 2))
	x ^= x >> 30
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 27
	x *= 0x94D049BB133111EB
	x ^= x >> 31
	return x
}

// U64 returns the next word.
func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Intn returns a number in [0,n).
func (r *Rng) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Bool returns true with probability p/1000.
func (r *Rng) Bool(permille int) bool { return r.Intn(1000) < permille }

// Decision is one recorded scheduling decision: when task T reaches its own
// L-th scheduling point, the processor goes to task To.
type Decision struct {
	T  int32 `json:"t"`
	L  int32 `json:"l"`
	To int32 `json:"to"`
	S  int32 `json:"s"` // site, informational
}

// Fault is one recorded non-default choice: task T, its I-th choice point.
type Fault struct {
	T int32  `json:"t"`
	I int32  `json:"i"`
	K string `json:"k"`
	V int32  `json:"v"`
}

const (
	maxTasks = 1 << 16
	maxKinds = 64
)

// Task is a simulated thread.
type Task struct {
	id       int32
	wake     chan struct{}
	fn       func()
	done     bool
	waitOn   unsafe.Pointer
	sleeping bool
	until    int64
	local    int32
	choice   int32
	mapCalls uint64
	prio     int64
	timed    bool
	owner    int32
}

// Sim is one simulated execution.
type Sim struct {
	tasks  []*Task
	cand   []*Task
	tag    byte
	alone  bool // adopted, see Settle
	nTasks int32
	live   int32
	cur    *Task
	done   chan struct{}

	replay    bool
	decisions map[int64]int32 // replay only (read-only while running)
	faults    map[int64]Fault // replay only

	DecLog   []Decision
	FaultLog []Fault

	rng      *Rng
	strategy int
	period   int
	siteMod  uint64
	siteSalt uint64
	changeAt [8]int64
	nChange  int
	quantum  int64
	ranFor   int64
	sleepers int

	faultsOn  bool
	Steps     int64
	MaxSteps  int64
	Switches  int64
	now       int64
	clockSkew int64
	// ClockGrain is the resolution of the wall clock in ns (0: exact).
	ClockGrain int64
	seq        int64
	hash       uint64
	MapSeed    uint64
	entropy    *Rng
	EntMode    int
	entExtreme int

	kindNames [maxKinds]string
	kindCount [maxKinds]int64
	nKinds    int

	Deadlock  string
	StepLimit bool
	Panic     string
	stopped   bool
}

// S is the active simulation (nil when none runs).
var S *Sim

// Rate is the current plan's fault rate (permille); set between runs.
var Rate int

// F is Choose at the plan's own rate.
func F(kind string, n int) int { return Choose(kind, n, Rate) }

// Options configure a Sim.
type Options struct {
	Seed     uint64
	Strategy int // -1: derived from the seed
	EstSteps int64
	MaxSteps int64
	MapSeed  uint64
	Entropy  uint64
	EntMode  int
	Replay   bool
	Dec      []Decision
	Faults   []Fault
}

// New returns a simulation.
func New(o Options) *Sim {
	s := &Sim{
		done:     make(chan struct{}, 1),
		rng:      NewRng(Mix(o.Seed, 0x5eed)),
		MaxSteps: o.MaxSteps,
		MapSeed:  o.MapSeed,
		entropy:  NewRng(o.Entropy),
		EntMode:  o.EntMode,
		faultsOn: true,
		now:      0,
		DecLog:   make([]Decision, 0, 256),
		FaultLog: make([]Fault, 0, 32),
	}
	if s.MaxSteps == 0 {
		s.MaxSteps = 4_000_000
	}
	if o.Replay {
		s.replay = true
		s.decisions = map[int64]int32{}
		for _, d := range o.Dec {
			s.decisions[int64(d.T)<<32|int64(d.L)] = d.To
		}
		s.faults = map[int64]Fault{}
		for _, f := range o.Faults {
			s.faults[int64(f.T)<<32|int64(f.I)] = f
		}
		return s
	}
	st := o.Strategy
	if st < 0 {
		st = s.rng.Intn(10)
	}
	periods := []int{1, 2, 3, 5, 9, 17, 33, 120}
	switch {
	case st <= 3:
		s.strategy = 0
		s.period = periods[s.rng.Intn(len(periods))]
	case st <= 6:
		s.strategy = 1
		est := o.EstSteps
		if est < 16 {
			est = 16
		}
		s.nChange = 1 + s.rng.Intn(4)
		for i := 0; i < s.nChange; i++ {
			s.changeAt[i] = int64(s.rng.U64() % uint64(est))
		}
	case st <= 8:
		s.strategy = 2
		s.siteMod = []uint64{2, 3, 5, 9, 17}[s.rng.Intn(5)]
		s.siteSalt = s.rng.U64()
	default:
		s.strategy = 3
		s.quantum = int64(1 + s.rng.Intn(40))
	}
	return s
}

// StrategyName names the scheduling strategy of this run.
func (s *Sim) StrategyName() string {
	if s.replay {
		return "replay"
	}
	return [...]string{"random-walk", "pct", "site-biased", "round-robin"}[s.strategy]
}

// Spawn adds a task (before Run, or from a running task through Go).
func (s *Sim) Spawn(fn func()) int32 {
	if s.nTasks >= maxTasks {
		panic("simrt: too many tasks")
	}
	t := &Task{id: s.nTasks, wake: make(chan struct{}, 1), fn: fn, owner: s.nTasks}
	if s.cur != nil {
		t.owner = s.cur.owner
	}
	if !s.replay {
		t.prio = int64(s.rng.U64() >> 2)
	}
	s.tasks = append(s.tasks, t)
	s.cand = append(s.cand, nil)
	s.nTasks++
	s.live++
	go s.taskMain(t)
	return t.id
}

func (s *Sim) taskMain(t *Task) {
	runtime.RaceDisable()
	<-t.wake
	runtime.RaceEnable()
	defer func() {
		if r := recover(); r != nil {
			if s.Panic == "" {
				s.Panic = fmt.Sprintf("panic in task %d: %v\n%s", t.id, r, debug.Stack())
			}
			s.stop()
			return
		}
		runtime.RaceReleaseMerge(unsafe.Pointer(&s.tag))
		t.done = true
		s.live--
		s.schedule(t, 0, true)
	}()
	t.fn()
}

// stop abandons the run: the main goroutine continues, tasks stay parked.
func (s *Sim) stop() {
	if s.stopped {
		return
	}
	s.stopped = true
	runtime.RaceReleaseMerge(unsafe.Pointer(&s.tag))
	runtime.RaceDisable()
	s.done <- struct{}{}
	runtime.RaceEnable()
}

// Run executes all spawned tasks to completion (or to a verdict).
func (s *Sim) Run() {
	if s.nTasks == 0 {
		return
	}
	S = s
	chanReset()
	s.cur = nil
	first := s.pick(nil, true)
	if !s.replay && first.id != 0 {
		s.DecLog = append(s.DecLog, Decision{T: -1, L: 0, To: first.id})
	}
	s.cur = first
	runtime.RaceDisable()
	first.wake <- struct{}{}
	<-s.done
	runtime.RaceEnable()
	S = nil
	runtime.RaceAcquire(unsafe.Pointer(&s.tag))
}

func (t *Task) runnable() bool { return !t.done && t.waitOn == nil && !t.sleeping }

// expire makes the sleepers whose time has come runnable.
func (s *Sim) expire() {
	for i := int32(0); i < s.nTasks; i++ {
		t := s.tasks[i]
		if (t.sleeping || t.timed) && t.until <= s.now {
			t.sleeping = false
			if t.timed {
				t.timed = false
				t.waitOn = nil
			}
			s.sleepers--
		}
	}
}

// pick selects the next task; nil when nothing can run.
func (s *Sim) pick(from *Task, forced bool) *Task {
	for {
		cand := s.cand[:]
		n := 0
		for i := int32(0); i < s.nTasks; i++ {
			if s.tasks[i].runnable() {
				cand[n] = s.tasks[i]
				n++
			}
		}
		if n == 0 {
			// advance the virtual clock to the next sleeper
			var next *Task
			for i := int32(0); i < s.nTasks; i++ {
				t := s.tasks[i]
				if (t.sleeping || t.timed) && (next == nil || t.until < next.until) {
					next = t
				}
			}
			if next == nil {
				return nil
			}
			if s.now < next.until {
				s.now = next.until
			}
			s.expire()
			continue
		}
		if s.replay {
			if from != nil {
				if to, ok := s.decisions[int64(from.id)<<32|int64(from.local)]; ok && to >= 0 && to < s.nTasks && s.tasks[to].runnable() {
					return s.tasks[to]
				}
			} else if to, ok := s.decisions[int64(-1)<<32]; ok && to >= 0 && to < s.nTasks && s.tasks[to].runnable() {
				return s.tasks[to]
			}
			if !forced && from != nil && from.runnable() {
				return from
			}
			return cand[0]
		}
		if s.strategy == 1 {
			best := cand[0]
			for i := 1; i < n; i++ {
				if cand[i].prio > best.prio {
					best = cand[i]
				}
			}
			return best
		}
		if s.strategy == 3 && from != nil {
			for i := 0; i < n; i++ {
				if cand[i].id > from.id {
					return cand[i]
				}
			}
			return cand[0]
		}
		return cand[s.rng.Intn(n)]
	}
}

// Y is the scheduling point inserted before every statement of the code under test.
func Y(site uint32) {
	s := S
	if s == nil {
		return
	}
	s.yield(site)
}

func (s *Sim) yield(site uint32) {
	t := s.cur
	if t == nil || s.stopped {
		if s.stopped {
			park()
		}
		return
	}
	s.Steps++
	s.now += 1000
	if int(site) < len(Hit) {
		Hit[site] = 1
	}
	if s.Steps > s.MaxSteps {
		s.StepLimit = true
		s.stop()
		park()
	}
	if s.sleepers > 0 {
		s.expire()
	}
	t.local++
	if s.replay {
		if _, ok := s.decisions[int64(t.id)<<32|int64(t.local)]; !ok {
			return
		}
		s.schedule(t, site, false)
		return
	}
	if s.live <= 1 && s.nTasks > 0 && s.live == 1 {
		return
	}
	switch s.strategy {
	case 0:
		if s.period > 1 && s.rng.Intn(s.period) != 0 {
			return
		}
	case 1:
		hit := false
		for i := 0; i < s.nChange; i++ {
			if s.changeAt[i] == s.Steps {
				hit = true
			}
		}
		if !hit {
			return
		}
		t.prio = -int64(s.Steps)
	case 2:
		if Mix(s.siteSalt, uint64(site))%s.siteMod != 0 || s.rng.Intn(2) == 0 {
			return
		}
	case 3:
		s.ranFor++
		if s.ranFor < s.quantum {
			return
		}
		s.ranFor = 0
	}
	s.schedule(t, site, false)
}

// schedule gives the processor to the next task. forced: t cannot continue.
func (s *Sim) schedule(t *Task, site uint32, forced bool) {
	if s.stopped {
		if !t.done {
			park()
		}
		return
	}
	if s.live == 0 {
		s.stop()
		return
	}
	next := s.pick(t, forced)
	if next == nil {
		s.Deadlock = s.describeBlocked()
		s.stop()
		if !t.done {
			park()
		}
		return
	}
	if next == t {
		return
	}
	s.Switches++
	s.hash = Mix(s.hash, uint64(next.id)<<32|uint64(site))
	if !s.replay {
		log := true
		if forced {
			// default for forced decisions is the lowest runnable id
			for i := int32(0); i < s.nTasks; i++ {
				if s.tasks[i].runnable() {
					log = s.tasks[i] != next
					break
				}
			}
		}
		if log && len(s.DecLog) < 200000 {
			s.DecLog = append(s.DecLog, Decision{T: t.id, L: t.local, To: next.id, S: int32(site)})
		}
	}
	s.cur = next
	if int(site) < len(Preempted) && !forced {
		Preempted[site] = 1
	}
	runtime.RaceDisable()
	next.wake <- struct{}{}
	if !t.done {
		<-t.wake
	}
	runtime.RaceEnable()
	if s.stopped && !t.done {
		park()
	}
}

func park() {
	runtime.RaceDisable()
	select {}
}

func (s *Sim) describeBlocked() string {
	out := "no task can run:"
	for i := int32(0); i < s.nTasks; i++ {
		t := s.tasks[i]
		if !t.done {
			out += fmt.Sprintf(" task %d blocked (after %d points);", t.id, t.local)
		}
	}
	return out
}

// Active reports whether a simulation is running.
func Active() bool { return S != nil && !S.stopped }

// Block suspends the current task until Wake(key).
func Block(key unsafe.Pointer) {
	s := S
	if s == nil || s.cur == nil {
		panic("simrt: blocking outside a simulation")
	}
	t := s.cur
	t.waitOn = key
	t.local++
	s.Steps++
	s.schedule(t, 0, true)
}

// BlockUntil is Block with a virtual deadline (elapsed time); it reports whether the deadline passed.
func BlockUntil(key unsafe.Pointer, until int64) bool {
	s := S
	if s == nil || s.cur == nil {
		panic("simrt: blocking outside a simulation")
	}
	t := s.cur
	if until <= s.now {
		return true
	}
	t.waitOn = key
	t.timed = true
	t.until = until
	s.sleepers++
	t.local++
	s.Steps++
	s.schedule(t, 0, true)
	return s.now >= until
}

// Owner returns the client task on whose behalf the current task runs.
func Owner() int {
	if S == nil || S.cur == nil {
		return -1
	}
	return int(S.cur.owner)
}

// Wake makes every task blocked on key runnable.
func Wake(key unsafe.Pointer) {
	s := S
	if s == nil {
		return
	}
	for i := int32(0); i < s.nTasks; i++ {
		if t := s.tasks[i]; t.waitOn == key {
			t.waitOn = nil
			if t.timed {
				t.timed = false
				s.sleepers--
			}
		}
	}
}

// Sleep suspends the current task for d virtual nanoseconds.
func Sleep(d int64) {
	s := S
	if s == nil || s.cur == nil {
		return
	}
	if d <= 0 {
		Y(0)
		return
	}
	t := s.cur
	t.sleeping = true
	s.sleepers++
	t.until = s.now + d
	t.local++
	s.Steps++
	s.schedule(t, 0, true)
}

// Go starts a new task from a running one.
func Go(fn func()) {
	s := S
	if s == nil {
		s = adopt()
	}
	s.Spawn(fn)
	Y(0)
}

// adopt makes the calling goroutine, which runs outside any simulation (setup
// or final checks), the first task of one, so that tasks the code starts there
// are scheduled too. Settle ends it.
func adopt() *Sim {
	s := New(Options{Strategy: 9, MaxSteps: 1 << 40})
	s.faultsOn = false
	s.alone = true
	t := &Task{wake: make(chan struct{}, 1)}
	s.tasks, s.cand = append(s.tasks, t), append(s.cand, nil)
	s.nTasks, s.live = 1, 1
	s.cur = t
	S = s
	return s
}

// Settle lets the tasks of an adopted simulation finish and leaves it.
func Settle() {
	s := S
	if s == nil || !s.alone {
		return
	}
	for i := 0; i < 100000 && s.live > 1; i++ {
		Sleep(1000)
	}
	S = nil
	runtime.RaceAcquire(unsafe.Pointer(&s.tag))
}

// Tid returns the id of the running task, or -1.
func Tid() int {
	if S == nil || S.cur == nil {
		return -1
	}
	return int(S.cur.id)
}

// Seq returns a fresh global event number.
func Seq() int64 {
	if S == nil {
		return 0
	}
	S.seq++
	return S.seq
}

// NowNS returns the virtual clock reading: elapsed time plus injected jumps.
func (s *Sim) NowNS() int64 {
	t := s.now + s.clockSkew
	if g := s.ClockGrain; g > 0 {
		m := t % g
		if m < 0 {
			m += g
		}
		t -= m
	}
	return t
}

// SimTime returns elapsed virtual nanoseconds.
func (s *Sim) SimTime() int64 { return s.now }

// JumpClock moves the wall clock by d nanoseconds (may be negative).
func JumpClock(d int64) {
	if S != nil {
		S.clockSkew += d
		S.count("clock-jump")
	}
}

func (s *Sim) count(kind string) {
	for i := 0; i < s.nKinds; i++ {
		if s.kindNames[i] == kind {
			s.kindCount[i]++
			return
		}
	}
	if s.nKinds < maxKinds {
		s.kindNames[s.nKinds] = kind
		s.kindCount[s.nKinds] = 1
		s.nKinds++
	}
}

// Count counts an injected event that is part of the plan (not a choice).
func Count(kind string) {
	if S != nil {
		S.count(kind)
	}
}

// Kinds calls f for each fault kind that fired in this run.
func (s *Sim) Kinds(f func(kind string, n int64)) {
	for i := 0; i < s.nKinds; i++ {
		f(s.kindNames[i], s.kindCount[i])
	}
}

// StopFaults turns fault injection off for the rest of the run.
func (s *Sim) StopFaults() { s.faultsOn = false }

// Choose is a fault point: it returns 0 (no fault) or a value in [1,n].
func Choose(kind string, n int, permille int) int {
	s := S
	if s == nil || s.cur == nil || !s.faultsOn || n <= 0 {
		return 0
	}
	t := s.cur
	t.choice++
	v := 0
	if s.replay {
		f, ok := s.faults[int64(t.id)<<32|int64(t.choice)]
		if ok && f.K == kind {
			v = int(f.V)
			if v > n {
				v = n
			}
		}
	} else if s.rng.Intn(1000) < permille {
		v = 1 + s.rng.Intn(n)
	}
	if v != 0 {
		s.count(kind)
		s.FaultLog = append(s.FaultLog, Fault{T: t.id, I: t.choice, K: kind, V: int32(v)})
	}
	return v
}

// Hash identifies the interleaving: sequence of (task, site) at every switch.
func (s *Sim) Hash() uint64 { return s.hash }

// Live returns the number of unfinished tasks.
func (s *Sim) Live() int { return int(s.live) }

// Hit and Preempted are per-process site coverage.
var (
	Hit       = make([]uint8, 1<<16)
	Preempted = make([]uint8, 1<<16)
)
