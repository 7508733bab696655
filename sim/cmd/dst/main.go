// Command dst runs the simulated checks.
//
//	dst check  -p ID -tier quick|thorough -seed N -verif DIR
//	dst worker ...            (internal)
//	dst run -replay FILE      replay; exit 1 when the recorded violation occurs
//	dst trial                 (internal: minimisation step, JSON on stdin)
//	dst hashes -p ID -seed N -n K -w W -workers M   event-log hashes (determinism proof)
package main

import (
	"bufio"
	"bytes"
	crand "crypto/rand"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/google/uuid"
	"verif.local/sim/simrt"
)

func main() {
	crand.Reader = simrt.Entropy{}
	uuid.SetRand(simrt.Entropy{})
	if len(os.Args) < 2 {
		fail(3, "usage")
	}
	fs := flag.NewFlagSet("dst", flag.ExitOnError)
	id := fs.String("p", "", "property")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	verif := fs.String("verif", "/verif", "")
	replay := fs.String("replay", "", "")
	w := fs.Int("w", 0, "")
	workers := fs.Int("workers", 8, "")
	n := fs.Int("n", 0, "")
	from := fs.Int("from", 0, "")
	secs := fs.Float64("secs", 0, "")
	_ = fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "check":
		os.Exit(check(*id, *tier, *seed, *verif, *n, *secs))
	case "worker":
		worker(*id, *seed, *w, *workers, *from, *n, *secs)
	case "one":
		p := props[*id]
		pl, ss := genPlan(p, *seed, *from)
		o := execute(p, pl, simrt.Options{Seed: ss})
		os.Stdout.Write(mustJSON(struct {
			O  *Outcome
			Pl *Plan
		}{o, pl}))
	case "trial":
		var in trialIn
		if err := json.NewDecoder(os.Stdin).Decode(&in); err != nil {
			fail(3, "%v", err)
		}
		os.Stdout.Write(mustJSON(runTrial(in)))
	case "run":
		b, err := os.ReadFile(*replay)
		if err != nil {
			fail(3, "%v", err)
		}
		var r Replay
		if err := json.Unmarshal(b, &r); err != nil {
			fail(3, "%v", err)
		}
		t, rep := trial(trialIn{Replay: r}, 120*time.Second)
		if t.Hit {
			if rep != "" && (r.Class == "race" || r.BySeed != 0) {
				fmt.Println(tail(rep, 6000))
			}
			fmt.Printf("reproduced: %s: %s\nevent-log hash %016x\n", t.Class, t.Msg, t.Trace)
			os.Exit(1)
		}
		fmt.Println("not reproduced")
	case "hashes":
		p := props[*id]
		for i := *w; i < *n; i += *workers {
			pl, ss := genPlan(p, *seed, i)
			if pl.Cold {
				continue
			}
			o := execute(p, pl, simrt.Options{Seed: ss})
			fmt.Printf("%d %016x %016x %d\n", i, o.Trace, o.Hash, o.Steps)
		}
	case "selftest":
		selfTest(*n)
	case "show":
		p := props[*id]
		pl, ss := genPlan(p, *seed, *from)
		os.Stdout.Write(mustJSON(pl))
		o := execute(p, pl, simrt.Options{Seed: ss})
		os.Stdout.Write(mustJSON(o))
	default:
		fail(3, "unknown command %s", os.Args[1])
	}
}

// summary is what a worker reports.
type summary struct {
	Runs, Ops, Nontrivial  int
	Steps, Switches, SimNS int64
	Incon, Cold            int
	Hashes                 []uint64
	Kinds                  map[string]int64
	Strat                  map[string]int64
	Hit, Pre               []int
	Samples                []json.RawMessage
	Traces                 map[int]uint64
	Viol                   *Replay
	TimedOut               bool
}

func worker(id string, seed uint64, w, workers, from, n int, secs float64) {
	p := props[id]
	if p == nil {
		fail(3, "unknown property %q", id)
	}
	start := time.Now()
	sum := &summary{Kinds: map[string]int64{}, Strat: map[string]int64{}, Traces: map[int]uint64{}}
	var prefix []int
	seen := map[uint64]bool{}
	progress := os.NewFile(3, "progress") // last line: the run under way
	for i := from + w; i < n; i += workers {
		if secs > 0 && time.Since(start).Seconds() > secs {
			sum.TimedOut = true
			break
		}
		if progress != nil {
			_, _ = fmt.Fprintf(progress, "%d\n", i)
		}
		pl, ss := genPlan(p, seed, i)
		var o *Outcome
		if pl.Cold {
			sum.Cold++
			c := exec.Command(os.Args[0], "one", "-p", id, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(i))
			var ob, eb bytes.Buffer
			c.Stdout, c.Stderr = &ob, &eb
			_ = c.Run()
			var r struct {
				O  *Outcome
				Pl *Plan
			}
			if err := json.Unmarshal(ob.Bytes(), &r); err != nil {
				fail(3, "cold run %d: %v\n%s", i, err, eb.String())
			}
			o = r.O
		} else {
			o = execute(p, pl, simrt.Options{Seed: ss})
		}
		sum.Runs++
		sum.Ops += o.Ops
		sum.Steps += o.Steps
		sum.Switches += o.Switches
		sum.SimNS += o.SimNS
		sum.Incon += o.Inconcl
		sum.Strat[o.Strategy]++
		for k, v := range o.Kinds {
			sum.Kinds[k] += v
		}
		nontriv := o.Switches >= 2 || len(o.Faults) > 0
		if nontriv {
			h := simrt.Mix(o.Hash, o.Trace)
			if !seen[h] {
				seen[h] = true
				sum.Hashes = append(sum.Hashes, h)
			}
		}
		if i%97 == 3 {
			sum.Traces[i] = o.Trace
		}
		if len(sum.Samples) < 2 && nontriv && i >= workers {
			sd := o.Dec
			if len(sd) > 12 {
				sd = sd[:12]
			}
			sum.Samples = append(sum.Samples, mustJSON(map[string]any{"run": i, "strategy": o.Strategy, "plan": pl, "first_decisions": sd, "switches": o.Switches, "steps": o.Steps, "faults": o.Faults}))
		}
		if o.Viol != nil {
			sum.Viol = &Replay{Property: id, Class: o.Viol.Class, Message: o.Viol.Msg, Seed: seed, Run: i, Plan: pl, Dec: o.Dec, Faults: o.Faults, Prefix: prefix}
			break
		}
		if !pl.Cold {
			prefix = append(prefix, i)
		}
	}
	for i := range simrt.Hit {
		if simrt.Hit[i] != 0 {
			sum.Hit = append(sum.Hit, i)
		}
		if simrt.Preempted[i] != 0 {
			sum.Pre = append(sum.Pre, i)
		}
	}
	os.Stdout.Write(mustJSON(sum))
}

type site struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Fn   string `json:"fn"`
}

func loadSites() map[int]site {
	m := map[int]site{}
	exe, _ := os.Executable()
	b, err := os.ReadFile(filepath.Join(filepath.Dir(exe), "sites.json"))
	if err != nil {
		return m
	}
	var ss []site
	_ = json.Unmarshal(b, &ss)
	for _, s := range ss {
		m[s.ID] = s
	}
	return m
}

func check(id, tier string, seed uint64, verif string, nOverride int, secs float64) int {
	start := time.Now()
	p := props[id]
	if p == nil {
		fail(3, "unknown property %q", id)
	}
	n := p.Quick
	if secs == 0 {
		secs = 20
		if p.Secs > 0 {
			secs = p.Secs
		}
	}
	if tier == "thorough" {
		n = p.Thorough
		if n == 0 {
			n = p.Quick * 40
		}
		if secs <= 60 {
			secs = 600
		}
	}
	if nOverride > 0 {
		n = nOverride
	}
	W := runtime.NumCPU()
	if W > 16 {
		W = 16
	}
	// several generations of worker processes: bounded state carried from run to run
	gen := 1
	per := n / W
	if per > 400 {
		gen = (per + 399) / 400
	}
	sums := make([]*summary, 0, W*gen)
	errs := make([]string, 0)
	var mu sync.Mutex
	stop := false
	var wg sync.WaitGroup
	for w := 0; w < W; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for g := 0; g < gen; g++ {
				mu.Lock()
				st := stop
				mu.Unlock()
				left := secs - time.Since(start).Seconds()
				if st || (g > 0 && left < 0.3) {
					return
				}
				lo, hi := n*g/gen, n*(g+1)/gen
				s, e := runWorker(id, seed, w, W, lo, hi, left)
				mu.Lock()
				if e != "" {
					errs = append(errs, e)
					stop = true
				} else {
					sums = append(sums, s)
					if s.Viol != nil {
						stop = true
					}
				}
				mu.Unlock()
			}
		}(w)
	}
	wg.Wait()
	// determinism: the same runs, in other processes and another process layout
	mism, compared := 0, 0
	tr := map[int]uint64{}
	for _, s := range sums {
		for k, v := range s.Traces {
			tr[k] = v
		}
	}
	var viol *Replay
	for _, s := range sums {
		if s.Viol != nil && (viol == nil || s.Viol.Run < viol.Run) {
			viol = s.Viol
		}
	}
	if viol == nil && len(errs) == 0 {
		mism, compared = recheck(id, seed, tr)
	}
	tot := merge(sums)
	replayPath := ""
	if viol != nil {
		replayPath = minimise(viol, verif, tier)
	}
	writeEvidence(p, tier, seed, verif, tot, viol, replayPath, mism, compared, time.Since(start).Seconds(), n, W)
	fmt.Printf("%s %s seed=%d: %d runs (%d cold-start processes), %d operations, %d steps, %d switches, %d distinct non-trivial interleavings, %.3f s simulated, %.1f s wall; faults %s; determinism %d/%d re-runs identical\n",
		id, tier, seed, tot.Runs, tot.Cold, tot.Ops, tot.Steps, tot.Switches, len(tot.Hashes), float64(tot.SimNS)/1e9, time.Since(start).Seconds(), kindsString(tot.Kinds), compared-mism, compared)
	if viol != nil {
		fmt.Printf("%s: %s\n", viol.Class, firstLine(viol.Message))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replayPath)
		return 1
	}
	if len(errs) > 0 {
		fmt.Fprintln(os.Stderr, strings.Join(errs, "\n"))
		return 3
	}
	if mism > 0 {
		fmt.Fprintf(os.Stderr, "warning: %d of %d re-runs differed: a source of nondeterminism is not behind a seam\n", mism, compared)
	}
	return 0
}

func kindsString(m map[string]int64) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, k := range ks {
		ks[i] = fmt.Sprintf("%s=%d", k, m[k])
	}
	if len(ks) == 0 {
		return "none"
	}
	return strings.Join(ks, " ")
}

func childEnv() []string {
	return append(os.Environ(), "GOMAXPROCS=1", "GORACE=halt_on_error=0 exitcode=0 history_size=2 atexit_sleep_ms=0", "GOTRACEBACK=single", "GOGC=400")
}

func runWorker(id string, seed uint64, w, W, lo, hi int, secs float64) (*summary, string) {
	c := exec.Command(os.Args[0], "worker", "-p", id, "-seed", fmt.Sprint(seed), "-w", fmt.Sprint(w), "-workers", fmt.Sprint(W), "-from", fmt.Sprint(lo), "-n", fmt.Sprint(hi), "-secs", fmt.Sprint(secs))
	c.Env = childEnv()
	var ob, eb bytes.Buffer
	c.Stdout, c.Stderr = &ob, &limited{b: &eb}
	pf, err := os.CreateTemp("", "dst-progress")
	if err != nil {
		return nil, err.Error()
	}
	defer func() { _ = pf.Close(); _ = os.Remove(pf.Name()) }()
	c.ExtraFiles = []*os.File{pf}
	if err := c.Start(); err != nil {
		return nil, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case err := <-done:
		if err != nil {
			if s := lost(id, seed, pf.Name(), "crash", eb.String()); s != nil {
				return s, ""
			}
			return nil, fmt.Sprintf("worker %d: %v\n%s", w, err, tail(eb.String(), 4000))
		}
	case <-time.After(time.Duration((secs + 60) * float64(time.Second))):
		_ = c.Process.Kill()
		if s := lost(id, seed, pf.Name(), "hang", ""); s != nil {
			return s, ""
		}
		return nil, fmt.Sprintf("worker %d: no answer (a run hangs outside the simulator)", w)
	}
	s := &summary{}
	if err := json.Unmarshal(ob.Bytes(), s); err != nil {
		return nil, fmt.Sprintf("worker %d: %v\n%s", w, err, tail(eb.String(), 4000))
	}
	if s.Viol != nil && s.Viol.Class == "race" {
		s.Viol.Report = eb.String()
	}
	return s, ""
}

// lost turns a run that ended or hung its whole process into a violation if a fresh process does the same.
func lost(id string, seed uint64, file, class, report string) *summary {
	b, _ := os.ReadFile(file)
	l := strings.Fields(string(b))
	if len(l) == 0 {
		return nil
	}
	i := 0
	if _, err := fmt.Sscan(l[len(l)-1], &i); err != nil {
		return nil
	}
	pl, ss := genPlan(props[id], seed, i)
	if pl.Cold {
		class = "crash"
	}
	r := Replay{Property: id, Class: class, Message: "the process running the simulation ended: " + class, Seed: seed, Run: i, Plan: pl, BySeed: ss, Report: tail(report, 4000)}
	if o, rep := trial(trialIn{Replay: r}, 60*time.Second); o.Hit {
		r.Class = o.Class
		if rep != "" {
			r.Report = tail(rep, 4000)
			for _, l := range strings.Split(rep, "\n") {
				if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") {
					r.Message = "the process running the simulation ended: " + l
					break
				}
			}
		}
		return &summary{Runs: 1, Viol: &r}
	}
	return nil
}

type limited struct{ b *bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func merge(sums []*summary) *summary {
	t := &summary{Kinds: map[string]int64{}, Strat: map[string]int64{}}
	hs := map[uint64]bool{}
	hit, pre := map[int]bool{}, map[int]bool{}
	for _, s := range sums {
		t.Runs += s.Runs
		t.Ops += s.Ops
		t.Steps += s.Steps
		t.Switches += s.Switches
		t.SimNS += s.SimNS
		t.Incon += s.Incon
		t.Cold += s.Cold
		t.TimedOut = t.TimedOut || s.TimedOut
		for _, h := range s.Hashes {
			hs[h] = true
		}
		for k, v := range s.Kinds {
			t.Kinds[k] += v
		}
		for k, v := range s.Strat {
			t.Strat[k] += v
		}
		for _, i := range s.Hit {
			hit[i] = true
		}
		for _, i := range s.Pre {
			pre[i] = true
		}
		if len(t.Samples) < 3 {
			t.Samples = append(t.Samples, s.Samples...)
		}
	}
	for h := range hs {
		t.Hashes = append(t.Hashes, h)
	}
	for i := range hit {
		t.Hit = append(t.Hit, i)
	}
	for i := range pre {
		t.Pre = append(t.Pre, i)
	}
	return t
}

// recheck executes sampled runs again, each group in a new process.
func recheck(id string, seed uint64, tr map[int]uint64) (mism, compared int) {
	var idx []int
	for k := range tr {
		idx = append(idx, k)
	}
	sort.Ints(idx)
	if len(idx) > 48 {
		idx = idx[:48]
	}
	type res struct {
		i int
		t uint64
	}
	ch := make(chan []res, len(idx))
	sem := make(chan struct{}, 8)
	for k := 0; k < len(idx); k += 6 {
		part := idx[k:min(k+6, len(idx))]
		go func() {
			sem <- struct{}{}
			defer func() { <-sem }()
			var out []res
			for _, i := range part {
				c := exec.Command(os.Args[0], "one", "-p", id, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(i))
				c.Env = childEnv()
				b, err := c.Output()
				if err != nil {
					continue
				}
				var r struct{ O *Outcome }
				if json.Unmarshal(b, &r) == nil && r.O != nil {
					out = append(out, res{i, r.O.Trace})
				}
			}
			ch <- out
		}()
	}
	for k := 0; k < len(idx); k += 6 {
		for _, r := range <-ch {
			compared++
			if r.t != tr[r.i] {
				mism++
			}
		}
	}
	return
}

// ---- minimisation -------------------------------------------------------

func trial(in trialIn, timeout time.Duration) (trialOut, string) {
	c := exec.Command(os.Args[0], "trial")
	c.Env = childEnv()
	c.Stdin = bytes.NewReader(mustJSON(in))
	var ob, eb bytes.Buffer
	c.Stdout, c.Stderr = &ob, &limited{b: &eb}
	if err := c.Start(); err != nil {
		return trialOut{}, ""
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case <-done:
	case <-time.After(timeout):
		_ = c.Process.Kill()
		<-done
		if in.Replay.BySeed != 0 {
			return trialOut{Hit: true, Class: "hang", Msg: in.Replay.Message}, ""
		}
		return trialOut{}, ""
	}
	var o trialOut
	if json.Unmarshal(ob.Bytes(), &o) != nil && in.Replay.BySeed != 0 {
		return trialOut{Hit: true, Class: "crash", Msg: in.Replay.Message}, eb.String()
	}
	return o, eb.String()
}

func minimise(v *Replay, verif, tier string) string {
	deadline := time.Now().Add(25 * time.Second)
	if tier == "thorough" {
		deadline = time.Now().Add(120 * time.Second)
	}
	cur := *v
	if v.BySeed != 0 {
		return writeReplay(&cur, verif, "not minimised: the process does not survive the run")
	}
	orig := fmt.Sprintf("%d decisions, %d faults, %d operations", len(v.Dec), len(v.Faults), countOps(v.Plan))
	note := ""
	// 1. does it need the process history?
	noPrefix := cur
	noPrefix.Prefix = nil
	if o, rep := trial(trialIn{Replay: noPrefix}, 30*time.Second); o.Hit {
		cur.Prefix = nil
		cur.Message = o.Msg
		if rep != "" {
			cur.Report = rep
		}
	} else if o, rep := trial(trialIn{Replay: cur}, 60*time.Second); o.Hit {
		// keep the shortest suffix of the history that still works
		for k := 1; k < len(v.Prefix) && time.Now().Before(deadline); k *= 2 {
			c := cur
			c.Prefix = v.Prefix[len(v.Prefix)-k:]
			if o2, rep2 := trial(trialIn{Replay: c}, 30*time.Second); o2.Hit {
				cur, rep = c, rep2
				break
			}
		}
		cur.Message = o.Msg
		if rep != "" {
			cur.Report = rep
		}
		note = " (depends on state left behind by earlier runs in the process; see prefix_runs)"
	} else {
		note = " (NOT reproduced in a fresh process: recorded as found)"
		return writeReplay(&cur, verif, orig+note)
	}
	ok := func(c Replay, search int) (Replay, bool) {
		o, rep := trial(trialIn{Replay: c, Search: search}, 20*time.Second)
		if !o.Hit {
			return c, false
		}
		c.Dec, c.Faults, c.Message = o.Dec, o.Faults, o.Msg
		if rep != "" {
			c.Report = rep
		}
		return c, true
	}
	// first success of candidates, in order, tried in parallel
	first := func(cands []Replay, search int) (Replay, bool) {
		for k := 0; k < len(cands); k += 8 {
			if time.Now().After(deadline) {
				return cur, false
			}
			part := cands[k:min(k+8, len(cands))]
			res := make([]Replay, len(part))
			hit := make([]bool, len(part))
			var wg sync.WaitGroup
			for j := range part {
				wg.Add(1)
				go func() { defer wg.Done(); res[j], hit[j] = ok(part[j], search) }()
			}
			wg.Wait()
			for j := range part {
				if hit[j] {
					return res[j], true
				}
			}
		}
		return cur, false
	}
	search := 150
	if len(cur.Prefix) > 0 {
		search = 0
	}
	for round := 0; round < 6 && time.Now().Before(deadline); round++ {
		before := len(cur.Dec) + len(cur.Faults) + countOps(cur.Plan)
		// operations
		for chunk := countOps(cur.Plan) / 2; chunk >= 1 && time.Now().Before(deadline); {
			var cands []Replay
			for at := 0; at < countOps(cur.Plan); at += chunk {
				c := cur
				c.Plan = dropOps(cur.Plan, at, chunk)
				if countOps(c.Plan) < countOps(cur.Plan) {
					cands = append(cands, c)
				}
			}
			if r, hit := first(cands, search); hit {
				cur = r
				if chunk > countOps(cur.Plan) {
					chunk = countOps(cur.Plan)
				}
				if chunk == 0 {
					break
				}
				continue
			}
			chunk /= 2
		}
		// faults
		for chunk := len(cur.Faults); chunk >= 1 && time.Now().Before(deadline); {
			var cands []Replay
			for at := 0; at < len(cur.Faults); at += chunk {
				c := cur
				c.Faults = append(append([]simrt.Fault{}, cur.Faults[:at]...), cur.Faults[min(at+chunk, len(cur.Faults)):]...)
				cands = append(cands, c)
			}
			if r, hit := first(cands, 0); hit {
				cur = r
				if len(cur.Faults) == 0 {
					break
				}
				if chunk > len(cur.Faults) {
					chunk = len(cur.Faults)
				}
				continue
			}
			chunk /= 2
		}
		// decisions
		for chunk := len(cur.Dec); chunk >= 1 && time.Now().Before(deadline); {
			var cands []Replay
			for at := 0; at < len(cur.Dec); at += chunk {
				c := cur
				c.Dec = append(append([]simrt.Decision{}, cur.Dec[:at]...), cur.Dec[min(at+chunk, len(cur.Dec)):]...)
				cands = append(cands, c)
			}
			if r, hit := first(cands, 0); hit {
				cur = r
				if len(cur.Dec) == 0 {
					break
				}
				if chunk > len(cur.Dec) {
					chunk = len(cur.Dec)
				}
				continue
			}
			chunk /= 2
		}
		if len(cur.Dec)+len(cur.Faults)+countOps(cur.Plan) == before {
			break
		}
	}
	*v = cur
	return writeReplay(&cur, verif, fmt.Sprintf("from %s to %d decisions, %d faults, %d operations%s", orig, len(cur.Dec), len(cur.Faults), countOps(cur.Plan), note))
}

func countOps(p *Plan) int {
	n := len(p.Setup)
	for _, c := range p.Clients {
		n += len(c)
	}
	return n
}

// dropOps removes k operations starting at the at-th (setup first), keeping client numbers.
func dropOps(p *Plan, at, k int) *Plan {
	q := *p
	q.Setup = nil
	q.Clients = make([][]Op, len(p.Clients))
	i := 0
	for _, o := range p.Setup {
		if i < at || i >= at+k || o.K == "conn" {
			q.Setup = append(q.Setup, o)
		}
		i++
	}
	for c := range p.Clients {
		q.Clients[c] = []Op{}
		for _, o := range p.Clients[c] {
			if i < at || i >= at+k {
				q.Clients[c] = append(q.Clients[c], o)
			}
			i++
		}
	}
	return &q
}

func writeReplay(r *Replay, verif, how string) string {
	r.Minimised = how
	ss := loadSites()
	r.Trace = nil
	for i, d := range r.Dec {
		if i >= 200 {
			r.Trace = append(r.Trace, "...")
			break
		}
		where := "(lock, wait, transport or harness point)"
		if s, ok := ss[int(d.S)]; ok {
			where = fmt.Sprintf("before %s:%d (%s)", s.File, s.Line, s.Fn)
		}
		if d.T < 0 {
			r.Trace = append(r.Trace, fmt.Sprintf("start with task %d", d.To))
		} else {
			r.Trace = append(r.Trace, fmt.Sprintf("task %d, its point %d %s: switch to task %d", d.T, d.L, where, d.To))
		}
	}
	for _, f := range r.Faults {
		r.Trace = append(r.Trace, fmt.Sprintf("task %d, its choice %d: inject %s (%d)", f.T, f.I, f.K, f.V))
	}
	dir := filepath.Join(verif, "replays")
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-run%d.json", r.Property, r.Seed, r.Run))
	r.How = "cd " + verif + " && bash check.sh replay " + path + "   (exit 1: reproduced)"
	var b bytes.Buffer
	enc := json.NewEncoder(&b)
	enc.SetEscapeHTML(false)
	enc.SetIndent("", " ")
	_ = enc.Encode(r)
	if err := os.WriteFile(path, b.Bytes(), 0o644); err != nil {
		fail(3, "%v", err)
	}
	return path
}

func writeEvidence(p *Prop, tier string, seed uint64, verif string, t *summary, viol *Replay, replay string, mism, compared int, wall float64, planned, W int) {
	ss := loadSites()
	files := map[string][2]int{}
	for _, s := range ss {
		v := files[s.File]
		v[1]++
		files[s.File] = v
	}
	if d := os.Getenv("DST_HITS"); d != "" { // development: which code was reached
		var missed []string
		seen := map[int]bool{}
		for _, i := range t.Hit {
			seen[i] = true
		}
		for i, s := range ss {
			if !seen[i] {
				missed = append(missed, fmt.Sprintf("%s:%d %s", s.File, s.Line, s.Fn))
			}
		}
		sort.Strings(missed)
		_ = os.WriteFile(filepath.Join(d, p.ID), []byte(strings.Join(missed, "\n")+"\n"), 0o644)
	}
	hit, pre := 0, 0
	for _, i := range t.Hit {
		if s, ok := ss[i]; ok {
			v := files[s.File]
			v[0]++
			files[s.File] = v
			hit++
		}
	}
	for _, i := range t.Pre {
		if _, ok := ss[i]; ok {
			pre++
		}
	}
	comp := map[string]string{}
	for f, v := range files {
		if v[0] > 0 {
			comp[f] = fmt.Sprintf("%d of %d scheduling points executed", v[0], v[1])
		}
	}
	faults := map[string]int64{}
	probes := map[string]int64{}
	for k, v := range t.Kinds {
		if strings.HasPrefix(k, "probe:") {
			probes[strings.TrimPrefix(k, "probe:")] = v
		} else {
			faults[k] = v
		}
	}
	nv := 0
	if viol != nil {
		nv = 1
	}
	cov := map[string]any{
		"evaluations":         t.Runs,
		"distinct_nontrivial": len(t.Hashes),
		"rule":                "one evaluation = one simulated run of a generated workload under a seeded schedule and fault sequence; non-trivial = at least two task switches or one injected fault; distinct = different hash of (sequence of (task, code site) at every switch, every client's event log). Workload: " + p.Rule,
		"samples":             t.Samples,
		"runs_planned":        planned,
		"stopped_by_time_cap": t.TimedOut,
		"runs_per_hour":       int(float64(t.Runs) / wall * 3600),
		"seeds_per_hour":      int(float64(t.Runs) / wall * 3600),
		"operations":          t.Ops,
		"scheduling_points":   t.Steps,
		"task_switches":       t.Switches,
		"simulated_seconds":   float64(t.SimNS) / 1e9,
		"faults_injected":     faults,
		"rare_conditions_hit": probes,
		"strategies":          t.Strat,
		"code_sites_executed": hit, "code_sites_preempted_at": pre, "code_sites_total": len(ss),
		"cold_start_processes":       t.Cold,
		"linearizability_undecided":  t.Incon,
		"determinism_runs_compared":  compared,
		"determinism_runs_different": mism,
		"worker_processes_parallel":  W,
		"components_real":            p.Real,
		"components_real_reached":    comp,
		"components_stub":            p.Stub,
	}
	if viol != nil {
		cov["violation"] = map[string]any{"class": viol.Class, "message": firstLine(viol.Message), "replay": replay, "run": viol.Run}
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wall, "violations": nv,
		"assumptions": []string{
			"scheduling points are statement boundaries of /repo/sql (function entries in the generated parser); between them the Go race detector (happens-before) decides unsynchronised accesses",
			"the simulator's replacement of package sync, of the clock, of map iteration order and of the random source behave as the originals do",
			"sampling: a clean batch is evidence for the schedules, faults and histories that were run, not a proof",
		},
	}
	dir := filepath.Join(verif, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	f, err := os.Create(filepath.Join(dir, p.ID+".json"))
	if err != nil {
		fail(3, "%v", err)
	}
	bw := bufio.NewWriter(f)
	enc := json.NewEncoder(bw)
	enc.SetEscapeHTML(false)
	enc.SetIndent("", " ")
	_ = enc.Encode(ev)
	_ = bw.Flush()
	_ = f.Close()
}
