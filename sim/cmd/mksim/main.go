package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"mksim/simhook"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "mksim: "+f+"\n", a...)
	os.Exit(2)
}

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		die("not a number: %q", s)
	}
	return n
}

func main() {
	if len(os.Args) < 2 {
		die("usage: mksim check|worker|minimise|replay|show|try ...")
	}
	a := os.Args[2:]
	switch os.Args[1] {
	case "check":
		os.Exit(check(a[0], a[1], a[2]))
	case "worker": // prop seed first stride count seconds
		worker(a[0], atoi(a[1]), atoi(a[2]), atoi(a[3]), atoi(a[4]), atoi(a[5]))
	case "minimise":
		minimiseFile(a[0], a[1], atoi(a[2]))
	case "replay":
		os.Exit(replay(a[0]))
	case "show":
		dump(a[0], uint64(atoi(a[1])))
	case "hunt":
		os.Exit(hunt(a))
	case "try":
		try(a)
	default:
		die("unknown command %q", os.Args[1])
	}
}

// ---- known findings ---------------------------------------------------------------------------

type Finding struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Op       string `json:"op"`
	Match    string `json:"match"`
	What     string `json:"what"`
}

func knownFindings() []Finding {
	f := os.Getenv("MKSIM_KNOWN")
	if f == "" {
		return nil
	}
	b, err := os.ReadFile(f)
	if err != nil {
		die("%v", err)
	}
	var k struct {
		Open []Finding `json:"open"`
	}
	if err := json.Unmarshal(b, &k); err != nil {
		die("%s: %v", f, err)
	}
	return k.Open
}

func (f *Finding) covers(prop string, v Viol) bool {
	return f.Property == prop && f.Class == v.Class && (f.Op == "" || f.Op == v.Op) && strings.Contains(v.Msg, f.Match)
}

// ---- worker -----------------------------------------------------------------------------------

type report struct {
	Kind  string          `json:"k"` // start, run, viol, stats, known
	Seed  uint64          `json:"s,omitempty"`
	Trace string          `json:"t,omitempty"`
	Non   bool            `json:"n,omitempty"`
	Flt   bool            `json:"f,omitempty"`
	Sc    json.RawMessage `json:"sc,omitempty"`
	Stats *Stats          `json:"st,omitempty"`
	Known string          `json:"known,omitempty"`
}

func seedOf(base, i int) uint64 { return uint64(base)*1000003 + uint64(i) }

func worker(prop string, base, first, stride, count, secs int) {
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(2 << 30)
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	enc := json.NewEncoder(out)
	emit := func(r report) {
		if err := enc.Encode(r); err != nil {
			os.Exit(3)
		}
		out.Flush()
	}
	known := knownFindings()
	suspects := 0
	t0 := time.Now()
	// one scenario may not take longer than this; only reached by code that never yields
	watch := time.AfterFunc(time.Hour, func() { os.Exit(7) })
	for i := first; i < count; i += stride {
		if time.Since(t0) > time.Duration(secs)*time.Second {
			break
		}
		seed := seedOf(base, i)
		emit(report{Kind: "start", Seed: seed})
		watch.Reset(100 * time.Second)
		sc := genScenario(prop, seed)
		res := execute(sc)
		var bad []Viol
		for _, v := range res.Viol {
			k := false
			for _, f := range known {
				if f.covers(prop, v) {
					k = true
					emit(report{Kind: "known", Known: f.What})
				}
			}
			if !k {
				bad = append(bad, v)
			}
		}
		for _, v := range res.Other {
			stats.Other[v.key()]++
		}
		if prop == "C04" && len(bad) == 0 && len(res.Other) > 0 && suspects < 4 {
			suspects++
			if v, ok := astray(sc, res); ok {
				bad = append(bad, v)
			}
		}
		if len(bad) > 0 {
			sc.Viol = &bad[0]
			sc.Trace = fmt.Sprintf("%016x", res.Trace)
			b, _ := json.Marshal(sc)
			emit(report{Kind: "viol", Seed: seed, Sc: b})
			return
		}
		emit(report{Kind: "run", Seed: seed, Trace: fmt.Sprintf("%016x", res.Trace), Non: res.Nontriv, Flt: res.Faulty})
	}
	emit(report{Kind: "stats", Stats: stats})
}

// ---- replay -----------------------------------------------------------------------------------

func load(f string) *Scenario {
	b, err := os.ReadFile(f)
	if err != nil {
		die("%v", err)
	}
	sc := new(Scenario)
	if err := json.Unmarshal(b, sc); err != nil {
		die("%s: %v", f, err)
	}
	return sc
}

// replay performs the file's execution: 1 if it shows the violation it was recorded for.
func replay(f string) int {
	sc := load(f)
	want := sc.Viol
	if want != nil && want.Class == "death" && os.Getenv("MKSIM_CHILD") == "" {
		self, _ := os.Executable()
		if why := dies(self, f, 60*time.Second); why != "" {
			fmt.Println(why)
			fmt.Printf("VIOLATION property=%s replay=%s\n", sc.Prop, f)
			return 1
		}
		fmt.Println("no violation")
		return 0
	}
	if want != nil && want.Class == "race" && !simhook.Race {
		o, rc := raceReplay(f, os.Getenv("MKSIM_RESULT"))
		fmt.Print(o)
		return rc
	}
	time.AfterFunc(300*time.Second, func() { fmt.Println("the run did not finish"); os.Exit(7) })
	res := execute(sc)
	if f := os.Getenv("MKSIM_RESULT"); f != "" {
		b, _ := json.Marshal(res)
		os.WriteFile(f, b, 0o644)
	}
	if want != nil && want.Class == "process" && os.Getenv("MKSIM_CHILD") == "" {
		if v, ok := astray(sc, res); ok {
			res.Viol = append(res.Viol, v)
		}
	}
	for _, v := range res.Viol {
		fmt.Printf("property %s: step %d (%s), %s: %s\n", sc.Prop, v.Step, v.Op, v.Class, v.Msg)
	}
	fmt.Printf("trace %016x", res.Trace)
	if sc.Trace != "" {
		fmt.Printf(" (recorded %s)", sc.Trace)
	}
	fmt.Println()
	for _, v := range res.Viol {
		if want == nil || v.same(*want) {
			fmt.Printf("VIOLATION property=%s replay=%s\n", sc.Prop, f)
			return 1
		}
	}
	fmt.Println("no violation")
	return 0
}

// ---- minimiser --------------------------------------------------------------------------------

// dies performs a run in a process of its own and tells how that ends, if not by itself.
func dies(self, f string, limit time.Duration) string {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, self, "replay", f)
	cmd.Env = append(os.Environ(), "MKSIM_CHILD=1")
	o, err := cmd.CombinedOutput()
	if ctx.Err() != nil {
		return fmt.Sprintf("the run does not finish (%v)", limit)
	}
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() > 1 {
		if len(o) > 1500 {
			o = o[:1500]
		}
		return "the process dies: " + string(o)
	}
	return ""
}

func shows(sc *Scenario, want Viol) (Viol, uint64, bool) {
	if want.Class == "death" {
		f, err := os.CreateTemp("", "mksim-death-*.json")
		if err != nil {
			return Viol{}, 0, false
		}
		defer os.Remove(f.Name())
		b, _ := json.Marshal(sc)
		f.Write(b)
		f.Close()
		self, _ := os.Executable()
		limit := 30 * time.Second
		if strings.HasPrefix(want.Msg, "the run did not finish") && len(sc.Steps) < 200 {
			limit = 10 * time.Second
		}
		if dies(self, f.Name(), limit) != "" {
			return want, 0, true
		}
		return Viol{}, 0, false
	}
	res := &Result{}
	if want.Class == "process" {
		if len(sc.Prior) == 0 {
			return Viol{}, 0, false
		}
		res = apart(sc)
		if v, ok := astray(sc, res); ok {
			return v, res.Trace, true
		}
		return Viol{}, 0, false
	}
	if os.Getenv("MKSIM_ISOLATE") != "" || len(sc.Prior) > 0 || want.Class == "race" {
		res = apart(sc)
	} else {
		res = execute(sc)
	}
	for _, v := range res.Viol {
		if v.same(want) {
			return v, res.Trace, true
		}
	}
	return Viol{}, 0, false
}

// same tells whether v is the violation that was recorded. Which two of several racing accesses the race detector
// names is not up to the simulator.
func (v Viol) same(want Viol) bool {
	return v.Class == want.Class && (v.Op == want.Op || v.Class == "race")
}

// astray looks for a breach that a run shows after other runs of its process, and not in a process of its own.
func astray(sc *Scenario, with *Result) (Viol, bool) {
	if len(with.Other) == 0 {
		return Viol{}, false
	}
	c := sc.clone()
	c.Prior, c.Viol = nil, nil
	alone := apart(c)
	if alone.Trace == 0 || len(alone.Viol) > 0 {
		return Viol{}, false
	}
	for _, v := range with.Other {
		for _, w := range alone.Other {
			if w.Step <= v.Step {
				return Viol{}, false
			}
		}
		return Viol{Class: "process", Step: v.Step, Op: v.Op, Msg: "right in a new process, wrong after other runs in the same process: " + v.Class + ": " + v.Msg}, true
	}
	return Viol{}, false
}

// apart performs a scenario in a process of its own.
func apart(sc *Scenario) *Result {
	res := new(Result)
	d, err := os.MkdirTemp("", "mksim-apart")
	if err != nil {
		return res
	}
	defer os.RemoveAll(d)
	b, _ := json.Marshal(sc)
	os.WriteFile(filepath.Join(d, "sc.json"), b, 0o644)
	self, _ := os.Executable()
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, self, "replay", filepath.Join(d, "sc.json"))
	cmd.Env = append(os.Environ(), "MKSIM_CHILD=1", "MKSIM_RESULT="+filepath.Join(d, "res.json"))
	cmd.Run()
	if b, err := os.ReadFile(filepath.Join(d, "res.json")); err == nil {
		json.Unmarshal(b, res)
	}
	return res
}

// minimiseFile shrinks the scenario while a violation of the same class and operation persists.
func minimiseFile(in, out string, secs int) {
	sc := load(in)
	end := time.Now().Add(time.Duration(secs) * time.Second)
	want := *sc.Viol
	mi := &MiniInfo{StepsBefore: sc.size()}
	best := sc
	save := func() {
		v, tr, ok := shows(best, want)
		mi.Tried++
		if !ok {
			return
		}
		best.Viol, best.Trace = &v, fmt.Sprintf("%016x", tr)
		mi.StepsAfter = best.size()
		best.Mini = mi
		b, _ := json.MarshalIndent(best, "", " ")
		os.WriteFile(out, append(b, '\n'), 0o644)
	}
	test := func(c *Scenario) bool {
		if time.Now().After(end) {
			return false
		}
		mi.Tried++
		_, _, ok := shows(c, want)
		if ok {
			best = c
		}
		return ok
	}
	for round := 0; round < 4; round++ {
		before := best.size()
		for _, part := range parts {
			n := part.len(best)
			for chunk := (n + 1) / 2; chunk >= 1; chunk /= 2 {
				for at := 0; at < part.len(best); {
					c := part.cut(best, at, min(at+chunk, part.len(best)))
					if !test(c) {
						at += chunk
					}
				}
				if time.Now().After(end) {
					break
				}
			}
		}
		for _, c := range simpler(best) {
			test(c)
		}
		if best.size() == before || time.Now().After(end) {
			break
		}
	}
	save()
}

// part is one list of a scenario the minimiser may shorten.
type part struct {
	len func(*Scenario) int
	cut func(sc *Scenario, a, b int) *Scenario
}

func without[T any](xs []T, a, b int) []T {
	return append(append([]T{}, xs[:a]...), xs[b:]...)
}

func (sc *Scenario) clone() *Scenario {
	b, _ := json.Marshal(sc)
	c := new(Scenario)
	if err := json.Unmarshal(b, c); err != nil {
		panic(err)
	}
	return c
}

var parts = []part{
	{func(s *Scenario) int { return len(s.Prior) }, func(s *Scenario, a, b int) *Scenario {
		c := s.clone()
		c.Prior = without(c.Prior, a, b)
		return c
	}},
	{func(s *Scenario) int { return len(s.Steps) }, func(s *Scenario, a, b int) *Scenario {
		c := s.clone()
		c.Steps = without(c.Steps, a, b)
		return c
	}},
}

func (sc *Scenario) size() int {
	n := 0
	for _, p := range parts {
		n += p.len(sc)
	}
	return n
}

// simpler proposes simplified variants of single elements.
func simpler(sc *Scenario) []*Scenario {
	var out []*Scenario
	if sc.Short != 0 {
		c := sc.clone()
		c.Short = 0
		out = append(out, c)
	}
	if sc.Cfg != nil && sc.Cfg.NEv > 1 {
		c := sc.clone()
		c.Cfg.NEv = 1
		out = append(out, c)
	}
	for i := range sc.Steps {
		if n := sc.Steps[i].R; n > 0 {
			for _, m := range []int{0, n / 2, n * 3 / 4, n * 7 / 8, n - 1} {
				c := sc.clone()
				c.Steps[i].R = m
				out = append(out, c)
			}
		}
		if sc.Steps[i].V != nil && sc.Steps[i].V.K != "const" {
			c := sc.clone()
			c.Steps[i].V = &Vec{K: "const", Mag: 1}
			out = append(out, c)
		}
		if sc.Steps[i].U {
			c := sc.clone()
			c.Steps[i].U = false
			out = append(out, c)
		}
	}
	return out
}

// ---- master -----------------------------------------------------------------------------------

type budget struct {
	count int // runs
	secs  int
}

// quick budgets are counts of runs with a time limit as a backstop.
var quick = map[string]budget{
	"C06": {16000, 120}, "C01": {20000, 120}, "C02": {16000, 120}, "C03": {11000, 120}, "C04": {20000, 120}, "C05": {14000, 120}, "C07": {14000, 120},
	"C08": {11000, 120}, "C09": {13000, 120}, "C10": {12000, 120}, "C11": {22000, 120}, "C13": {20000, 120}, "C12": {12000, 120},
}

func budgetOf(prop, tier string) budget {
	b, ok := quick[prop]
	if !ok {
		b = budget{4000, 45}
	}
	if tier == "thorough" {
		b.count *= 40
		b.secs = 1500
	}
	if s := os.Getenv("MKSIM_SECS"); s != "" {
		b.secs, b.count = atoi(s), 1<<30
	}
	return b
}

type runRec struct {
	trace string
	non   bool
	flt   bool
}

func check(prop, tier, evid string) int {
	t0 := time.Now()
	base := 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		base = atoi(s)
	}
	fmt.Printf("property %s, tier %s, seed %d\n", prop, tier, base)
	known := knownFindings()
	b := budgetOf(prop, tier)
	self, _ := os.Executable()
	work, err := os.MkdirTemp("", "mksim-")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(work)
	const W = 8
	var mu sync.Mutex
	runs := map[uint64]runRec{}
	var order []uint64
	var viols []*Scenario
	st := newStats()
	seenKnown := map[string]int{}
	var lost []*Scenario // reported, but not reproduced
	var next [W]int
	for w := range next {
		next[w] = w
	}
	explore := 0.0
	found := ""
again:
	var cmds []*exec.Cmd
	stop := false
	var wg sync.WaitGroup
	problem := ""
	t1 := time.Now()
	for w := 0; w < W; w++ {
		cmd := exec.Command(self, "worker", prop, fmt.Sprint(base), fmt.Sprint(next[w]), fmt.Sprint(W), fmt.Sprint(b.count), fmt.Sprint(b.secs-int(explore)))
		errf, _ := os.Create(filepath.Join(work, fmt.Sprintf("err%d", w)))
		cmd.Stderr = errf
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
		if bin := raceBin(); bin != "" && prop == "C06" && w%2 == 1 {
			cmd = exec.Command(bin, cmd.Args[1:]...)
			cmd.Env = append(raceEnv(filepath.Join(work, fmt.Sprintf("race%d", w))), "GOMAXPROCS=2")
			cmd.Stderr = errf
		}
		p, err := cmd.StdoutPipe()
		if err != nil {
			die("%v", err)
		}
		if err := cmd.Start(); err != nil {
			die("%v", err)
		}
		cmds = append(cmds, cmd)
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			dec := json.NewDecoder(p)
			last, fin := uint64(0), false
			for {
				var r report
				if err := dec.Decode(&r); err != nil {
					break
				}
				mu.Lock()
				switch r.Kind {
				case "start":
					last = r.Seed
					next[w] = int(r.Seed - seedOf(base, 0))
				case "run":
					runs[r.Seed] = runRec{r.Trace, r.Non, r.Flt}
					order = append(order, r.Seed)
				case "known":
					seenKnown[r.Known]++
				case "viol":
					sc := new(Scenario)
					json.Unmarshal(r.Sc, sc)
					viols = append(viols, sc)
					stop, fin = true, true
					next[w] += W
					for _, c := range cmds {
						if c != cmd {
							c.Process.Kill()
						}
					}
				case "stats":
					st.merge(r.Stats)
					fin = true
				}
				mu.Unlock()
			}
			io.Copy(io.Discard, p)
			werr := cmd.Wait()
			errf.Close()
			mu.Lock()
			defer mu.Unlock()
			if !fin && !stop {
				// the library took the whole process down, or never came back
				txt, _ := os.ReadFile(errf.Name())
				sc := genScenario(prop, last)
				msg := "the process died"
				if ee, ok := werr.(*exec.ExitError); ok && ee.ExitCode() == 7 {
					msg = "the run did not finish"
				}
				if len(txt) > 1500 {
					txt = txt[:1500]
				}
				if strings.Contains(string(txt), "harness") || !strings.Contains(string(txt), "mk-lattigo/") && msg == "the process died" {
					problem = fmt.Sprintf("worker %d ended with %v at seed %d:\n%s", w, werr, last, txt)
				} else {
					next[w] += W
					sc.Viol = &Viol{Class: "death", Op: "process", Msg: msg + ": " + string(txt)}
					viols = append(viols, sc)
				}
				stop = true
				for _, c := range cmds {
					if c != cmd {
						c.Process.Kill()
					}
				}
			}
		}(w)
	}
	wg.Wait()
	explore += time.Since(t1).Seconds()
	if problem != "" && len(viols) == 0 {
		fmt.Println(problem)
		return 2
	}
	repDir := filepath.Join(evid, "replays")
	os.MkdirAll(repDir, 0o755)
	sort.Slice(viols, func(i, j int) bool { return viols[i].size() < viols[j].size() })
	for i, sc := range viols {
		if found != "" {
			break
		}
		raw := filepath.Join(work, fmt.Sprintf("raw%d.json", i))
		bb, _ := json.MarshalIndent(sc, "", " ")
		os.WriteFile(raw, append(bb, '\n'), 0o644)
		dst := filepath.Join(repDir, fmt.Sprintf("%s-%d.json", prop, sc.Seed))
		if sc.Viol.Class == "death" {
			// reproduced by dying again
			mini := filepath.Join(work, fmt.Sprintf("mini%d.json", i))
			exec.Command(self, "minimise", raw, mini, "60").Run()
			for _, f := range []string{mini, raw} {
				bb, err := os.ReadFile(f)
				if err != nil {
					continue
				}
				os.WriteFile(dst, bb, 0o644)
				if confirm(self, dst) == 1 {
					found = dst
					x := load(dst)
					fmt.Printf("seed %d, %d elements (%d before minimising): %s\n", x.Seed, x.size(), sc.size(), sc.Viol.Msg)
					break
				}
			}
			continue
		}
		mini := filepath.Join(work, fmt.Sprintf("mini%d.json", i))
		shrink := func(in, secs string, env ...string) {
			os.Remove(mini)
			cmd := exec.Command(self, "minimise", in, mini, secs)
			cmd.Env = append(os.Environ(), env...)
			cmd.Run()
		}
		take := func(f string) bool {
			bb, err := os.ReadFile(f)
			if err != nil {
				return false
			}
			os.WriteFile(dst, bb, 0o644)
			return confirm(self, dst) == 1
		}
		// the violation alone in a new process; else with what the worker's process had done before it
		shrink(raw, "40")
		ok := take(mini)
		if !ok && take(raw) {
			shrink(raw, "40", "MKSIM_ISOLATE=1")
			ok = take(mini) || take(raw)
		}
		for k, t1 := 1, time.Now(); !ok && time.Since(t1) < 200*time.Second; k *= 2 {
			at := int(sc.Seed - seedOf(base, 0))
			c := sc.clone()
			c.Prior = nil
			for j := at - W; j >= 0 && len(c.Prior) < k; j -= W {
				c.Prior = append([]*Scenario{genScenario(prop, seedOf(base, j))}, c.Prior...)
			}
			full := filepath.Join(work, fmt.Sprintf("full%d.json", i))
			bb, _ := json.Marshal(c)
			os.WriteFile(full, append(bb, '\n'), 0o644)
			if confirm(self, full) == 1 {
				shrink(full, "60", "MKSIM_ISOLATE=1")
				ok = take(mini) || take(full)
				break
			}
			if len(c.Prior) < k {
				break
			}
		}
		if ok {
			found = dst
			x := load(dst)
			with := ""
			if n := len(x.Prior); n > 0 {
				with = fmt.Sprintf(" after %d other runs in the process", n)
			}
			fmt.Printf("seed %d%s, %d elements (%d before minimising): step %d (%s), %s: %s\n", x.Seed, with, x.size(), sc.size(), x.Viol.Step, x.Viol.Op, x.Viol.Class, x.Viol.Msg)
		}
	}
	if found == "" && len(viols) > 0 {
		// what does not happen again cannot be reported: the search goes on behind it
		for _, v := range viols {
			fmt.Printf("note: seed %d: this did not happen again: %.300s\n", v.Seed, v.Viol.Class+" "+v.Viol.Msg)
		}
		lost, viols = append(lost, viols...), nil
		if len(lost) < 6 && explore+5 < float64(b.secs) && time.Since(t0).Seconds() < float64(b.secs)+330 {
			goto again
		}
	}
	// determinism: some seeds once more, in another process
	redo, same := 0, 0
	if len(viols) == 0 && len(order) > 0 {
		sort.Slice(order, func(i, j int) bool { return order[i] < order[j] })
		n := 32
		if b.count < 500 {
			n = 1
		}
		cmd := exec.Command(self, "worker", prop, fmt.Sprint(base), "0", fmt.Sprint(max(1, len(order)/n)), fmt.Sprint(b.count), "5")
		cmd.Env = append(os.Environ(), "GOMAXPROCS=5", "GOGC=30")
		o, _ := cmd.Output()
		dec := json.NewDecoder(strings.NewReader(string(o)))
		for {
			var r report
			if dec.Decode(&r) != nil {
				break
			}
			if x, ok := runs[r.Seed]; ok && r.Kind == "run" {
				redo++
				if x.trace == r.Trace {
					same++
				} else {
					fmt.Printf("note: seed %d ran differently the second time\n", r.Seed)
				}
			}
		}
	}
	for _, f := range known {
		if f.Property == prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.What)
		}
	}
	writeEvidence(prop, tier, base, evid, runs, st, viols, explore, time.Since(t0).Seconds(), redo, same, b, seenKnown)
	fmt.Printf("%d runs in %.1f s, %d faults injected, %d oracle checks\n", len(runs), explore, total(st.Faults), total(st.Checks))
	if found != "" {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, found)
		return 1
	}
	for _, v := range lost {
		if v.Viol.Class != "race" {
			fmt.Printf("a worker reported a violation that did not reproduce: %+v\n", *v.Viol)
			return 2
		}
	}
	return 0
}

func confirm(self, f string) int {
	cmd := exec.Command(self, "replay", f)
	err := cmd.Run()
	if err == nil {
		return 0
	}
	if ee, ok := err.(*exec.ExitError); ok {
		return ee.ExitCode()
	}
	return 3
}

// hunt performs runs of several properties in turn for some seconds, up to the first violation (a development tool).
func hunt(a []string) int {
	end := time.Now().Add(time.Duration(atoi(a[0])) * time.Second)
	for i := 0; time.Now().Before(end); i++ {
		for _, prop := range a[1:] {
			if prop == "C12" && len(a) > 2 && i%8 != 7 {
				continue
			}
			for _, v := range execute(genScenario(prop, seedOf(1, i))).Viol {
				fmt.Printf("%s run %d: step %d (%s), %s: %.200s\n", prop, i, v.Step, v.Op, v.Class, v.Msg)
				return 1
			}
		}
	}
	return 0
}

func try(a []string) {
	n := 200
	prop := a[0]
	from := 1
	if len(a) > 1 {
		n = atoi(a[1])
	}
	if len(a) > 2 {
		from = atoi(a[2])
		n += from - 1
	}
	cls := map[string]int{}
	for i := from; i <= n; i++ {
		sc := genScenario(prop, uint64(i))
		res := execute(sc)
		for _, v := range res.Viol {
			cls[v.key()]++
			if cls[v.key()] <= 2 {
				fmt.Printf("seed %d (%s) size %d: %+v\n", i, sc.Kind, sc.size(), v)
				for _, st := range sc.Steps {
					if st.ID == v.Step {
						b, _ := json.Marshal(st)
						fmt.Println("   ", string(b))
					}
				}
			}
		}
		for _, v := range res.Other {
			k := "other " + v.key()
			cls[k]++
			if cls[k] == 1 {
				fmt.Printf("OTHER seed %d: %+v\n", i, v)
			}
		}
	}
	fmt.Println(cls)
	fmt.Println(stats.Kinds, stats.Ops)
	fmt.Println(stats.Faults)
	fmt.Println(stats.Checks, "simulated ms", stats.SimMs, "switches", stats.Switch)
	for _, k := range sortedKeys(stats.MaxRat) {
		fmt.Printf("%s %.3f  ", k, stats.MaxRat[k])
	}
	fmt.Println()
}
