package main

import "os"

// Result is what one simulated run showed.
type Result struct {
	Viol    []Viol `json:"viol,omitempty"`
	Other   []Viol `json:"other,omitempty"`
	Trace   uint64 `json:"trace"`
	Nontriv bool   `json:"nontriv"`
	Faulty  bool   `json:"faulty"`
}

// genScenario draws the scenario of a seed; the code under test is not run.
func genScenario(prop string, seed uint64) *Scenario {
	r := NewR(mixs(strh(prop), seed, 99))
	for _, k := range kindsOf[prop] {
		if k.few && seed%8 > 1 {
			continue // memory: two of the eight workers at most
		}
		if r.P(k.p) {
			return k.gen(prop, seed)
		}
	}
	return genProg(prop, seed)
}

type kindGen struct {
	p   float64
	gen func(string, uint64) *Scenario
	few bool
}

// kindsOf: which properties are also explored by other kinds of runs than single programs.
var kindsOf = map[string][]kindGen{}

var runners = map[string]func(*Scenario) *Result{"prog": runProg}

// execute performs a scenario.
func execute(sc *Scenario) *Result {
	for _, p := range sc.Prior {
		execute(p)
	}
	curEnt = &Entropy{r: NewR(mixs(sc.Seed, 0xe0)), short: sc.Short}
	gang.reset(sc.Seed)
	resetMachine(sc.Seed)
	maxYields = 1 << 30
	if sc.Cfg != nil && sc.Cfg.LogN <= 8 {
		maxYields = 1 << 28
		if sc.Kind == "thr" {
			maxYields = 1 << 26
		}
	}
	f := runners[sc.Kind]
	if f == nil {
		panic("unknown kind of scenario " + sc.Kind)
	}
	fb := total(stats.Faults)
	res := f(sc)
	res.Faulty = total(stats.Faults) > fb
	stats.Kinds[sc.Kind]++
	return res
}

func runProg(sc *Scenario) *Result {
	o, scope := runOpts(sc.Prop)
	r := newRun(sc, o)
	r.scope = scope
	if os.Getenv("MKSIM_DEBUG") != "" {
		r.o.value, r.dbg = true, true
	}
	r.run()
	return &Result{Viol: r.viol, Other: r.other, Trace: r.trace, Nontriv: r.done >= 4}
}
