package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"sort"
)

func top(m map[string]int, n int) map[string]int {
	ks := sortedKeys(m)
	sort.SliceStable(ks, func(i, j int) bool { return m[ks[i]] > m[ks[j]] })
	out := map[string]int{}
	for i, k := range ks {
		if i < n {
			out[k] = m[k]
		}
	}
	return out
}

func writeEvidence(prop, tier string, base int, dir string, runs map[uint64]runRec, st *Stats, viols []*Scenario, explore, wall float64, redo, same int, b budget, known map[string]int) {
	distinct := map[string]bool{}
	flt := 0
	var seeds []uint64
	for s, r := range runs {
		seeds = append(seeds, s)
		if r.non {
			distinct[r.trace] = true
		}
		if r.flt {
			flt++
		}
	}
	sort.Slice(seeds, func(i, j int) bool { return seeds[i] < seeds[j] })
	var samples []any
	for i, s := range seeds {
		if i >= 3 {
			break
		}
		sc := genScenario(prop, s)
		if len(sc.Steps) > 14 {
			sc.Steps = sc.Steps[:14]
		}
		samples = append(samples, map[string]any{"seed": s, "trace": runs[s].trace, "scenario": sc})
	}
	perHour := 0.0
	if explore > 0 {
		perHour = float64(len(runs)) / explore * 3600
	}
	cov := map[string]any{
		"evaluations":         len(runs),
		"distinct_nontrivial": len(distinct),
		"rule": "a case is one simulated run: one seed decides the parameter set, the parties, every operation, every fault and every interleaving. " +
			"It is non-trivial if the library completed at least four operations in it; it is distinct if its trace hash (operations, outcomes, crash points, schedule and the bits of every result) is.",
		"samples":                      samples,
		"seeds_per_hour":               perHour,
		"runs_with_faults":             flt,
		"simulated_time_s":             st.SimMs / 1000,
		"simulated_steps":              st.Yields,
		"runs_by_kind":                 st.Kinds,
		"operations":                   st.Ops,
		"faults_injected":              st.Faults,
		"oracle_checks":                st.Checks,
		"schedule_switches":            st.Switch,
		"distinct_fault_sites":         len(st.Sites),
		"fault_sites_most_hit":         top(st.Sites, 12),
		"largest_error_over_bound":     st.MaxRat,
		"steps_not_applicable":         st.Skipped,
		"breaches_of_other_properties": st.Other,
		"determinism_selfcheck":        map[string]int{"rerun_in_another_process": redo, "identical_trace": same},
		"known_findings_met":           known,
		"budget":                       map[string]int{"runs": b.count, "seconds": b.secs},
		"components_running_real_code": []string{"mkrlwe", "mkckks", "mkbfv", "cnn", "lattigo v2.3.0 (ring, rlwe, ckks, bfv, utils)"},
		"components_replaced_by_stubs": []string{"crypto/rand.Reader (seeded entropy with short reads)", "Go map iteration order (seeded)", "goroutine scheduling (seeded, one runs at a time)", "network, clock and node restarts (simulated; messages are deep copies)"},
		"interleavings_measure":        "distinct trace hashes; for threads the hash includes every switch decision",
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": base, "level": "exploration",
		"coverage": cov,
		"assumptions": []string{
			"parameter sets are drawn with rings of degree 16 to 1024 (16384 for the neural network) and realistic moduli, not at deployment size",
			"noise bounds are heuristic (14 standard deviations of the expected noise); the ratios observed are in largest_error_over_bound",
			"lattigo's own arithmetic is trusted by the oracles (polynomial arithmetic, encoding)",
		},
		"wall_s":     wall,
		"violations": len(viols),
	}
	bb, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, prop+".json"), append(bb, '\n'), 0o644)
}
