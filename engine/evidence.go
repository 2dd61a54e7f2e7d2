package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"time"
)

type evInfo struct {
	loadT, exploreT, total time.Duration
	fns                    []string
	blocks, covered        int
	hstats                 []map[string]interface{}
	validated, mismatched  int
	unconfirmed            []string
	viols                  []map[string]interface{}
	srcHash, hdir          string
	exit, known            int
}

func writeEvidence(dir, prop, tier string, ex *Explorer, i evInfo) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var samples []interface{}
	seen := map[string]int{}
	for _, d := range ex.dones {
		if seen[d.Harness] >= 2 || len(samples) >= 12 {
			continue
		}
		seen[d.Harness]++
		m := d.Model
		if len(m) > 24 {
			m = map[string]uint64{}
			n := 0
			for k, v := range d.Model {
				m[k] = v
				if n++; n >= 24 {
					break
				}
			}
		}
		obs := d.Obs
		if len(obs) > 8 {
			obs = obs[:8]
		}
		var o2 []string
		for _, s := range obs {
			if len(s) > 200 {
				s = s[:200] + "..."
			}
			o2 = append(o2, s)
		}
		samples = append(samples, map[string]interface{}{"harness": d.Harness, "choices": d.Choices, "model": m, "observed": o2, "reached": d.Reach})
	}
	if len(samples) == 0 {
		samples = append(samples, "no path completed")
	}
	cov := map[string]interface{}{
		"states":                               ex.completed,
		"transitions":                          ex.decisions,
		"traces_validated_against_impl":        i.validated,
		"samples":                              samples,
		"states_meaning":                       "complete symbolic paths through the encoded code (each stands for every input that satisfies its path condition)",
		"transitions_meaning":                  "symbolic branch decisions, value splits and choices taken on those paths",
		"paths_started":                        ex.paths,
		"paths_cut_by_assumption":              ex.assumeEnds,
		"ssa_instructions_executed":            ex.steps,
		"assertions_checked":                   ex.asserts,
		"assertions_unsat_by_solver":           ex.assertSolver,
		"assertions_true_after_simplification": ex.assertConst,
		"assertions_without_answer":            ex.assertUnk,
		"solver_queries":                       ex.st.Queries,
		"solver_sat":                           ex.st.SatN,
		"solver_unsat":                         ex.st.UnsatN,
		"solver_unknown":                       ex.st.UnknownN,
		"solver_seconds":                       float64(ex.st.Nanos) / 1e9,
		"slowest_query_ms":                     ex.st.MaxMillis,
		"cross_checked_with_second_solver":     ex.st.CrossN,
		"cross_check_disagreements":            ex.st.CrossBad,
		"longest_path_condition":               ex.maxPC,
		"longest_decision_sequence":            ex.maxDec,
		"functions_encoded":                    i.fns,
		"basic_blocks_executed":                fmt.Sprintf("%d of %d in those functions", i.covered, i.blocks),
		"harnesses":                            i.hstats,
		"reached":                              ex.reached,
		"outside_bounds_or_incomplete":         ex.incompleteList(),
		"unconfirmed_counterexamples":          i.unconfirmed,
		"replay_mismatches":                    i.mismatched,
		"violations":                           i.viols,
		"known_findings_seen":                  i.known,
		"source_hash":                          i.srcHash,
		"encoding":                             "go/ssa of /repo's working tree, rebuilt on this run",
		"solver":                               "z3-new (5.x) incremental, cvc5 fallback and cross-check",
	}
	if raw, err := os.ReadFile(filepath.Join(i.hdir, "bounds.json")); err == nil {
		var m map[string]map[string]string
		if json.Unmarshal(raw, &m) == nil {
			cov["bounds"] = m[prop]
		}
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": i.total.Seconds()}
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, prop+".json"), b, 0o644)
}
