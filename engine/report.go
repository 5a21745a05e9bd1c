package main

import (
	"bufio"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// confirm replays a candidate counterexample on the real code. A counterexample in which the
// code hashes contents the harness does not know (other than repeated key bytes) has to hold
// up with ordinary values for those hashes too: the scenario says nothing about them, and a
// solver that may choose them can make distinct keys collide for ever.
func (d *Driver) confirm(nat *Native, v *Violation) bool {
	if !d.confirmModel(nat, v, v.Model) {
		return false
	}
	known := v.Model.withoutForeign()
	if known == nil || d.confirmModel(nat, v, known) {
		return true
	}
	v.Native += "; only with hash values chosen for contents the harness does not know"
	return false
}

// withoutForeign is the model without hashes of unknown contents, nil if it has none.
func (r *Replay) withoutForeign() *Replay {
	q := *r
	q.Hashes = nil
	for _, h := range r.Hashes {
		if !h.Foreign {
			q.Hashes = append(q.Hashes, h)
		}
	}
	if len(q.Hashes) == len(r.Hashes) {
		return nil
	}
	return &q
}

func (d *Driver) confirmModel(nat *Native, v *Violation, m *Replay) bool {
	try := func(variant string, env ...string) bool {
		r := nat.Run(variant, env, []*Replay{m})[0]
		if v.Native != "" {
			v.Native += "; "
		}
		v.Native += strings.TrimSpace(variant+" "+strings.Join(env, " ")) + ": " + clip(r, 600)
		return nativeBad(r)
	}
	switch v.Kind {
	case "race":
		for i := 0; i < 20; i++ {
			if try("race") {
				return true
			}
			if i > 0 && i < 19 { // keep only the first and last outcome
				v.Native = v.Native[:strings.LastIndex(v.Native, ";")]
			}
		}
		return false
	case "oob":
		return try("") || try("checkptr") || try("", "GODEBUG=clobberfree=1,gccheckmark=0", "GOGC=1")
	}
	return try("") || try("", "GODEBUG=clobberfree=1", "GOGC=1")
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

type known struct{ prop, entry, msg, text string }

// knownFindings reads the "known:" lines of known_findings.txt:
//
//	known: property=C01 entry=Free msg="..." description
func (d *Driver) knownFindings() (ks []known) {
	f, err := os.Open(filepath.Join(d.verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		k := known{text: strings.TrimSpace(strings.TrimPrefix(l, "known:"))}
		rest := k.text
		for {
			rest = strings.TrimSpace(rest)
			i := strings.IndexByte(rest, '=')
			sp := strings.IndexByte(rest, ' ')
			if i < 0 || (sp >= 0 && sp < i) {
				break
			}
			key := rest[:i]
			rest = rest[i+1:]
			var val string
			if strings.HasPrefix(rest, `"`) {
				j := strings.IndexByte(rest[1:], '"')
				val, rest = rest[1:1+j], rest[j+2:]
			} else if j := strings.IndexByte(rest, ' '); j >= 0 {
				val, rest = rest[:j], rest[j:]
			} else {
				val, rest = rest, ""
			}
			switch key {
			case "property":
				k.prop = val
			case "entry":
				k.entry = val
			case "msg":
				k.msg = val
			}
		}
		if k.prop == d.prop {
			ks = append(ks, k)
		}
	}
	return
}

// matchKnown finds the listed finding a violation is an instance of.
func (d *Driver) matchKnown(v *Violation) *known {
	for i := range d.known {
		k := &d.known[i]
		if k.entry != "" && !strings.HasPrefix(v.Job, k.entry) {
			continue
		}
		if k.msg != "" && !strings.Contains(v.Msg, k.msg) {
			continue
		}
		return k
	}
	return nil
}

func (d *Driver) report(nat *Native, load time.Duration, skipped int) int {
	sort.Slice(d.results, func(i, k int) bool { return d.results[i].Job.Name < d.results[k].Job.Name })
	replayDir := filepath.Join(d.verif, "evidence", "replay")
	os.MkdirAll(replayDir, 0o755)
	if old, err := filepath.Glob(filepath.Join(replayDir, d.prop+"-*.json")); err == nil {
		for _, f := range old {
			os.Remove(f)
		}
	}

	// candidates, at most one or two per message
	nviol, unconfirmed, knownHits := 0, 0, 0
	perMsg := map[string]int{}
	var violRecs []interface{}
	reportViol := func(v *Violation) {
		nviol++
		file := filepath.Join(replayDir, fmt.Sprintf("%s-%02d.json", d.prop, nviol))
		v.Model.Property, v.Model.Where = d.prop, v.Where
		jsonOut(file, v.Model)
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.prop, file)
		fmt.Printf("  %s: %s\n  in %s\n  at %s\n  native: %s\n", v.Kind, v.Msg, v.Job, v.Where, v.Native)
		violRecs = append(violRecs, map[string]interface{}{"kind": v.Kind, "msg": v.Msg, "job": v.Job, "where": v.Where, "native": v.Native, "replay": file})
	}
	matchKnown := func(v *Violation) bool {
		k := d.matchKnown(v)
		if k == nil {
			return false
		}
		fmt.Printf("KNOWN-FINDING: %s\n", k.text)
		knownHits++
		return true
	}
	var unconf []string
	ncand := 0
	for _, r := range d.results {
		for _, v := range r.Viol {
			ncand++
			if d.noNative {
				fmt.Printf("CANDIDATE %s: %s in %s at %s\n", v.Kind, v.Msg, v.Job, v.Where)
				continue
			}
			key := violKey(v, r.Job)
			if perMsg[key] >= 1 || nviol >= 12 || !v.Tried && d.confirmed[key] {
				continue
			}
			if !v.Tried {
				v.OK = d.confirm(nat, v)
			}
			if !v.OK {
				unconfirmed++
				unconf = append(unconf, fmt.Sprintf("%s: %s in %s at %s (%s)", v.Kind, v.Msg, v.Job, v.Where, v.Native))
				continue
			}
			perMsg[key]++
			if !matchKnown(v) {
				reportViol(v)
			}
		}
	}

	// sampled paths, replayed natively and compared with the prediction
	var samples []*Replay
	for _, r := range d.results {
		samples = append(samples, r.Samples...)
	}
	validated, validatedObs := 0, 0
	var mismatches []string
	if !d.noNative && len(samples) > 0 && nviol == 0 {
		res := nat.Run("", nil, samples)
		for i, o := range res {
			switch {
			case strings.HasPrefix(o, "ok"):
				validated++
				validatedObs += len(samples[i].Obs)
			case nativeBad(o):
				// the real code fails on inputs where the engine saw no failure: confirm in
				// a process of its own
				v := &Violation{Kind: "native", Msg: clip(o, 300), Job: samples[i].Job, Model: samples[i]}
				v.Model.Expect, v.Model.Msg = "native", v.Msg
				if d.confirm(nat, v) && !matchKnown(v) {
					reportViol(v)
				}
			default:
				mismatches = append(mismatches, samples[i].Job+": "+o)
				jsonOut(filepath.Join(replayDir, fmt.Sprintf("%s-mismatch-%d.json", d.prop, len(mismatches))), samples[i])
			}
		}
	}

	tot := &JobResult{Notes: map[string]int{}}
	reached := map[string]bool{}
	var errs, notReached []string
	timedOut, full := 0, 0
	for _, r := range d.results {
		tot.Paths += r.Paths
		tot.Infeas += r.Infeas
		tot.Incompl += r.Incompl
		tot.Forks += r.Forks
		tot.Asserts += r.Asserts
		tot.Trivial += r.Trivial
		tot.Queries += r.Queries
		tot.Sat += r.Sat
		tot.Unsat += r.Unsat
		tot.Unknown += r.Unknown
		tot.Solver += r.Solver
		tot.Steps += r.Steps
		for k, n := range r.Notes {
			tot.Notes[k] += n
		}
		for k := range r.Reached {
			reached[r.Job.Entry+":"+k] = true
		}
		if r.Err != "" {
			errs = append(errs, r.Job.Name+": "+r.Err)
		}
		if r.TimedOut {
			timedOut++
		}
		if r.Err == "" && !r.TimedOut && r.Incompl == 0 {
			full++
		}
		if len(r.Viol) == 0 && r.Err == "" && !r.TimedOut && !r.Reached["end"] {
			notReached = append(notReached, r.Job.Name)
		}
	}
	repoFns, otherFns := fnNames(d.results)
	wall := time.Since(d.start)
	var rs []string
	for k := range reached {
		rs = append(rs, k)
	}
	sort.Strings(rs)
	byEntry := map[string]int{}
	for _, r := range d.results {
		byEntry[r.Job.Entry]++
	}
	sampleOut := []interface{}{}
	for i, s := range samples {
		if i%((len(samples)/4)+1) == 0 {
			sampleOut = append(sampleOut, s)
		}
	}
	if len(sampleOut) == 0 {
		for _, r := range d.results {
			for _, v := range r.Viol {
				if len(sampleOut) < 3 {
					sampleOut = append(sampleOut, v.Model)
				}
			}
		}
	}
	ev := map[string]interface{}{
		"property": d.prop,
		"tier":     d.tier,
		"seed":     d.seed,
		"level":    "model_checking",
		"coverage": map[string]interface{}{
			"states":                        tot.Paths + tot.Forks,
			"transitions":                   tot.Steps,
			"traces_validated_against_impl": validated,
			"samples":                       sampleOut,
			"method":                        "symbolic execution of /repo's Go SSA (go/ssa, regenerated by this run) with z3 over bit vectors",
			"jobs":                          len(d.results),
			"jobs_explored_completely":      full,
			"jobs_by_entry":                 byEntry,
			"jobs_skipped_for_time":         skipped,
			"jobs_timed_out":                timedOut,
			"paths_completed":               tot.Paths,
			"paths_infeasible":              tot.Infeas,
			"paths_incomplete":              tot.Incompl,
			"forks":                         tot.Forks,
			"assertions_discharged":         tot.Asserts,
			"assertions_discharged_by_simplification": tot.Trivial,
			"solver_queries":                    tot.Queries,
			"solver_unsat":                      tot.Unsat,
			"solver_sat":                        tot.Sat,
			"solver_unknown":                    tot.Unknown,
			"solver_s":                          round2(tot.Solver.Seconds()),
			"load_s":                            round2(load.Seconds()),
			"functions_encoded":                 repoFns,
			"other_functions_encoded":           otherFns,
			"candidates":                        ncand,
			"candidates_not_confirmed_natively": unconf,
			"native_observations_compared":      validatedObs,
			"native_disagreements":              mismatches,
			"bounds":                            boundsText(d.prop, d.tier),
			"outside_the_bounds":                outsideText,
			"incomplete_because":                tot.Notes,
			"points_reached":                    rs,
			"errors":                            errs,
			"known_findings_seen":               knownHits,
		},
		"assumptions": assumptions,
		"wall_s":      round2(wall.Seconds()),
		"violations":  nviol,
	}
	if len(violRecs) > 0 {
		ev["coverage"].(map[string]interface{})["violations"] = violRecs
	}
	if err := jsonOut(filepath.Join(d.verif, "evidence", d.prop+".json"), ev); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %d jobs (%d complete, %d skipped), %d paths, %d assertions, %d queries, solver %.1fs, wall %.1fs, %d native replays agree\n",
		d.prop, d.tier, len(d.results), full, skipped, tot.Paths, tot.Asserts, tot.Queries, tot.Solver.Seconds(), wall.Seconds(), validated)
	for k, n := range tot.Notes {
		fmt.Printf("  incomplete (%d): %s\n", n, k)
	}
	for _, u := range unconf {
		fmt.Printf("  not confirmed: %s\n", u)
	}
	for _, e := range errs {
		fmt.Printf("  ERROR %s\n", e)
	}
	for _, m := range mismatches {
		fmt.Printf("  DISAGREEMENT %s\n", m)
	}
	for _, m := range notReached {
		fmt.Printf("  VACUOUS %s\n", m)
	}
	if nviol > 0 {
		return 1
	}
	if d.noNative && ncand > 0 {
		return 1
	}
	if tot.Paths == 0 || full == 0 && tot.Asserts == 0 {
		fmt.Println("  ERROR nothing was explored")
		return 2
	}
	if len(mismatches) > 0 || len(errs) > 0 || len(notReached) > 0 {
		return 2
	}
	return 0
}

func round2(f float64) float64 { return float64(int64(f*100+0.5)) / 100 }
