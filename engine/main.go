package main

// Command line: gosym check -prop C01 -tier quick
//
// Reads /verif/harness/<pkg>/jobs.json, encodes the functions of /repo reached from the
// harness entry points, explores every path with the solver deciding each branch and
// each assertion, replays candidates against the real build, and writes the evidence.

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type jobSpec struct {
	Fn      string           `json:"fn"`
	Setup   string           `json:"setup,omitempty"`
	Params  map[string]int   `json:"params,omitempty"`
	Each    map[string][]int `json:"each,omitempty"` // one job for each combination
	Tier    string           `json:"tier,omitempty"` // quick, thorough or empty for both
	Steps   int64            `json:"steps,omitempty"`
	Note    string           `json:"note,omitempty"`
	Race    bool             `json:"race,omitempty"`
	Covers  []string         `json:"covers,omitempty"`
	Repeat  int              `json:"repeat,omitempty"`
	Partial bool             `json:"partial,omitempty"` // may end by the time limit
}

// useLIA is set before any solver starts.
var useLIA bool

type propSpec struct {
	Property    string    `json:"property"`
	Level       string    `json:"level"`
	Bounds      string    `json:"bounds"`
	Outside     string    `json:"outside"`
	Assumptions []string  `json:"assumptions"`
	Jobs        []jobSpec `json:"jobs"`
	LIA         bool      `json:"lia,omitempty"`
	QuickSec    int       `json:"quick_sec,omitempty"`
	ThoroughSec int       `json:"thorough_sec,omitempty"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	}
	os.Exit(2)
}

type harnessSet struct {
	names []string
	specs []propSpec
}

func readSpecs(verif, prop string) (*harnessSet, error) {
	fs, _ := filepath.Glob(filepath.Join(verif, "harness", "*", "jobs.json"))
	sort.Strings(fs)
	hs := &harnessSet{}
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		var ps []propSpec
		if err := json.Unmarshal(b, &ps); err != nil {
			return nil, fmt.Errorf("%s: %v", f, err)
		}
		for _, p := range ps {
			if p.Property == prop {
				hs.names = append(hs.names, filepath.Base(filepath.Dir(f)))
				hs.specs = append(hs.specs, p)
			}
		}
	}
	if len(hs.names) == 0 {
		return nil, fmt.Errorf("no harness for property %s", prop)
	}
	return hs, nil
}

func cmdCheck(args []string) int {
	fl := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fl.String("prop", "", "property id")
	tier := fl.String("tier", "quick", "quick or thorough")
	repo := fl.String("repo", "/repo", "repository")
	verif := fl.String("verif", "/verif", "framework directory")
	solver := fl.String("solver", "z3-new", "solver")
	only := fl.String("only", "", "run jobs whose function matches")
	nw := fl.Int("j", 0, "workers")
	limit := fl.Int("limit", 0, "time limit in seconds")
	lia := fl.Bool("lia", false, "send linear conditions as integer arithmetic")
	verbose := fl.Bool("v", false, "print job statistics")
	cpuprof := fl.String("cpuprofile", "", "")
	par := fl.String("param", "", "override parameters: k=v,k=v")
	noEv := fl.Bool("noevidence", false, "do not write the evidence file")
	fl.Parse(args)
	if *cpuprof != "" {
		f, _ := os.Create(*cpuprof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(12 << 30) // collect more often before it is short
	if f := os.Getenv("GOSYM_HEAP"); f != "" {
		time.AfterFunc(40*time.Second, func() {
			if w, err := os.Create(f); err == nil {
				pprof.WriteHeapProfile(w)
				w.Close()
			}
		})
	}
	t0 := time.Now()
	c := &checker{prop: *prop, tier: *tier, repo: *repo, verif: *verif, t0: t0, verbose: *verbose, solver: *solver}
	c.seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	if c.seed == 0 {
		c.seed = 1
	}
	hs, err := readSpecs(*verif, *prop)
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	c.hs = hs
	if *nw == 0 {
		*nw = runtime.NumCPU()
	}
	lim := 0
	useLIA = *lia
	for _, s := range hs.specs {
		useLIA = useLIA || s.LIA
		l := s.QuickSec
		if *tier == "thorough" {
			l = s.ThoroughSec
		}
		lim += l
	}
	if lim == 0 {
		lim = 240
		if *tier == "thorough" {
			lim = 700
		}
	}
	if *limit > 0 {
		lim = *limit
	}
	rc := c.run(*nw, time.Duration(lim)*time.Second, *only, *par)
	if !*noEv {
		c.writeEvidence()
	}
	return rc
}

type checker struct {
	prop, tier, repo, verif, solver string
	t0                              time.Time
	seed                            int
	verbose                         bool
	hs                              *harnessSet
	eng                             *Engine
	jobs                            []*job
	pool                            *Pool
	rep                             *replayer
	notDecided                      string
	mu                              sync.Mutex
	confirmed                       []*confirmed
	unconfirmed                     []string
	known                           []string
	validated, mismatched           int
	mismatch                        []string
	setupSec                        float64
	cross                           map[string]any
	vacuous                         []string
}

type confirmed struct {
	v      *violation
	detail string
	path   string
}

func (c *checker) run(nw int, limit time.Duration, only, par string) int {
	uniq := []string{}
	seen := map[string]bool{}
	for _, n := range c.hs.names {
		if !seen[n] {
			seen[n] = true
			uniq = append(uniq, n)
		}
	}
	c.rep = newReplayer(c.repo, c.verif, uniq)
	defer c.rep.close()
	c.rep.start()
	eng, err := Load(c.repo, c.verif, uniq)
	if err != nil {
		c.notDecided = err.Error()
		fmt.Println("NOT-DECIDED property=" + c.prop + " the harness does not load on this tree: " + firstLine(err.Error()))
		return 0
	}
	c.eng = eng
	id := 0
	race := false
	for i, sp := range c.hs.specs {
		pk := eng.harness[c.hs.names[i]]
		for _, js := range expand(sp.Jobs) {
			if js.Tier != "" && js.Tier != c.tier {
				continue
			}
			if only != "" && !strings.Contains(js.Fn, only) {
				continue
			}
			f := pk.Func(js.Fn)
			if f == nil {
				c.notDecided = "no function " + js.Fn
				fmt.Println("ERROR no function", js.Fn)
				return 2
			}
			id++
			j := &job{id: id, pkg: c.hs.names[i], name: js.Fn, fn: f, params: map[string]int{}, steps: js.Steps, note: js.Note, spec: js}
			for k, v := range js.Params {
				j.params[k] = v
			}
			if strings.HasPrefix(par, "=") { // a single job with these parameters only
				if len(c.jobs) > 0 {
					continue
				}
				j.params = map[string]int{}
			}
			for _, kv := range strings.Split(par, ",") {
				if k, v, ok := strings.Cut(strings.TrimPrefix(kv, "="), "="); ok {
					j.params[k], _ = strconv.Atoi(v)
				}
			}
			if j.steps == 0 {
				j.steps = 20_000_000
			}
			if js.Setup != "" {
				j.setup = pk.Func(js.Setup)
			}
			race = race || js.Race
			c.jobs = append(c.jobs, j)
		}
	}
	c.setupSec = time.Since(c.t0).Seconds()
	p := &Pool{eng: eng, deadline: c.t0.Add(limit), solver: c.solver, timeout: 20000}
	if c.tier == "thorough" {
		p.timeout = 60000
	}
	p.second = &second{kind: "cvc5", budget: 2 * time.Second}
	if c.tier == "thorough" {
		p.second.budget = 20 * time.Second
	}
	c.pool = p
	p.onViol = c.onViol
	p.Run(c.jobs, nw)
	if o := p.second; o.asked > 0 {
		c.cross = map[string]any{"solver": o.kind, "queries_asked_again": o.asked, "agreed": o.agreed, "agreed_sat": o.sat, "agreed_unsat": o.unsat, "unanswered": o.unanswered, "disagreements": append([]string{}, o.disagree...), "solver_s": round3(o.sec)}
		for _, d := range o.disagree {
			fmt.Println("SOLVERS-DISAGREE property="+c.prop, d)
		}
	}
	if len(c.confirmed) == 0 {
		c.validate()
	}
	if c.verbose {
		for _, j := range c.jobs {
			c.printJob(j)
		}
		for _, n := range p.initNote {
			fmt.Println("  init:", n)
		}
		fmt.Println("second solver:", c.cross)
		fmt.Printf("setup %.1fs total %.1fs validated %d mismatched %d\n", c.setupSec, time.Since(c.t0).Seconds(), c.validated, c.mismatched)
		for _, m := range c.mismatch {
			fmt.Println("  mismatch:", m)
		}
		for _, m := range c.unconfirmed {
			fmt.Println("  unconfirmed:", m)
		}
		for _, m := range c.vacuous {
			fmt.Println("  vacuous:", m)
		}
	}
	for _, j := range c.jobs {
		if !j.st.Complete {
			fmt.Printf("REDUCED-BOUND property=%s job=%s %s\n", c.prop, j.label(), j.why())
		}
		for _, cv := range j.spec.Covers {
			if j.st.Covers[cv] == 0 && j.st.Complete {
				c.vacuous = append(c.vacuous, j.label()+": witness "+cv+" not reachable")
			}
		}
		if j.st.Complete && j.st.AssertQueries+j.st.AssertConst == 0 {
			c.vacuous = append(c.vacuous, j.label()+": no assertion reached")
		}
	}
	for _, v := range c.vacuous {
		fmt.Println("VACUOUS", v)
	}
	for _, k := range c.known {
		fmt.Println("KNOWN-FINDING: property=" + c.prop + " " + k)
	}
	for _, u := range c.unconfirmed {
		fmt.Println("UNCONFIRMED", u)
	}
	if len(c.confirmed) > 0 {
		for _, v := range c.confirmed {
			fmt.Println("counterexample:", v.v.msg, v.detail)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, v.path)
		}
		return 1
	}
	return 0
}

// expand makes one job of each combination of the listed parameters.
func expand(in []jobSpec) []jobSpec {
	var out []jobSpec
	for _, js := range in {
		cur := []jobSpec{js}
		for _, k := range sortedKeys(js.Each) {
			var next []jobSpec
			for _, c := range cur {
				for _, v := range js.Each[k] {
					d := c
					d.Params = map[string]int{k: v}
					for a, b := range c.Params {
						if a != k {
							d.Params[a] = b
						}
					}
					next = append(next, d)
				}
			}
			cur = next
		}
		out = append(out, cur...)
	}
	return out
}

func (j *job) label() string {
	s := j.name
	for _, k := range sortedKeys(j.params) {
		s += fmt.Sprintf(" %s=%d", k, j.params[k])
	}
	return s
}

func (j *job) why() string {
	var w []string
	if j.pending > 0 {
		w = append(w, "time limit")
	}
	if j.stop.Load() {
		w = append(w, "stopped after many candidates")
	}
	if j.st.Unsupported > 0 {
		w = append(w, fmt.Sprintf("%d paths not encodable", j.st.Unsupported))
	}
	if j.st.StepAborts > 0 {
		w = append(w, fmt.Sprintf("%d paths over the step bound", j.st.StepAborts))
	}
	if j.st.Guessed > 0 {
		w = append(w, fmt.Sprintf("%d candidates that hang on nearly equal floats not confirmed", j.st.Guessed))
	}
	if j.st.AssUnk > 0 {
		w = append(w, fmt.Sprintf("%d queries unanswered", j.st.AssUnk))
	}
	return strings.Join(w, ", ")
}

func (c *checker) printJob(j *job) {
	s := &j.st
	fmt.Printf("%-50s paths=%d inf=%d unsupp=%d steps=%d/%dab branches=%d dom=%d merges=%d q=%d sat=%d unsat=%d unk=%d solver=%.1fs assertQ=%d unsat=%d const=%d maxdec=%d complete=%v wall=%.1fs\n", j.label(), s.Paths, s.Infeasible, s.Unsupported, s.Steps, s.StepAborts, s.Branches, s.DomainDecided, s.Merges,
		s.Queries, s.Sat, s.Unsat, s.Unknown, s.SolverSec, s.AssertQueries, s.AssertUnsat, s.AssertConst, s.MaxDecisions, s.Complete, j.t1.Sub(j.t0).Seconds())
	for _, k := range sortedKeys(s.UnsuppWhy) {
		fmt.Println("   unsupported:", s.UnsuppWhy[k], k)
	}
	if len(s.Covers) > 0 {
		fmt.Println("   covers:", s.Covers)
	}
}

// onViol replays a candidate natively; it returns true to stop the exploration.
func (c *checker) onViol(v *violation) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.confirmed) > 0 {
		return true
	}
	r := c.rep.confirm(v)
	if !r.ok && v.guessed {
		return false
	}
	if !r.ok {
		if len(c.unconfirmed) < 20 {
			b, _ := json.Marshal(v.values)
			c.unconfirmed = append(c.unconfirmed, fmt.Sprintf("%s: %s: native replay: %s values=%s", v.job.label(), v.msg, r.detail, b))
		}
		return false
	}
	if k := c.isKnown(v); k != "" {
		for _, o := range c.known {
			if o == k {
				return false
			}
		}
		c.known = append(c.known, k)
		return false
	}
	c.addConfirmed(v, r.detail)
	return true
}

func (c *checker) addConfirmed(v *violation, detail string) {
	dir := filepath.Join(c.verif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, c.prop+".json")
	req := replayReq{Property: c.prop, Pkg: v.job.pkg, Fn: v.job.name, Params: v.job.params64(), Values: v.values, Kind: v.kind, Msg: v.msg, Race: v.job.spec.Race || v.kind == "race", Repeat: v.job.spec.Repeat}
	if v.job.setup != nil {
		req.Setup = v.job.setup.Name()
	}
	b, _ := json.MarshalIndent(req, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	c.confirmed = append(c.confirmed, &confirmed{v, detail, path})
}

func (j *job) params64() map[string]int64 {
	m := map[string]int64{}
	for k, v := range j.params {
		m[k] = int64(v)
	}
	return m
}

// isKnown looks the counterexample up in the known findings: lines of the form
// "finding: property=C01 fn=CheckX msg=<text of the assertion> :: <description>".
func (c *checker) isKnown(v *violation) string {
	b, err := os.ReadFile(filepath.Join(c.verif, "known-findings.txt"))
	if err != nil {
		return ""
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+c.prop+" ") {
			continue
		}
		head, desc, _ := strings.Cut(l, " :: ")
		_, msg, ok := strings.Cut(head, " msg=")
		if ok && strings.Contains(head, " fn="+v.job.name+" ") && strings.HasPrefix(v.msg, msg) {
			return desc
		}
	}
	return ""
}

// validate runs sampled models of explored paths against the real build.
func (c *checker) validate() {
	n := 0
	for _, j := range c.jobs {
		for _, s := range j.samples {
			if n >= 400 {
				break
			}
			if j.spec.Race {
				continue
			}
			n++
			c.rep.queue = append(c.rep.queue, valReq{j, s})
		}
	}
	rs := c.rep.runBatch()
	if c.rep.berr != nil {
		c.mismatch = append(c.mismatch, c.rep.berr.Error())
		fmt.Println("NOT-VALIDATED", c.rep.berr.Error())
	}
	for _, r := range rs {
		if r.ok {
			c.validated++
			continue
		}
		if r.violated {
			v := &violation{job: r.req.j, msg: r.detail, values: r.req.s.values, kind: "assert"}
			cf := c.rep.confirm(v)
			if cf.ok && c.isKnown(v) == "" {
				c.addConfirmed(v, "(found while validating solver models against the real build)")
				return
			}
		}
		c.mismatched++
		if len(c.mismatch) < 10 {
			b, _ := json.Marshal(r.req.s.values)
			c.mismatch = append(c.mismatch, r.req.j.label()+": "+r.detail+" "+string(b))
		}
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func (c *checker) writeEvidence() {
	type jm = map[string]any
	var jobs []jm
	funcs := map[string]int64{}
	covers := map[string]int64{}
	var tot jobStats
	var samples []any
	complete := c.notDecided == ""
	for _, j := range c.jobs {
		s := &j.st
		jobs = append(jobs, jm{"job": j.label(), "note": j.note, "paths": s.Paths, "infeasible": s.Infeasible, "not_encodable": s.Unsupported, "why_not": s.UnsuppWhy,
			"over_step_bound": s.StepAborts, "branches_decided": s.Branches, "branches_decided_by_interval_domain": s.DomainDecided, "domain_verdicts_confirmed_by_solver": s.Crossed, "merged_calls": s.Merges, "queries_in_integer_arithmetic": s.Linear, "undecided_near_ties": s.Guessed, "orders_of_synchronisation": s.Schedules, "accesses_logged": s.Accesses, "conflicting_segments": s.Conflicts,
			"queries": s.Queries, "sat": s.Sat, "unsat": s.Unsat, "unknown": s.Unknown, "solver_s": round3(s.SolverSec), "assert_queries": s.AssertQueries,
			"assert_unsat": s.AssertUnsat, "assert_constant": s.AssertConst, "instructions": s.Steps, "complete_within_bounds": s.Complete, "covers": s.Covers, "max_decisions_on_a_path": s.MaxDecisions})
		complete = complete && s.Complete
		for f, n := range j.funcs {
			funcs[f] += n
		}
		for k, n := range s.Covers {
			covers[k] += n
		}
		tot.Paths += s.Paths
		tot.Branches += s.Branches
		tot.Queries += s.Queries
		tot.Sat += s.Sat
		tot.Unsat += s.Unsat
		tot.Unknown += s.Unknown
		tot.SolverSec += s.SolverSec
		tot.AssertQueries += s.AssertQueries
		tot.AssertUnsat += s.AssertUnsat
		tot.AssertConst += s.AssertConst
		tot.Steps += s.Steps
		if len(j.samples) > 0 && len(samples) < 12 {
			samples = append(samples, jm{"job": j.label(), "values": j.samples[len(j.samples)-1].values})
		}
	}
	if len(samples) == 0 {
		samples = append(samples, jm{"note": "no path explored"})
	}
	var repoFns []string
	for f := range funcs {
		if strings.Contains(f, repoMod) && !strings.Contains(f, "/zzverif") && !strings.Contains(f, "verifsym") {
			repoFns = append(repoFns, fmt.Sprintf("%s (%d)", strings.ReplaceAll(f, repoMod+"/", ""), funcs[f]))
		}
	}
	sort.Strings(repoFns)
	var bounds, outside, assume []string
	level := "model_checking"
	for _, s := range c.hs.specs {
		bounds = append(bounds, s.Bounds)
		outside = append(outside, s.Outside)
		assume = append(assume, s.Assumptions...)
		if s.Level != "" {
			level = s.Level
		}
	}
	assume = append(assume, "Go semantics as encoded by /verif/engine for go/ssa; models of assembly and runtime functions in engine/intrinsics.go",
		"memory exhaustion is out of scope")
	if c.pool != nil {
		for _, n := range c.pool.initNote {
			assume = append(assume, "initialiser not completely executed: "+n)
		}
	}
	cov := jm{
		"states": tot.Paths, "transitions": tot.Branches, "traces_validated_against_impl": c.validated, "samples": samples,
		"explanation": "symbolic execution of the compiled form (go/ssa) of the current source; states are completed symbolic paths (each a class of inputs), transitions are solver- or interval-decided symbolic branches; every assertion on every path is discharged by the solver (assert_unsat) or folds to true (assert_constant)",
		"bounds":      strings.Join(bounds, " | "), "outside_the_claim": strings.Join(outside, " | "),
		"functions_encoded": repoFns, "jobs": jobs, "queries": tot.Queries, "queries_sat": tot.Sat, "queries_unsat": tot.Unsat, "queries_unknown": tot.Unknown,
		"solver_s": round3(tot.SolverSec), "solver": c.solver, "assert_queries": tot.AssertQueries, "assert_unsat": tot.AssertUnsat, "assert_constant": tot.AssertConst,
		"instructions": tot.Steps, "complete_within_bounds": complete, "model_mismatches": c.mismatched, "mismatch_detail": c.mismatch,
		"unconfirmed_candidates": c.unconfirmed, "known_findings_hit": c.known, "vacuity": c.vacuous, "reachability_witnesses": covers, "encode_s": round3(c.setupSec),
	}
	if c.cross != nil {
		cov["second_solver"] = c.cross
	}
	if c.notDecided != "" {
		cov["not_decided"] = c.notDecided
	}
	ev := jm{"property": c.prop, "tier": c.tier, "seed": c.seed, "level": level, "coverage": cov, "assumptions": assume,
		"wall_s": round3(time.Since(c.t0).Seconds()), "violations": len(c.confirmed)}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println("ERROR", err)
		return
	}
	os.MkdirAll(filepath.Join(c.verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(c.verif, "evidence", c.prop+".json"), append(b, '\n'), 0o644)
}

func round3(f float64) float64 { return float64(int(f*1000)) / 1000 }

var _ types.Type
