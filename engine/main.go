package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// harness package table: /verif/harness/packages.json
type pkgTable struct {
	Packages map[string]struct {
		Target  string            `json:"target"`
		PkgName string            `json:"pkgname"`
		Import  string            `json:"import"`
		Prefix  string            `json:"prefix"`
		Imports map[string]string `json:"imports"`
		Rewrite []string          `json:"rewrite"`
	} `json:"packages"`
	Properties map[string]struct {
		Package  string   `json:"package"`
		Quick    int      `json:"quick"`    // seconds of exploration
		Thorough int      `json:"thorough"` // seconds of exploration
		Bounds   []string `json:"bounds"`
		Assumes  []string `json:"assumptions"`
		MaxInstr int64    `json:"maxinstr"`
	} `json:"properties"`
}

type finding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Msg      string `json:"msg"`
	What     string `json:"what"`
	Vec      []any  `json:"vec"`
	Fixed    string `json:"fixed"` // informative; suppresses nothing
}

type findings struct {
	Findings []finding `json:"findings"`
	Fixed    []string  `json:"fixed"`
}

func fatalSoft(prop, tier string, seed int, t0 time.Time, msg string) {
	// the check could not be carried out: no answer about the code, said so in the evidence
	fmt.Println("NOTE: nothing explored:", msg)
	writeEvidence(prop, map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []any{}, "exhaustive": false, "not_explored": msg},
		"wall_s":   time.Since(t0).Seconds(), "violations": 0, "assumptions": []string{},
	})
	os.Exit(2)
}

func writeEvidence(prop string, ev map[string]any) {
	d := filepath.Join(verifDir, "evidence")
	os.MkdirAll(d, 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println("NOTE: evidence:", err)
		return
	}
	os.WriteFile(filepath.Join(d, prop+".json"), append(b, '\n'), 0o644)
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check|warm|replay ...")
		os.Exit(2)
	}
	initRanges()
	if v := os.Getenv("GOSYM_REPO"); v != "" {
		repoDir = v
	}
	if v := os.Getenv("GOSYM_VERIF"); v != "" {
		verifDir = v
	}
	if v := os.Getenv("GOSYM_DUMP"); v != "" {
		dbgSolver, _ = os.Create(v)
	}
	if v := os.Getenv("GOSYM_SLOW"); v != "" {
		dbgSlow, _ = os.Create(v)
	}
	switch os.Args[1] {
	case "check":
		check(os.Args[2:])
	case "warm":
		warm()
	case "replay":
		replay(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func readTable() (*pkgTable, error) {
	b, err := os.ReadFile(filepath.Join(verifDir, "harness/packages.json"))
	if err != nil {
		return nil, err
	}
	var t pkgTable
	return &t, json.Unmarshal(b, &t)
}

func (t *pkgTable) hp(dir string) *HarnessPkg {
	p := t.Packages[dir]
	h := &HarnessPkg{Dir: dir, Target: p.Target, Import: p.Import, PkgName: p.PkgName, Prefix: p.Prefix, Imports: p.Imports, Rewrite: p.Rewrite}
	if h.Target == "" {
		h.Target = "internal/zzh/" + dir
	}
	if h.Import == "" {
		h.Import = filepath.ToSlash(filepath.Join(repoModule, h.Target))
	}
	if h.PkgName == "" {
		h.PkgName = dir
	}
	for k, v := range h.Imports {
		h.Imports[k] = strings.Replace(v, "@", repoModule+"/internal/", 1)
	}
	return h
}

func readFindings() findings {
	var f findings
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json"))
	if err == nil {
		if err := json.Unmarshal(b, &f); err != nil {
			fmt.Println("NOTE: known_findings.json:", err)
		}
	}
	return f
}

func scratch() string {
	d, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Println("NOTE: no scratch directory:", err)
		os.Exit(0)
	}
	return d
}

func check(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	only := fs.String("only", "", "only harnesses containing this text")
	budget := fs.Int("budget", 0, "seconds of exploration")
	workers := fs.Int("j", runtime.NumCPU(), "workers")
	verbose := fs.Bool("v", false, "verbose")
	nonative := fs.Bool("nonative", false, "no native confirmation")
	pset := fs.String("set", "", "parameter overrides a=1,b=2")
	fs.Parse(args)
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	t0 := time.Now()
	tab, err := readTable()
	if err != nil {
		fatalSoft(*prop, *tier, seed, t0, err.Error())
	}
	pr, ok := tab.Properties[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such property")
		os.Exit(2)
	}
	hp := tab.hp(pr.Package)
	dir := scratch()
	defer os.RemoveAll(dir)
	exit := func(code int) {
		os.RemoveAll(dir)
		os.Exit(code)
	}
	soft := func(msg string) {
		os.RemoveAll(dir)
		fatalSoft(*prop, *tier, seed, t0, msg)
	}
	ov, err := buildOverlay(hp, dir)
	if err != nil {
		soft("overlay: " + err.Error())
	}
	names, err := harnessNames(hp)
	if err != nil {
		soft(err.Error())
	}
	nat := buildNative(hp, ov, names, dir)
	ld, err := Load(hp, ov)
	var gone []string
	if err != nil { // go on with the harnesses that fit this tree
		<-nat.done
		first := err
		for i := 0; i < 8 && err != nil; i++ {
			g := reduce(hp, ov, dir)
			if len(g) == 0 {
				break
			}
			for _, s := range g {
				if s != "" {
					gone = append(gone, s)
				}
			}
			ld, err = Load(hp, ov)
		}
		if err == nil {
			fmt.Println("NOTE: harness functions left out because they do not compile against this tree:", strings.Join(gone, " "), "--", first)
			j := names[:0]
			for _, n := range names {
				if !slices.Contains(gone, n) {
					j = append(j, n)
				}
			}
			nat = buildNative(hp, ov, j, dir)
		}
	}
	if err != nil {
		<-nat.done
		soft("the harness does not compile against this tree: " + err.Error())
	}
	hs := ld.Harnesses(*prop)
	if *only != "" {
		j := hs[:0]
		for _, h := range hs {
			if strings.Contains(h.Name(), *only) {
				j = append(j, h)
			}
		}
		hs = j
	}
	if len(hs) == 0 {
		<-nat.done
		soft("no harnesses")
	}
	loadS := time.Since(t0).Seconds()
	r := NewRun(ld, *prop, *tier, hs)
	r.seed = int64(seed)
	if pr.MaxInstr > 0 {
		r.maxInstr = pr.MaxInstr
	}
	r.cross = *tier == "thorough"
	for _, kv := range strings.Split(*pset, ",") {
		if k, v, ok := strings.Cut(kv, "="); ok {
			n, _ := strconv.Atoi(v)
			r.pset[k] = n
		}
	}
	secs := pr.Quick
	if secs == 0 {
		secs = 200
	}
	if *tier == "thorough" {
		secs = pr.Thorough
		if secs == 0 {
			secs = 600
		}
	}
	if *budget > 0 {
		secs = *budget
	}
	r.Explore(*workers, time.Duration(secs)*time.Second)
	exploreS := time.Since(t0).Seconds() - loadS

	kf := readFindings()
	// ---- native confirmation
	var cs []*candidate
	for _, k := range sortedKeys(r.viols) {
		cs = append(cs, r.viols[k]...)
	}
	nv := len(cs)
	kfIdx := map[int]finding{}
	for _, f := range kf.Findings {
		if f.Property == *prop && f.Vec != nil {
			kfIdx[len(cs)] = f
			cs = append(cs, &candidate{Harness: f.Harness, Msg: f.Msg, Vec: f.Vec, Kind: "known", Repeat: 200})
		}
	}
	sort.SliceStable(r.samples, func(i, j int) bool { return r.samples[i].Harness < r.samples[j].Harness })
	cs = append(cs, r.samples...)
	cs = append(cs, r.fallback...)
	var res map[int]natRes
	var nerr error
	if !*nonative {
		res, nerr = nat.Run(cs, r.params, 10*time.Second, 150*time.Second)
	} else {
		<-nat.done
	}
	notes := []string{}
	if len(gone) > 0 {
		notes = append(notes, "left out because they do not compile against this tree: "+strings.Join(gone, " "))
	}
	if nerr != nil {
		notes = append(notes, "native: "+nerr.Error())
	}
	type conf struct {
		c   *candidate
		res natRes
		src string
	}
	confirmed := map[string]conf{}
	validated, mism, skipped := 0, 0, 0
	fbRun := 0
	unconf := map[string]int{}
	bad := func(s string) bool { return s == "violation" || s == "hang" || s == "crash" }
	for i, c := range cs {
		x, ok := res[i]
		if !ok {
			if i < nv {
				unconf[c.Harness+": "+c.Msg+" (not run)"]++
			}
			continue
		}
		if *verbose && (i < nv || x.Status != "ok") {
			fmt.Printf("  native %s %s: engine %q -> %s %s\n", c.Kind, c.Harness, c.Msg, x.Status, x.Msg)
			if i < nv && x.Status != "violation" || x.Status == "mismatch" {
				vb, _ := json.Marshal(c.Vec)
				fmt.Printf("    vec %s\n", vb)
			}
		}
		switch {
		case bad(x.Status):
			msg := x.Msg
			key := c.Harness + "|" + normMsg(msg)
			if o, dup := confirmed[key]; !dup || o.c.Kind != "violation" && c.Kind == "violation" {
				confirmed[key] = conf{c, x, c.Kind}
			}
			validated++
		case i < nv:
			unconf[c.Harness+": "+c.Msg+" ("+x.Status+" "+x.Msg+")"]++
		case c.Kind == "sample":
			switch x.Status {
			case "ok":
				validated++
			case "mismatch":
				mism++
				if mism <= 5 {
					notes = append(notes, "engine and real code disagree in "+c.Harness+": "+x.Msg)
				}
			default:
				skipped++
			}
		case c.Kind == "fallback":
			fbRun++
		}
	}
	// ---- verdicts
	isKnown := func(h, msg string) (finding, bool) {
		for _, f := range kf.Findings {
			if f.Property == *prop && f.Harness == h && normMsg(f.Msg) == normMsg(msg) {
				return f, true
			}
		}
		return finding{}, false
	}
	knownHit := map[string]bool{}
	var lines []string
	nviol := 0
	os.MkdirAll(filepath.Join(verifDir, "evidence/replays"), 0o755)
	old, _ := filepath.Glob(filepath.Join(verifDir, "evidence/replays", *prop+"-*.json"))
	for _, o := range old {
		os.Remove(o)
	}
	for _, k := range sortedKeys(confirmed) {
		c := confirmed[k]
		if f, ok := isKnown(c.c.Harness, c.res.Msg); ok {
			if !knownHit[f.What] {
				knownHit[f.What] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, f.What)
			}
			continue
		}
		nviol++
		p := filepath.Join(verifDir, "evidence/replays", fmt.Sprintf("%s-%d.json", *prop, nviol))
		b, _ := json.MarshalIndent(map[string]any{"property": *prop, "package": pr.Package, "harness": c.c.Harness, "engine": c.c.Msg, "real": c.res.Msg, "status": c.res.Status,
			"stack": c.res.Stack, "vec": c.c.Vec, "params": r.params, "repeat": c.c.Repeat, "fill": c.c.Fill, "found_by": c.src, "run": "bin/gosym replay " + p}, "", " ")
		os.WriteFile(p, append(b, '\n'), 0o644)
		fmt.Printf("  %s: %s\n", c.c.Harness, c.res.Msg)
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", *prop, p))
	}
	// ---- evidence
	states, asserts, symAsserts := int64(0), int64(0), int64(0)
	inst := int64(0)
	exh := true
	var hstats []map[string]any
	for _, h := range r.hst {
		states += h.Done + h.Assume + h.Cut + h.Viol
		asserts += h.Asserts
		symAsserts += h.SymAsserts
		inst += h.Instrs
		if h.Incomplete || h.Unsupported > 0 || h.Budget > 0 {
			exh = false
		}
		hstats = append(hstats, map[string]any{"harness": h.Name, "paths_completed": h.Done, "paths_outside_assumptions": h.Assume, "paths_cut_by_bounds": h.Cut, "paths_unsupported": h.Unsupported, "paths_over_budget": h.Budget,
			"paths_violating": h.Viol, "assertions": h.Asserts, "symbolic_assertions": h.SymAsserts, "symbolic_branches": h.SymBranches, "ssa_instructions": h.Instrs, "all_paths_explored": !h.Incomplete})
		if h.Done == 0 && h.Viol == 0 {
			notes = append(notes, "VACUOUS: "+h.Name+" completed no path")
		}
		if h.Incomplete {
			notes = append(notes, "time ran out before every path of "+h.Name+" was explored")
		}
	}
	if len(r.incon) > 0 {
		exh = false
	}
	var fns []string
	for f := range r.fnsSeen {
		if !strings.Contains(f, "/internal/zz") && !strings.Contains(f, "init$") {
			fns = append(fns, strings.ReplaceAll(f, repoModule+"/", ""))
		}
	}
	sort.Strings(fns)
	incon := map[string]int{}
	for _, k := range sortedKeys(r.incon) {
		if len(incon) < 30 {
			incon[k] = r.incon[k]
		}
	}
	var samples []any
	step := len(r.samples)/6 + 1
	for i := 0; i < len(r.samples); i += step {
		s := r.samples[i]
		samples = append(samples, map[string]any{"harness": s.Harness, "input": s.Vec, "observed": s.Obs})
	}
	bounds := append([]string{}, pr.Bounds...)
	bounds = append(bounds, sortedKeys(r.bounds)...)
	for _, k := range sortedKeys(r.params) {
		bounds = append(bounds, fmt.Sprintf("%s = %d", k, r.params[k]))
	}
	st := &r.stats
	cov := map[string]any{
		"states": states, "transitions": inst, "traces_validated_against_impl": validated, "samples": samples,
		"exhaustive": exh && len(gone) == 0,
		"explanation": "states = symbolic paths decided (each stands for every input satisfying its path condition); transitions = SSA instructions of the real code executed symbolically; " +
			"traces_validated_against_impl = paths whose solver model was run through the real, natively compiled code with the same verdict and the same observed values",
		"functions_encoded": fns, "bounds": bounds, "harnesses": hstats,
		"solver":             map[string]any{"queries": st.Queries, "sat": st.SatN, "unsat": st.UnsatN, "unknown": st.UnknownN, "portfolio_fallbacks": st.Fallbacks, "decided_as_integer_order": st.IntN, "query_cache_hits": st.CacheHits, "branches_decided_by_order_procedure": st.OrderN, "branches_decided_by_model_evaluation": st.GuessN, "seconds": float64(st.SolverNS) / 1e9, "cross_checked_with_cvc5": st.CrossChecked, "cross_disagreements": st.CrossDisagree},
		"assertions_checked": asserts, "assertions_with_symbolic_condition": symAsserts,
		"reach": r.reached, "cut_by_bounds": r.cuts, "inconclusive": incon,
		"engine_real_mismatches": mism, "samples_not_replayable": skipped, "unconfirmed_counterexamples": unconf, "fallback_concrete_runs": fbRun,
		"load_s": loadS, "explore_s": exploreS, "notes": notes,
	}
	ass := append([]string{}, pr.Assumes...)
	ass = append(ass, sortedKeys(r.assumes)...)
	writeEvidence(*prop, map[string]any{"property": *prop, "tier": *tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": ass,
		"wall_s": time.Since(t0).Seconds(), "violations": nviol})

	fmt.Printf("%s %s: %d paths (exhaustive=%v), %d assertions, %d queries (%.1fs solver), %d native traces, load %.1fs explore %.1fs total %.1fs\n", *prop, *tier, states, exh, asserts,
		st.Queries, float64(atomic.LoadInt64(&st.SolverNS))/1e9, validated, loadS, exploreS, time.Since(t0).Seconds())
	if *verbose {
		for _, h := range hstats {
			b, _ := json.Marshal(h)
			fmt.Println(" ", string(b))
		}
		b, _ := json.Marshal(r.reached)
		fmt.Println("  reach", string(b))
		b, _ = json.Marshal(r.cuts)
		fmt.Println("  cuts", string(b))
		fmt.Println("  skipped samples", skipped, "mismatches", mism)
		for k, v := range incon {
			fmt.Println("  INCON", v, k)
		}
		for k, v := range unconf {
			fmt.Println("  UNCONFIRMED", v, k)
		}
		if r.engErr != "" {
			fmt.Println("  ENGINE ERROR", r.engErr)
		}
		fmt.Println("  fns", strings.Join(fns, " "))
	}
	for _, n := range notes {
		fmt.Println("NOTE:", n)
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	if nviol > 0 {
		exit(1)
	}
	exit(0)
}

// harnessNames finds the harness functions of a package by name.
func harnessNames(hp *HarnessPkg) ([]string, error) {
	es, err := os.ReadDir(filepath.Join(verifDir, "harness", hp.Dir))
	if err != nil {
		return nil, err
	}
	var r []string
	for _, e := range es {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(verifDir, "harness", hp.Dir, e.Name()))
		if err != nil {
			return nil, err
		}
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "func C") {
				n, rest, ok := strings.Cut(l[5:], "(")
				if ok && len(n) > 4 && n[3] == '_' && strings.HasPrefix(rest, ")") {
					r = append(r, n)
				}
			}
		}
	}
	sort.Strings(r)
	return r, nil
}

// warm compiles every harness package once so that later runs use the build cache.
func warm() {
	tab, err := readTable()
	if err != nil {
		fmt.Println(err)
		return
	}
	for _, d := range sortedKeys(tab.Packages) {
		hp := tab.hp(d)
		dir := scratch()
		ov, err := buildOverlay(hp, dir)
		if err != nil {
			fmt.Println(d, err)
			continue
		}
		names, _ := harnessNames(hp)
		n := buildNative(hp, ov, names, dir)
		<-n.done
		fmt.Println("warm", d, len(names), n.err)
		os.RemoveAll(dir)
	}
}

func replay(args []string) {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var v struct {
		Package, Harness string
		Vec              []any
		Params           map[string]int
		Repeat           int
		Fill             bool
	}
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	tab, err := readTable()
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	hp := tab.hp(v.Package)
	dir := scratch()
	defer os.RemoveAll(dir)
	ov, err := buildOverlay(hp, dir)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	names, _ := harnessNames(hp)
	n := buildNative(hp, ov, names, dir)
	res, err := n.Run([]*candidate{{Harness: v.Harness, Vec: v.Vec, Repeat: v.Repeat, Fill: v.Fill}}, v.Params, 10*time.Second, time.Minute)
	fmt.Println(res[0].Status, res[0].Msg, err)
	fmt.Println(res[0].Stack)
}
