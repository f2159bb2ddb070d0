package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/pprof"
	"strconv"
	"strings"
	"time"
)

var verifDir = "/verif"

func envSeed() uint64 {
	s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func envTier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func main() {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: mon check ID | mon replay FILE")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		id := os.Args[2]
		p := props[id]
		if p == nil {
			fmt.Fprintln(os.Stderr, "no such property:", id)
			os.Exit(2)
		}
		if p.Custom != nil {
			os.Exit(p.Custom(id))
		}
		os.Exit(supervise(id))
	case "child":
		loadKnown()
		seed, _ := strconv.ParseUint(os.Args[4], 10, 64)
		if f := os.Getenv("VERIF_PROFILE"); f != "" {
			if o, err := os.Create(f); err == nil {
				pprof.StartCPUProfile(o)
			}
		}
		childMain(os.Args[2], os.Args[3], seed, os.Args[5])
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "confirm":
		loadKnown()
		seed, _ := strconv.ParseUint(os.Args[4], 10, 64)
		confirmMain(os.Args[2], os.Args[3], seed, os.Args[5], os.Args[6])
	case "solo":
		soloMain(os.Args[2:])
	case "race":
		raceMain(os.Args[2:])
	default:
		os.Exit(2)
	}
}

func outDir() string {
	d := os.Getenv("OUT")
	if d == "" {
		d = filepath.Join(verifDir, "out")
	}
	os.MkdirAll(filepath.Join(d, "replay"), 0o755)
	return d
}

// supervise runs a property in a child process, so that no way of failing of
// the code under test (fatal error, exit, runaway memory) ends the verdict.
func supervise(id string) int {
	tier, seed := envTier(), envSeed()
	out := outDir()
	res := filepath.Join(out, fmt.Sprintf("result-%s.json", id))
	log := filepath.Join(out, fmt.Sprintf("child-%s.log", id))
	os.Remove(res)
	lf, err := os.Create(log)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	t0 := time.Now()
	self, _ := os.Executable()
	cmd := exec.Command(self, "child", id, tier, strconv.FormatUint(seed, 10), res)
	cmd.Stdout, cmd.Stderr = lf, lf
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all")
	err = cmd.Run()
	lf.Close()
	b, rerr := os.ReadFile(res)
	var r result
	if rerr == nil {
		rerr = json.Unmarshal(b, &r)
	}
	if rerr != nil {
		l, _ := os.ReadFile(log)
		return crashed(id, tier, seed, string(l), err, t0)
	}
	if len(r.Violations) == 0 && len(r.Harness) == 0 {
		if r.Extra == nil {
			r.Extra = map[string]any{}
		}
		fuzzPhase(id, tier, seed, &r)
	}
	if len(r.Violations) == 0 && len(r.Harness) == 0 {
		run32(id, seed, &r)
	}
	return conclude(id, tier, seed, &r, t0)
}

// run32 runs the quick workload, with another seed, in a 32-bit build.
func run32(id string, seed uint64, r *result) {
	bin := os.Getenv("VERIF_BIN32")
	if bin == "" {
		return
	}
	info := map[string]any{}
	r.Extra["32-bit build"] = info
	if !waitBuilt(bin + ".rc") {
		info["not run"] = "the build failed"
		return
	}
	res := filepath.Join(outDir(), "result32-"+id+".json")
	os.Remove(res)
	_, log, err := run([]string{"GOTRACEBACK=all", "VERIF_FUZZ_BIN="}, bin, "child", id, "quick", strconv.FormatUint(seed+1000003, 10), res)
	var q result
	b, rerr := os.ReadFile(res)
	if rerr == nil {
		rerr = json.Unmarshal(b, &q)
	}
	switch {
	case rerr == nil:
		info["executions"], info["non-trivial"], info["observed"] = q.Evals, q.Nontrivial, q.Obs
		r.Evals += q.Evals
		r.Nontrivial += q.Nontrivial
		for _, v := range q.Violations {
			v.What = "in a 32-bit build (GOARCH=386): " + v.What
			r.Violations = append(r.Violations, v)
		}
		r.Known = append(r.Known, q.Known...)
		if len(q.Harness) > 0 { // memory or time short on 32 bits: no verdict
			info["incomplete"] = q.Harness
		}
	case crashedUnder(log) && !strings.Contains(log, "out of memory") && !strings.Contains(log, "SIGQUIT"):
		r.Violations = append(r.Violations, Violation{Case: &Case{Prop: id, Kind: "whole-run"},
			What: "a 32-bit build (GOARCH=386) was ended by the Go runtime:\n" + clipLog(tailFrom(log))})
	default:
		info["incomplete"] = fmt.Sprintf("%v %s", err, clipS(tailOf(log)))
	}
}

// crashed judges a child that ended without a result.
func crashed(id, tier string, seed uint64, log string, err error, t0 time.Time) int {
	head := log
	if len(head) > 6000 {
		head = head[:6000]
	}
	under := strings.Contains(log, "github.com/suapapa/go_hangul")
	fatal := strings.Contains(log, "fatal error:") || strings.Contains(log, "panic:") || strings.Contains(log, "SIGSEGV")
	// The exit status is no evidence: only a runtime report with frames of
	// the code under test is.
	if under && fatal {
		r := &result{Obs: map[string]int64{}, Violations: []Violation{{
			Case: &Case{Prop: id, Kind: "whole-run"},
			What: "the process was ended by the Go runtime:\n" + head}}}
		return conclude(id, tier, seed, r, t0)
	}
	fmt.Fprintf(os.Stderr, "inconclusive: the child ended without a result (%v)\n%s\n", err, head)
	return 2
}

func conclude(id, tier string, seed uint64, r *result, t0 time.Time) int {
	for _, k := range dedup(r.Known) {
		fmt.Println(k)
	}
	writeEvidence(id, tier, seed, r, time.Since(t0))
	if len(r.Violations) > 0 {
		v := r.Violations[0]
		f := filepath.Join(outDir(), "replay", fmt.Sprintf("%s-%s.json", id, v.Case.key()))
		j, _ := json.MarshalIndent(map[string]any{"property": id, "tier": tier, "seed": seed, "violations": r.Violations}, "", " ")
		os.WriteFile(f, append(j, '\n'), 0o644)
		for _, v := range r.Violations {
			fmt.Printf("observed: %s\n  %s\n", v.Case, indent(v.What))
			if v.Shrunk != nil {
				fmt.Printf("  shrunk to: %s\n  %s\n", v.Shrunk, indent(v.SWhat))
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, f)
		return 1
	}
	if len(r.Harness) > 0 {
		fmt.Fprintf(os.Stderr, "inconclusive: %s\n", strings.Join(r.Harness, "; "))
		return 2
	}
	fmt.Printf("%s held on %d executions (%d distinct non-trivial), %s tier, seed %d, %.1fs\n", id, r.Evals, r.Nontrivial, tier, seed, time.Since(t0).Seconds())
	return 0
}

func indent(s string) string { return strings.ReplaceAll(strings.TrimSpace(s), "\n", "\n  ") }

func dedup(l []string) []string {
	seen := map[string]bool{}
	var o []string
	for _, x := range l {
		if !seen[x] {
			seen[x] = true
			o = append(o, x)
		}
	}
	return o
}

func writeEvidence(id, tier string, seed uint64, r *result, wall time.Duration) {
	samples := make([]any, 0, len(r.Samples))
	for _, s := range r.Samples {
		samples = append(samples, s)
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	cov := map[string]any{
		"evaluations": r.Evals, "distinct_nontrivial": r.Nontrivial,
		"rule": props[id].Rule, "samples": samples,
		"observed": r.Obs, "distinct_states": r.Sets,
	}
	if r.Exhaustive {
		cov["exhaustive"] = true
	}
	for k, v := range r.Extra {
		cov[k] = v
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "wall_s": float64(int(wall.Seconds()*100)) / 100,
		"violations": len(r.Violations),
		"assumptions": []string{
			"the Go toolchain, the x/text module and the reference data in mon/ref are correct",
			"held on the executions observed; nothing is claimed about others",
		},
	}
	j, _ := json.MarshalIndent(ev, "", " ")
	d := filepath.Join(verifDir, "evidence")
	if o := os.Getenv("VERIF_OUT"); o != "" {
		d = o
	}
	os.MkdirAll(d, 0o755)
	os.WriteFile(filepath.Join(d, id+".json"), append(j, '\n'), 0o644)
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var d struct {
		Property   string
		Tier       string
		Seed       uint64
		Violations []Violation
	}
	if err := json.Unmarshal(b, &d); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props[d.Property]
	bad := 0
	for _, v := range d.Violations {
		for _, c := range []*Case{v.Case, v.Shrunk} {
			if c == nil {
				continue
			}
			if p.Kinds[c.Kind] == nil {
				fmt.Printf("%s: rerun with VERIF_SEED=%d VERIF_TIER=%s ./check %s\n", c, d.Seed, d.Tier, d.Property)
				continue
			}
			m := newM(d.Property, d.Tier, d.Seed)
			w := &W{m: m, obs: map[string]int64{}, rng: shardRand(d.Seed, d.Property, "replay", 0)}
			if s := w.eval(c); s != "" {
				fmt.Printf("%s\n  %s\n", c, indent(s))
				bad++
			} else {
				fmt.Printf("%s: no violation now\n", c)
			}
		}
	}
	if bad > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.Property, file)
		return 1
	}
	return 0
}
