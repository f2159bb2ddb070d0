package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/suapapa/go_hangul/encoding/cp949"
)

// C20. The expected result of an operation is what the same code returns for
// it in a process that does nothing else. It is compared with what the
// operation returns in long random histories and among concurrent goroutines,
// the latter also under the race detector.

type concReport struct {
	Calls    int64
	Mismatch []mismatch
	Overlap  map[string]int64 // pairs of kinds seen to overlap in time
	MaxPar   int
	Kinds    map[string]int64
	Ops      map[int]bool // operations run
}

type mismatch struct {
	Op        int
	Got, Want string
	When      string
}

func init() {
	register(&Prop{ID: "C20",
		Rule:   "A pool of operations of 16 kinds covering every exported function and stream, each run alone in a fresh process; then the same operations in random histories in one process, and by concurrent goroutines from a cold start, in an ordinary build and under the race detector, sharing inputs and one CP949Encoding. A result that differs from the one obtained alone, or a data race report with a frame of the code under test, is a violation. The pool has many operations on related texts, and at least five different results of each kind. Non-trivial: an operation of the pool compared with its result alone in one of the three settings, counted once per setting.",
		Custom: c20,
	})
}

// soloMain runs the operations given by number, each as if the process had
// just started: it is meant to be called with one number.
func soloMain(args []string) {
	ops := readOps(args[0])
	i, err := strconv.Atoi(args[1])
	if err != nil || i < 0 || i >= len(ops) {
		os.Exit(3)
	}
	res := ops[i].exec(cp949.NewCP949Encoding())
	os.Stdout.Write(marshal(res))
}

func readOps(file string) []*Op {
	b, err := os.ReadFile(file)
	var ops []*Op
	if err == nil {
		err = json.Unmarshal(b, &ops)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	return ops
}

type concArgs struct {
	Ops, Want, Out string
	Seed           uint64
	Mode           string // history, concurrent
	Rounds         int
	Goroutines     int
	Procs          int
}

func raceMain(args []string) {
	var a concArgs
	if err := json.Unmarshal([]byte(args[0]), &a); err != nil {
		os.Exit(3)
	}
	runtime.GOMAXPROCS(a.Procs)
	ops := readOps(a.Ops)
	var want []string
	b, err := os.ReadFile(a.Want)
	if err == nil {
		err = json.Unmarshal(b, &want)
	}
	if err != nil || len(want) != len(ops) {
		os.Exit(3)
	}
	rep := &concReport{Overlap: map[string]int64{}, Kinds: map[string]int64{}, Ops: map[int]bool{}}
	if a.Mode == "history" {
		history(&a, ops, want, rep)
	} else {
		concurrent(&a, ops, want, rep)
	}
	if err := os.WriteFile(a.Out, marshal(rep), 0o644); err != nil {
		os.Exit(3)
	}
	os.Exit(0)
}

func history(a *concArgs, ops []*Op, want []string, rep *concReport) {
	r := shardRand(a.Seed, "C20", "history", a.Procs)
	e := newEncoding(r)
	var recent []int
	var buf []byte
	for n := a.Rounds * len(ops); n > 0; n-- {
		i := r.IntN(len(ops))
		if len(recent) > 0 && r.IntN(4) == 0 {
			i = recent[r.IntN(len(recent))] // again, a little later
		} else if len(recent) > 0 && r.IntN(3) == 0 { // a neighbour, often a relative
			i = min(recent[len(recent)-1]+1, len(ops)-1)
		}
		o := ops[i]
		if r.IntN(3) == 0 {
			o = o.in(&buf)
		}
		got := o.exec(e)
		rep.Calls++
		rep.Kinds[ops[i].Kind]++
		rep.Ops[i] = true
		if got != want[i] && len(rep.Mismatch) < 3 {
			when := "after"
			for _, k := range recent[max(0, len(recent)-4):] {
				when += " [" + ops[k].String() + "]"
			}
			rep.Mismatch = append(rep.Mismatch, mismatch{i, got, want[i], when})
		}
		recent = append(recent, i)
		if len(recent) > 12 {
			recent = recent[1:]
		}
		if r.IntN(500) == 0 {
			runtime.GC() // pools lose their contents
		}
	}
}

type span struct {
	op         int
	start, end int64
	bad        string
}

func concurrent(a *concArgs, ops []*Op, want []string, rep *concReport) {
	r := shardRand(a.Seed, "C20", "concurrent", a.Procs)
	e := newEncoding(r)
	by := map[string][]int{}
	for i, o := range ops {
		by[o.Kind] = append(by[o.Kind], i)
	}
	kinds := append([]string(nil), opKinds...)
	r.Shuffle(len(kinds), func(i, j int) { kinds[i], kinds[j] = kinds[j], kinds[i] })
	g := a.Goroutines
	// Plans are made beforehand: goroutines share nothing while they run.
	var phases [][][]int
	if a.Mode == "cold" && r.IntN(2) == 0 { // first uses of different kinds together
		for n := 0; n < 4; n++ {
			ph := make([][]int, g)
			for j := range ph {
				ph[j] = []int{r.IntN(len(ops)), r.IntN(len(ops))}
			}
			phases = append(phases, ph)
		}
	}
	for _, k := range kinds { // first use of each kind by all at once
		ph := make([][]int, g)
		for j := range ph {
			ph[j] = []int{pick(r, by[k]), pick(r, by[k])}
		}
		phases = append(phases, ph)
	}
	again := map[int]int{} // phases in which everything is done many times over
	for n := 0; n < a.Rounds; n++ {
		ph := make([][]int, g)
		if n%5 == 4 { // a few operations of one kind over and over
			var l []int
			all := by[kinds[n/5%len(kinds)]]
			i := r.IntN(len(all))
			for k := 0; k < 2+r.IntN(3); k++ {
				l = append(l, all[(i+k)%len(all)])
			}
			for j := range ph {
				ph[j] = []int{pick(r, l), pick(r, l)}
			}
			again[len(phases)] = 300
			phases = append(phases, ph)
			continue
		}
		var few []int // sometimes all goroutines use the same few operations
		for j := 0; j < 3; j++ {
			few = append(few, r.IntN(len(ops)))
		}
		only := kinds[r.IntN(len(kinds))]
		mode := n % 4
		for j := range ph {
			for c := 0; c < 12; c++ {
				switch mode {
				case 0:
					ph[j] = append(ph[j], pick(r, few))
				case 1:
					ph[j] = append(ph[j], pick(r, by[only]))
				default:
					ph[j] = append(ph[j], r.IntN(len(ops)))
				}
			}
		}
		phases = append(phases, ph)
	}
	logs := make([][]span, g)
	more := make([]int64, g*16) // calls that are not in the logs
	t0 := time.Now()
	for n, ph := range phases {
		over := max(1, again[n])
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for j := 0; j < g; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var l []span
				<-gate
				var limit time.Time
				if over > 1 {
					limit = time.Now().Add(20 * time.Millisecond)
				}
				for k := 0; k < over; k++ {
					for _, i := range ph[j] {
						s := span{op: i, start: int64(time.Since(t0))}
						got := ops[i].exec(e)
						if got != want[i] {
							s.bad = got
							if s.bad == "" {
								s.bad = " "
							}
						}
						if k == 0 || s.bad != "" {
							s.end = int64(time.Since(t0))
							l = append(l, s)
						} else {
							more[j*16]++
						}
					}
					if k%16 == 15 && time.Now().After(limit) {
						break
					}
				}
				logs[j] = append(logs[j], l...)
			}()
		}
		close(gate)
		wg.Wait()
	}
	for _, n := range more {
		rep.Calls += n
	}
	type ev struct {
		t     int64
		kind  string
		start bool
		j     int
	}
	var evs []ev
	for j, l := range logs {
		for _, s := range l {
			rep.Calls++
			k := ops[s.op].Kind
			rep.Kinds[k]++
			rep.Ops[s.op] = true
			if s.bad != "" && len(rep.Mismatch) < 3 {
				rep.Mismatch = append(rep.Mismatch, mismatch{s.op, s.bad, want[s.op], fmt.Sprintf("among %d goroutines", g)})
			}
			evs = append(evs, ev{s.start, k, true, j}, ev{s.end, k, false, j})
		}
	}
	sort.Slice(evs, func(i, j int) bool { return evs[i].t < evs[j].t })
	now := map[int]string{}
	for _, v := range evs {
		if !v.start {
			delete(now, v.j)
			continue
		}
		for j, k := range now {
			if j == v.j {
				continue
			}
			p := [2]string{k, v.kind}
			if p[0] > p[1] {
				p[0], p[1] = p[1], p[0]
			}
			rep.Overlap[p[0]+"+"+p[1]]++
		}
		now[v.j] = v.kind
		rep.MaxPar = max(rep.MaxPar, len(now))
	}
}

// --- parent ----------------------------------------------------------------------

func c20(id string) int {
	tier, seed := envTier(), envSeed()
	loadKnown()
	t0 := time.Now()
	dir := filepath.Join(outDir(), "c20")
	os.RemoveAll(dir)
	os.MkdirAll(dir, 0o755)
	self, _ := os.Executable()
	race := os.Getenv("VERIF_RACE_BIN")
	if race == "" {
		race = self + "-race"
	}
	if _, err := os.Stat(race); err != nil {
		fmt.Fprintln(os.Stderr, "inconclusive: no race build:", err)
		return 2
	}
	thorough := tier == "thorough"
	r := &result{Obs: map[string]int64{}, Sets: map[string]int{}, Extra: map[string]any{}}
	pools := 1
	if thorough {
		pools = 8
	}
	overlap := map[string]int64{}
	kindsSeen := map[string]bool{}
	for p := 0; p < pools && time.Since(t0) < 6*time.Minute && len(r.Violations) == 0 && len(r.Harness) == 0; p++ {
		c20Pool(r, self, race, filepath.Join(dir, strconv.Itoa(p)), seed+uint64(p)*1000003, thorough, overlap, kindsSeen)
	}
	r.Sets["pairs of kinds seen to overlap"] = len(overlap)
	r.Sets["kinds"] = len(kindsSeen)
	if len(r.Violations) == 0 && len(r.Harness) == 0 {
		need := func(what string, got, min int64) {
			if got < min {
				r.Harness = append(r.Harness, fmt.Sprintf("observed too little: %s=%d, need %d", what, got, min))
			}
		}
		need("pairs of kinds seen to overlap", int64(len(overlap)), 100)
		need("kinds", int64(len(kindsSeen)), int64(len(opKinds)))
		need("calls in histories", r.Obs["calls in histories"], 10000)
		need("concurrent calls under the race detector", r.Obs["concurrent calls under the race detector"], 5000)
	}
	return conclude(id, tier, seed, r, t0)
}

func c20Pool(r *result, self, race, dir string, seed uint64, thorough bool, overlap map[string]int64, kinds map[string]bool) {
	os.MkdirAll(dir, 0o755)
	n := 36
	if thorough {
		n = 60
	}
	ops := makeOps(seed, n)
	opsFile := filepath.Join(dir, "ops.json")
	os.WriteFile(opsFile, marshal(ops), 0o644)
	bug := func(s string) { r.Harness = append(r.Harness, s) }
	violate := func(kind, what string) {
		if len(r.Violations) >= 6 {
			return
		}
		r.Violations = append(r.Violations, Violation{Case: &Case{Prop: "C20", Kind: kind, R: []int64{int64(seed)}}, What: what})
	}
	// alone
	want := make([]string, len(ops))
	errs := make([]string, len(ops))
	var wg sync.WaitGroup
	sem := make(chan struct{}, runtime.NumCPU())
	for i := range ops {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg.Done() }()
			f := filepath.Join(dir, fmt.Sprintf("op%d.json", i))
			os.WriteFile(f, marshal(ops[i:i+1]), 0o644)
			out, log, err := run(nil, self, "solo", f, "0")
			os.Remove(f)
			if err != nil || json.Unmarshal(out, &want[i]) != nil {
				errs[i] = fmt.Sprintf("%v\n%s", err, log)
			}
		}()
	}
	wg.Wait()
	for i, e := range errs {
		if e == "" {
			continue
		}
		if crashedUnder(e) {
			violate("alone", fmt.Sprintf("%s alone: %s", ops[i], e))
		} else {
			bug("solo run failed: " + e)
		}
		return
	}
	r.Obs["operations run alone"] += int64(len(ops))
	results := map[string]map[string]bool{}
	for i, o := range ops {
		if results[o.Kind] == nil {
			results[o.Kind] = map[string]bool{}
		}
		results[o.Kind][want[i]] = true
	}
	for k, l := range results {
		if k != "ishanja" && len(l) < 5 {
			bug(fmt.Sprintf("only %d different results of %s", len(l), k))
			return
		}
	}
	wantFile := filepath.Join(dir, "want.json")
	os.WriteFile(wantFile, marshal(want), 0o644)

	type job struct {
		bin  string
		a    concArgs
		race bool
	}
	var jobs []job
	add := func(mode string, isRace bool, rounds, g, procs int) {
		k := len(jobs)
		j := job{bin: self, race: isRace, a: concArgs{Ops: opsFile, Want: wantFile, Out: filepath.Join(dir, fmt.Sprintf("rep%d.json", k)),
			Seed: seed + uint64(k)*7919, Mode: mode, Rounds: rounds, Goroutines: g, Procs: procs}}
		if isRace {
			j.bin = race
		}
		jobs = append(jobs, j)
	}
	x := 1
	if thorough {
		x = 6
	}
	for k := 0; k < 4*x; k++ {
		add("history", false, 40*x, 0, 1+k%2)
	}
	for k := 0; k < 6*x; k++ {
		add("concurrent", true, 60*x, 2+k%4*4, 2+k%4*2)
	}
	for k := 0; k < 6*x; k++ {
		add("concurrent", false, 150*x, 8+k%3*12, 2+k%4*2)
	}
	for k := 0; k < 30*x; k++ { // processes that only make the first calls
		add("cold", k%6 == 5, 0, 4+k%3*6, 4+k%2*4)
	}
	var mu sync.Mutex
	compared := map[string]bool{}
	sem = make(chan struct{}, 3)
	for k, j := range jobs {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg.Done() }()
			logp := filepath.Join(dir, fmt.Sprintf("race%d", k))
			env := []string{"GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path=" + logp, "GOTRACEBACK=all"}
			_, log, err := run(env, j.bin, "race", string(marshal(j.a)))
			name := j.a.Mode
			if j.race {
				name += " under the race detector"
			}
			var rep concReport
			b, e2 := os.ReadFile(j.a.Out)
			if e2 == nil {
				e2 = json.Unmarshal(b, &rep)
			}
			mu.Lock()
			defer mu.Unlock()
			if j.race {
				files, _ := filepath.Glob(logp + ".*")
				for _, f := range files {
					b, _ := os.ReadFile(f)
					for _, blk := range strings.Split(string(b), "==================") {
						if !strings.Contains(blk, "DATA RACE") {
							continue
						}
						if strings.Contains(blk, "suapapa/go_hangul") {
							r.Obs["race reports"]++
							if r.Obs["race reports"] <= 2 {
								violate("race", strings.TrimSpace(blk))
							}
						} else {
							bug("data race in the harness: " + blk)
						}
					}
				}
			}
			if err != nil || e2 != nil {
				s := fmt.Sprintf("%s run: %v, %v\n%s", name, err, e2, clipLog(log))
				if crashedUnder(log) {
					violate("crash", s)
				} else {
					bug(s)
				}
				return
			}
			for _, m := range rep.Mismatch {
				violate(j.a.Mode, fmt.Sprintf("%s: %s %s returned\n %s\nalone it returns\n %s", name, ops[m.Op], m.When, clipS(m.Got), clipS(m.Want)))
			}
			r.Evals += rep.Calls
			for i := range rep.Ops {
				compared[name+strconv.Itoa(i)] = true
			}
			for k, v := range rep.Overlap {
				overlap[k] += v
			}
			for k := range rep.Kinds {
				kinds[k] = true
			}
			if j.a.Mode == "history" {
				r.Obs["calls in histories"] += rep.Calls
			} else if j.race {
				r.Obs["concurrent calls under the race detector"] += rep.Calls
			} else {
				r.Obs["concurrent calls"] += rep.Calls
			}
			if j.a.Mode == "cold" {
				r.Obs["cold starts"]++
			}
			r.Obs["most operations in progress at once"] = max(r.Obs["most operations in progress at once"], int64(rep.MaxPar))
			r.Obs["processes"]++
			for _, v := range rep.Overlap {
				r.Obs["overlapping pairs of operations"] += v
			}
		}()
	}
	wg.Wait()
	r.Nontrivial += int64(len(compared))
	for k := 0; k < 6 && len(r.Samples) < 6; k++ {
		r.Samples = append(r.Samples, ops[(k*len(ops))/6].String())
	}
}

func clipS(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

func clipLog(s string) string {
	if len(s) > 6000 {
		return s[:6000]
	}
	return s
}

func crashedUnder(log string) bool {
	return strings.Contains(log, "suapapa/go_hangul") &&
		(strings.Contains(log, "fatal error:") || strings.Contains(log, "panic:") || strings.Contains(log, "SIGQUIT"))
}

const runLimit = 300 * time.Second

// run runs a command; one that exceeds the limit is asked for its stacks.
func run(env []string, name string, args ...string) (out []byte, log string, err error) {
	cmd := exec.Command(name, args...)
	cmd.Env = append(os.Environ(), env...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if err := cmd.Start(); err != nil {
		return nil, "", err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(runLimit):
		cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			cmd.Process.Kill()
			<-done
		}
		err = errors.New("did not end in time")
	}
	return o.Bytes(), e.String(), err
}
