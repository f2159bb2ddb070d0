package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Case is one execution to observe: enough to run it again.
type Case struct {
	Prop string   `json:"prop"`
	Kind string   `json:"kind"`
	R    []int64  `json:"r,omitempty"` // runes, sizes, schedule seeds
	S    [][]byte `json:"s,omitempty"` // texts
}

func (c *Case) clone() *Case {
	d := &Case{Prop: c.Prop, Kind: c.Kind, R: append([]int64(nil), c.R...)}
	for _, s := range c.S {
		d.S = append(d.S, append([]byte(nil), s...))
	}
	return d
}

func (c *Case) String() string {
	s := fmt.Sprintf("%s/%s", c.Prop, c.Kind)
	if len(c.R) > 0 {
		r := c.R
		if len(r) > 24 {
			r = r[:24]
		}
		s += fmt.Sprintf(" r=%x", r)
	}
	for _, t := range c.S {
		if len(t) > 48 {
			s += fmt.Sprintf(" s[%d bytes]=%q...", len(t), t[:48])
		} else {
			s += fmt.Sprintf(" s=%q", t)
		}
	}
	return s
}

func (c *Case) key() string {
	j, _ := json.Marshal(c)
	h := sha256.Sum256(j)
	return hex.EncodeToString(h[:6])
}

// Eval runs the real code on a case under its monitor. It returns "" if the
// monitor saw nothing wrong, otherwise what it saw.
type Eval func(w *W, c *Case) string

type Prop struct {
	ID    string
	Rule  string
	Kinds map[string]Eval
	Drive func(m *M)
	// Observations below these counts make a run inconclusive.
	Min  map[string]int64
	Need func(m *M) string // nil or a further reason to be inconclusive
	// Custom replaces the supervised in-process run (C20).
	Custom func(id string) int
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

type Violation struct {
	Case   *Case  `json:"case"`
	What   string `json:"what"`
	Shrunk *Case  `json:"shrunk,omitempty"`
	SWhat  string `json:"shrunk_what,omitempty"`
}

// M is the monitor of one run.
type M struct {
	p        *Prop
	tier     string
	seed     uint64
	thorough bool

	mu         sync.Mutex
	evals      int64
	nontrivial int64
	distinct   int64
	exhaustive bool
	obs        map[string]int64
	sets       map[string]map[string]struct{}
	samples    []string
	violations []Violation
	known      []string
	harness    []string
	stop       atomic.Bool

	hseed  maphash.Seed
	shards [64]struct {
		sync.Mutex
		m map[uint64]struct{}
		_ [40]byte
	}
	workers []*W
	extra   map[string]any

	shapes []shape
	seeds  [][]byte
}

// W is one worker of a run. Its fields are only used by its own goroutine,
// except seq and cur which the watchdog reads.
type W struct {
	m      *M
	rng    *Rng
	lent   []byte
	n      int64
	ntn    int64
	nt     bool // set by Eval: the case was non-trivial
	dedup  bool
	obs    map[string]int64
	note   string // position inside a range case, for panics
	pos    int64
	seq    atomic.Uint64
	cur    atomic.Pointer[Case]
	samp   int
	kept   int // seeds taken from this shard
	b1, b2 []byte
}

func (w *W) count(name string)        { w.obs[name]++ }
func (w *W) add(name string, n int64) { w.obs[name] += n }

// mark records that a distinct state was seen (small sets only).
func (w *W) mark(set, v string) {
	m := w.m
	m.mu.Lock()
	s := m.sets[set]
	if s == nil {
		s = map[string]struct{}{}
		m.sets[set] = s
	}
	if len(s) < 100000 {
		s[v] = struct{}{}
	}
	m.mu.Unlock()
}

func (m *M) hashCase(c *Case) uint64 {
	var h maphash.Hash
	h.SetSeed(m.hseed)
	h.WriteString(c.Kind)
	for _, r := range c.R {
		var b [8]byte
		for i := range b {
			b[i] = byte(r >> (8 * i))
		}
		h.Write(b[:])
	}
	for _, s := range c.S {
		h.WriteByte(0)
		h.Write(s)
	}
	return h.Sum64()
}

// first reports whether the case was not seen before in this run.
func (m *M) first(c *Case) bool {
	h := m.hashCase(c)
	s := &m.shards[h&63]
	s.Lock()
	defer s.Unlock()
	if s.m == nil {
		s.m = map[uint64]struct{}{}
	}
	if _, ok := s.m[h]; ok {
		return false
	}
	if len(s.m) >= 100000 {
		return false // full: undercount rather than overcount
	}
	s.m[h] = struct{}{}
	return true
}

func (w *W) eval(c *Case) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			if h, ok := e.(harnessBug); ok {
				w.m.bug(string(h))
				return
			}
			st := string(debug.Stack())
			if v, ok := e.(verdict); ok {
				msg = string(v)
				return
			}
			if inHarness(st) {
				w.m.bug(fmt.Sprintf("panic in the harness: %v\n%s", e, st))
				return
			}
			msg = fmt.Sprintf("panic: %v", e)
			if w.note != "" {
				msg += fmt.Sprintf(" at %s %#x", w.note, w.pos)
			}
			msg += "\n" + trimStack(st)
		}
	}()
	w.note = ""
	k := w.m.p.Kinds[c.Kind]
	if k == nil {
		panic(harnessBug("no kind " + c.Kind))
	}
	return k(w, c)
}

// inHarness reports whether a panic was raised by the monitors' own code, not
// by the code under test or by x/text on what the code under test gave it.
func inHarness(st string) bool {
	i := strings.Index(st, "\npanic(")
	if i < 0 {
		return true
	}
	for _, l := range strings.Split(st[i+1:], "\n")[1:] {
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "panic(") || l == "" {
			continue
		}
		return strings.HasPrefix(l, "main.")
	}
	return true
}

func trimStack(st string) string {
	l := strings.Split(st, "\n")
	if len(l) > 40 {
		l = l[:40]
	}
	return strings.Join(l, "\n")
}

// verdict is panicked by monitors that sit inside callbacks.
type verdict string
type harnessBug string

// Do observes one case. It returns false when the run should stop.
func (w *W) Do(c *Case) bool { return w.DoN(c, 1) }

// DoN is Do for a case that stands for n evaluations, all distinct by
// construction if n > 1.
func (w *W) DoN(c *Case, n int64) bool {
	m := w.m
	if m.stop.Load() {
		return false
	}
	c.Prop = m.p.ID
	w.nt = false
	if n == 1 {
		w.keep(c)
	}
	w.cur.Store(c)
	w.seq.Add(1)
	msg := w.eval(c)
	w.seq.Add(1)
	w.n += n
	if w.nt {
		if n > 1 || !w.dedup || m.first(c) {
			if n == 1 {
				w.ntn++
			}
		}
		if w.samp < 2 && n == 1 {
			w.samp++
			s := c.String()
			m.mu.Lock()
			if len(m.samples) < 12 {
				m.samples = append(m.samples, s)
			}
			m.mu.Unlock()
		}
	}
	if msg != "" {
		m.violation(w, c.clone(), msg)
	}
	return true
}

func (m *M) bug(s string) {
	m.mu.Lock()
	if len(m.harness) < 5 {
		m.harness = append(m.harness, s)
	}
	m.mu.Unlock()
	m.stop.Store(true)
}

func (m *M) violation(w *W, c *Case, msg string) {
	if isKnown(c) != "" {
		m.mu.Lock()
		m.known = append(m.known, isKnown(c))
		m.mu.Unlock()
		return
	}
	m.mu.Lock()
	full := len(m.violations) >= 3
	if !full {
		m.violations = append(m.violations, Violation{Case: c, What: msg})
	}
	m.mu.Unlock()
	if !full {
		sc, sm := shrink(w, c, msg)
		if sc != nil {
			m.mu.Lock()
			for i := range m.violations {
				if m.violations[i].Case == c {
					m.violations[i].Shrunk, m.violations[i].SWhat = sc, sm
				}
			}
			m.mu.Unlock()
		}
	}
	m.stop.Store(true)
}

// shrink makes the texts of a failing case shorter while it still fails.
func shrink(w *W, c *Case, msg string) (*Case, string) {
	best, bm := c.clone(), msg
	changed := false
	budget := 400
	try := func(d *Case) bool {
		budget--
		m := w.eval(d)
		if m == "" || len(w.m.harness) > 0 {
			return false
		}
		best, bm, changed = d.clone(), m, true
		return true
	}
	for i := range best.S {
		for step := len(best.S[i]) / 2; step >= 1 && budget > 0; {
			hit := false
			for o := 0; o+step <= len(best.S[i]) && budget > 0; {
				d := best.clone()
				d.S[i] = append(d.S[i][:o], d.S[i][o+step:]...)
				if try(d) {
					hit = true
				} else {
					o += step
				}
			}
			if !hit || step > len(best.S[i]) {
				step /= 2
			}
		}
	}
	if !changed {
		return nil, ""
	}
	return best, bm
}

func shardRand(seed uint64, prop string, tag string, i int) *Rng {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d/%s/%s/%d", seed, prop, tag, i)))
	var a, b uint64
	for k := 0; k < 8; k++ {
		a = a<<8 | uint64(h[k])
		b = b<<8 | uint64(h[8+k])
	}
	return newRng(a, b)
}

// Par runs f for shards 0..n-1 on all cores. What a shard does depends only
// on the seed, the tag and its number, never on scheduling.
func (m *M) Par(tag string, n int, f func(w *W, i int)) {
	if m.stop.Load() {
		return
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	k := runtime.NumCPU()
	if k > n {
		k = n
	}
	for g := 0; g < k; g++ {
		wg.Add(1)
		w := &W{m: m, obs: map[string]int64{}}
		m.mu.Lock()
		m.workers = append(m.workers, w)
		m.mu.Unlock()
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1) - 1)
				if i >= n || m.stop.Load() {
					break
				}
				w.rng = shardRand(m.seed, m.p.ID, tag, i)
				w.dedup = true
				w.kept = 0
				f(w, i)
			}
			w.flush()
		}()
	}
	wg.Wait()
}

// Seq runs f on one worker.
func (m *M) Seq(tag string, f func(w *W)) { m.Par(tag, 1, func(w *W, _ int) { f(w) }) }

func (w *W) flush() {
	m := w.m
	m.mu.Lock()
	defer m.mu.Unlock()
	m.evals += w.n
	m.nontrivial += w.ntn
	w.n, w.ntn = 0, 0
	for k, v := range w.obs {
		m.obs[k] += v
	}
	w.obs = map[string]int64{}
	for i, x := range m.workers {
		if x == w {
			m.workers = append(m.workers[:i], m.workers[i+1:]...)
			break
		}
	}
}

// N scales a workload size by tier.
func (m *M) N(quick int, thorough int) int {
	if m.thorough {
		return thorough
	}
	return quick
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// watchdog ends the run when one operation of the code under test uses more
// than opCPU of processor time, is blocked for opBlocked, or the heap grows
// beyond heapLimit while operations are in progress.
const (
	opCPU     = 40 * time.Second
	opBlocked = 150 * time.Second
)

// limit is opCPU for all but huge texts, which take up to a few seconds.
func (c *Case) limit() time.Duration {
	n := 0
	for _, b := range c.S {
		n += len(b)
	}
	if n < 1<<20 {
		return opCPU
	}
	return opCPU + time.Duration(n)*5*time.Microsecond
}

// heapLimit is in bytes; a 32-bit process has less room.
var heapLimit uint64 = 8 << 30 >> (2 * (^uint(0)>>63 ^ 1))

func (m *M) watchdog(report func(c *Case, what string)) {
	type st struct {
		seq   uint64
		cpu   time.Duration
		wall  time.Time
		total time.Duration
	}
	seen := map[*W]*st{}
	last := cpuTime()
	slowLog, slowest := os.Getenv("VERIF_SLOW") != "", time.Second
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(100 * time.Millisecond)
		now := cpuTime()
		d := now - last
		last = now
		m.mu.Lock()
		ws := append([]*W(nil), m.workers...)
		m.mu.Unlock()
		if len(ws) == 0 {
			continue
		}
		metrics.Read(s)
		over := s[0].Value.Uint64() > heapLimit
		for _, w := range ws {
			q := w.seq.Load()
			x := seen[w]
			if x == nil || x.seq != q || q&1 == 0 {
				seen[w] = &st{seq: q, wall: time.Now()}
				continue
			}
			x.cpu += d / time.Duration(len(ws))
			x.total += d
			if slowLog && x.cpu > slowest {
				slowest = x.cpu
				fmt.Fprintf(os.Stderr, "slow: %v of processor time, %v: %v\n", x.cpu, time.Since(x.wall), w.cur.Load())
			}
			switch {
			case x.cpu > w.cur.Load().limit():
				report(w.cur.Load(), fmt.Sprintf("the operation did not end within %v of processor time", w.cur.Load().limit()))
				return
			case over && x.cpu > 300*time.Millisecond:
				report(w.cur.Load(), fmt.Sprintf("the heap grew beyond %d bytes during the operation", heapLimit))
				return
			case time.Since(x.wall) > opBlocked && x.total < opBlocked/20:
				report(w.cur.Load(), fmt.Sprintf("the operation has been blocked, using no processor time, for %v", opBlocked))
				return
			}
		}
	}
}

type result struct {
	Evals      int64            `json:"evals"`
	Nontrivial int64            `json:"nontrivial"`
	Obs        map[string]int64 `json:"obs"`
	Sets       map[string]int   `json:"sets"`
	Samples    []string         `json:"samples"`
	Violations []Violation      `json:"violations"`
	Known      []string         `json:"known"`
	Harness    []string         `json:"harness"`
	Exhaustive bool             `json:"exhaustive"`
	Extra      map[string]any   `json:"extra,omitempty"`
}

func newM(id, tier string, seed uint64) *M {
	return &M{p: props[id], tier: tier, seed: seed, thorough: tier == "thorough",
		obs: map[string]int64{}, sets: map[string]map[string]struct{}{},
		hseed: maphash.MakeSeed(), extra: map[string]any{}}
}

func (m *M) result() *result {
	r := &result{Evals: m.evals, Nontrivial: m.nontrivial, Obs: m.obs, Samples: m.samples,
		Violations: m.violations, Known: m.known, Harness: m.harness, Exhaustive: m.exhaustive,
		Sets: map[string]int{}, Extra: m.extra}
	for k, v := range m.sets {
		r.Sets[k] = len(v)
	}
	return r
}

// childMain runs one property in this process and writes a result file.
func childMain(id, tier string, seed uint64, out string) {
	m := newM(id, tier, seed)
	debug.SetPanicOnFault(false)
	write := func(r *result) {
		j, err := json.Marshal(r)
		if err == nil {
			err = os.WriteFile(out+".tmp", j, 0o644)
		}
		if err == nil {
			err = os.Rename(out+".tmp", out)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "cannot write result:", err)
			os.Exit(3)
		}
	}
	go m.watchdog(func(c *Case, what string) {
		m.mu.Lock()
		r := m.result()
		r.Violations = append(append([]Violation(nil), r.Violations...), Violation{Case: c, What: what})
		write(r)
		os.Exit(0)
	})
	if os.Getenv("VERIF_FUZZ_BIN") != "" {
		m.shapes = shapesOf(id)
	}
	m.p.Drive(m)
	if m.shapes != nil && len(m.violations) == 0 {
		m.writeSeeds(filepath.Join(outDir(), "fuzz-"+id))
	}
	pprof.StopCPUProfile()
	if len(m.violations) == 0 && len(m.harness) == 0 {
		var miss []string
		for k, v := range m.p.Min {
			got := m.obs[k]
			if s, ok := m.sets[k]; ok {
				got = int64(len(s))
			}
			if got < v {
				miss = append(miss, fmt.Sprintf("observed too little: %s=%d, need %d", k, got, v))
			}
		}
		sort.Strings(miss)
		m.harness = append(m.harness, miss...)
		if m.p.Need != nil {
			if s := m.p.Need(m); s != "" {
				m.harness = append(m.harness, s)
			}
		}
	}
	m.mu.Lock()
	write(m.result())
	os.Exit(0)
}

// confirmMain runs one case in this process and writes a result file.
func confirmMain(id, tier string, seed uint64, in, out string) {
	m := newM(id, tier, seed)
	w := &W{m: m, obs: map[string]int64{}, rng: shardRand(seed, id, "replay", 0)}
	m.workers = append(m.workers, w)
	var c Case
	b, err := os.ReadFile(in)
	if err == nil {
		err = json.Unmarshal(b, &c)
	}
	if err != nil {
		os.Exit(3)
	}
	end := func(what string) {
		r := &result{}
		if what != "" {
			r.Violations = []Violation{{Case: &c, What: what}}
		}
		os.WriteFile(out, marshal(r), 0o644)
		os.Exit(0)
	}
	go m.watchdog(func(_ *Case, what string) { end(what) })
	w.cur.Store(&c)
	w.seq.Add(1)
	msg := w.eval(&c)
	w.seq.Add(1)
	end(msg)
}

// --- known findings --------------------------------------------------------

var knownKeys map[string]string

// loadKnown reads lines "finding: property=<id> case=<key> <what fails>".
func loadKnown() {
	knownKeys = map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		var id, key string
		f := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(f) < 3 {
			continue
		}
		id = strings.TrimPrefix(f[0], "property=")
		key = strings.TrimPrefix(f[1], "case=")
		knownKeys[id+"/"+key] = fmt.Sprintf("KNOWN-FINDING: property=%s %s", id, f[2])
	}
}

func isKnown(c *Case) string {
	if len(knownKeys) == 0 {
		return ""
	}
	return knownKeys[c.Prop+"/"+c.key()]
}
