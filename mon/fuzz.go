package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// The coverage-guided phase. After the generated workload has passed, libFuzzer
// drives the same monitors in a build whose packages under test (not the
// harness) are instrumented: it starts from cases the generators made and
// prefers inputs that reach something new. It only chooses inputs; the verdict
// is the monitor's.

// shape says how bytes become a case of a kind.
type shape struct {
	kind string
	r    [][2]int64 // bounds [lo, hi) of the numbers, {} for any 32 bits
	s    int        // texts: a number, several for any number, asRunes for more numbers
}

const (
	several = -1
	asRunes = -2
)

var textSep = []byte("\xff\xfe\xfd")

var any32 = [2]int64{}

func upTo(n int) [2]int64 { return [2]int64{0, int64(n)} }

func shapesOf(id string) []shape {
	switch id {
	case "C01":
		return []shape{{"seqsplit", nil, asRunes}}
	case "C02":
		return []shape{{"join", [][2]int64{any32, any32, any32}, 0}}
	case "C03":
		return []shape{{"seqcls", nil, asRunes}}
	case "C04":
		return []shape{{"seqconv", nil, asRunes}}
	case "C05":
		return []shape{{"seqmulti", nil, asRunes}, {"mutate", nil, asRunes}}
	case "C06":
		return []shape{{"seqstroke", nil, asRunes}}
	case "C07":
		return []shape{{"word", nil, 1}, {"words", nil, several}}
	case "C08":
		return []shape{{"post", nil, 3}, {"posts", nil, several}}
	case "C09":
		return []shape{{"dec", nil, 1}, {"related", nil, several}}
	case "C10":
		return []shape{{"enc", nil, 1}, {"related", nil, several}}
	case "C11":
		r := [][2]int64{upTo(nVia), upTo(nVia), any32}
		return []shape{{"utf8", r, 1}, {"cp949", r, 1}}
	case "C12":
		return []shape{{"text", [][2]int64{any32}, 1}, {"related", nil, several}}
	case "C13":
		return []shape{{"random", [][2]int64{any32}, 1}, {"several", [][2]int64{any32}, several},
			{"library", [][2]int64{any32, upTo(len(libSources)), upTo(len(libReads))}, 1}}
	case "C14":
		return []shape{{"fault", [][2]int64{any32, upTo(4)}, 1}}
	case "C15":
		return []shape{{"random", [][2]int64{any32}, 1}, {"several", [][2]int64{any32}, several},
			{"library", [][2]int64{any32, upTo(len(libSinks)), upTo(len(libWrites))}, 1}}
	case "C16":
		return []shape{{"random", [][2]int64{any32, upTo(2)}, 1}}
	case "C17":
		return []shape{{"direct", [][2]int64{any32, upTo(2)}, 1},
			{"high", [][2]int64{any32, upTo(2), {2, nVia}, upTo(2)}, several}}
	case "C18":
		return []shape{{"text", nil, 1}, {"related", nil, several}, {"seqis", nil, asRunes}}
	case "C19":
		return []shape{{"text", nil, 1}, {"related", nil, several}}
	case "C21":
		return []shape{{"bytes", [][2]int64{upTo(4), any32}, 1}, {"strings", [][2]int64{upTo(2)}, 1}, {"strings", [][2]int64{{2, 3}}, 3},
			{"writer", [][2]int64{any32, upTo(2), upTo(2)}, 1}, {"reader", [][2]int64{any32, upTo(2)}, 1}, {"transform", [][2]int64{any32, upTo(2)}, 1}, {"another", [][2]int64{any32, upTo(3)}, several}, {"ends", [][2]int64{any32, upTo(3), upTo(2)}, 1}}
	case "C23":
		return []shape{{"text", nil, 1}, {"runes", nil, asRunes}, {"stalled", [][2]int64{upTo(5000)}, 1},
			{"reader", [][2]int64{any32}, 1}, {"writer", [][2]int64{any32}, 1}, {"transform", [][2]int64{any32}, 1}}
	}
	return nil
}

// fuzzCase makes a case of any bytes.
func fuzzCase(id string, sh []shape, b []byte) *Case {
	if len(b) == 0 {
		return nil
	}
	s := &sh[int(b[0])%len(sh)]
	b = b[1:]
	c := &Case{Prop: id, Kind: s.kind}
	num := func() uint32 {
		var x [4]byte
		n := copy(x[:], b)
		b = b[n:]
		return binary.LittleEndian.Uint32(x[:])
	}
	for _, lim := range s.r {
		v := num()
		if lim == any32 {
			c.R = append(c.R, int64(int32(v)))
			if s.kind != "join" { // seeds are unsigned
				c.R[len(c.R)-1] = int64(v)
			}
		} else {
			c.R = append(c.R, lim[0]+int64(v)%(lim[1]-lim[0]))
		}
	}
	switch s.s {
	case asRunes:
		for len(b) > 0 && len(c.R) < 200 {
			c.R = append(c.R, int64(int32(num())))
		}
	case several:
		c.S = bytes.SplitN(b, textSep, 24)
	case 0:
	default:
		c.S = bytes.SplitN(b, textSep, s.s)
		for len(c.S) < s.s {
			c.S = append(c.S, nil)
		}
	}
	for i := range c.S { // no text may reach into the next
		c.S[i] = append([]byte(nil), c.S[i]...)
	}
	return c
}

// fuzzBytes is its inverse, for cases that have a shape.
func fuzzBytes(sh []shape, c *Case) []byte {
next:
	for i, s := range sh {
		if s.kind != c.Kind || len(c.R) < len(s.r) || s.s != asRunes && len(c.R) != len(s.r) || s.s >= 0 && len(c.S) != s.s {
			continue
		}
		b := []byte{byte(i)}
		for k, v := range c.R {
			if k < len(s.r) && s.r[k] != any32 {
				if v < s.r[k][0] || v >= s.r[k][1] {
					continue next
				}
				v -= s.r[k][0]
			}
			b = binary.LittleEndian.AppendUint32(b, uint32(v))
		}
		return append(b, bytes.Join(c.S, textSep)...)
	}
	return nil
}

// keep remembers small cases of the workload as seeds.
func (w *W) keep(c *Case) {
	m := w.m
	if w.kept >= 4 || m.shapes == nil {
		return
	}
	n := 0
	for _, s := range c.S {
		n += len(s)
	}
	if n > 400 || len(c.R) > 40 {
		return
	}
	b := fuzzBytes(m.shapes, c)
	if b == nil {
		return
	}
	w.kept++
	m.mu.Lock()
	if len(m.seeds) < 4000 {
		m.seeds = append(m.seeds, b)
	}
	m.mu.Unlock()
}

// writeSeeds leaves the seeds and the dictionary for libFuzzer.
func (m *M) writeSeeds(dir string) {
	os.RemoveAll(dir)
	if os.MkdirAll(filepath.Join(dir, "seeds"), 0o755) != nil {
		return
	}
	// Workers differ in speed: which cases came first is no matter, how many
	// is limited.
	for i, b := range m.seeds {
		if len(m.seeds) > 800 && i%(len(m.seeds)/800+1) != 0 {
			continue
		}
		os.WriteFile(filepath.Join(dir, "seeds", strconv.Itoa(i)), b, 0o644)
	}
	var d bytes.Buffer
	word := func(b []byte) {
		d.WriteByte('"')
		for _, x := range b {
			fmt.Fprintf(&d, "\\x%02x", x)
		}
		d.WriteString("\"\n")
	}
	word(textSep)
	for _, s := range dic().strs {
		word([]byte(s))
	}
	for _, r := range dic().runes {
		word([]byte(string(r)))
		if c := cp().enc; r < 0x10000 && c[r] != 0 {
			word([]byte{byte(c[r] >> 8), byte(c[r])})
		}
	}
	r := newRng(m.seed, 0xd1c)
	for _, p := range dic().seqs {
		if len(p) <= 6 {
			word(r.saying(p, r.IntN(2) == 0))
		}
	}
	for _, v := range dic().ints {
		word(binary.LittleEndian.AppendUint32(nil, uint32(v)))
	}
	os.WriteFile(filepath.Join(dir, "dict"), d.Bytes(), 0o644)
}

// --- in the instrumented process -------------------------------------------------

// fuzzer is the state of an instrumented process.
type fuzzer struct {
	id    string
	sh    []shape
	w     *W
	dir   string
	tag   string
	cur   []byte // shared with the parent: length and bytes of the input at work
	execs int64
	nt    int64
	last  time.Time
}

const curSize = 1 << 16

func newFuzzer() *fuzzer {
	f := &fuzzer{id: os.Getenv("VERIF_FUZZ_ID"), dir: os.Getenv("VERIF_FUZZ_DIR"), tag: os.Getenv("VERIF_FUZZ_TAG")}
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	loadKnown()
	f.sh = shapesOf(f.id)
	if props[f.id] == nil || f.sh == nil {
		fmt.Fprintln(os.Stderr, "no property to fuzz")
		os.Exit(3)
	}
	seed := envSeed()
	m := newM(f.id, envTier(), seed)
	f.w = &W{m: m, obs: map[string]int64{}, rng: shardRand(seed, f.id, "fuzz/"+f.tag, 0), dedup: true}
	m.workers = append(m.workers, f.w)
	go m.watchdog(func(c *Case, what string) {
		f.report("hang", Violation{Case: c, What: what})
		os.Exit(72)
	})
	file, err := os.OpenFile(filepath.Join(f.dir, "cur-"+f.tag), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
	if err == nil {
		err = file.Truncate(curSize)
	}
	if err == nil {
		f.cur, err = syscall.Mmap(int(file.Fd()), 0, curSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	file.Close()
	return f
}

func (f *fuzzer) report(kind string, v Violation) {
	name := filepath.Join(f.dir, kind+"-"+f.tag)
	if os.WriteFile(name+".tmp", marshal(v), 0o644) == nil {
		os.Rename(name+".tmp", name)
	}
}

type fuzzStats struct {
	Execs, Nontrivial int64
}

func (f *fuzzer) one(b []byte) {
	if len(b) > curSize-8 {
		return
	}
	binary.LittleEndian.PutUint32(f.cur, uint32(len(b)))
	copy(f.cur[4:], b)
	c := fuzzCase(f.id, f.sh, b)
	if c == nil {
		return
	}
	w := f.w
	w.nt = false
	nt := w.ntn
	w.cur.Store(c)
	w.seq.Add(1)
	msg := w.eval(c)
	w.seq.Add(1)
	f.execs++
	if w.ntn > nt || w.nt && w.m.first(c) { // sequences count their members
		f.nt++
	}
	if len(w.m.harness) > 0 {
		fmt.Fprintln(os.Stderr, "HARNESS:", w.m.harness[0])
		os.Exit(70)
	}
	if msg != "" && isKnown(c) == "" {
		v := Violation{Case: c.clone(), What: msg}
		f.report("violation", v)
		w.seq.Add(1)
		v.Shrunk, v.SWhat = shrink(w, c, msg)
		w.seq.Add(1)
		f.report("violation", v)
		os.Exit(71)
	}
	if f.execs&255 == 0 && time.Since(f.last) > time.Second {
		f.last = time.Now()
		name := filepath.Join(f.dir, "stats-"+f.tag)
		if os.WriteFile(name+".tmp", marshal(fuzzStats{f.execs, f.nt}), 0o644) == nil {
			os.Rename(name+".tmp", name)
		}
	}
}

// --- in the parent ----------------------------------------------------------------

var covLine = regexp.MustCompile(`cov: (\d+) ft: (\d+) corp: (\d+)`)
var counters = regexp.MustCompile(`\((\d+) inline 8-bit counters\)`)

// fuzzPhase adds the coverage-guided phase to a run that has found nothing.
func fuzzPhase(id, tier string, seed uint64, r *result) {
	bin := os.Getenv("VERIF_FUZZ_BIN")
	if bin == "" || shapesOf(id) == nil {
		return
	}
	dir := filepath.Join(outDir(), "fuzz-"+id)
	info := map[string]any{}
	r.Extra["coverage_guided"] = info
	if !waitBuilt(bin + ".rc") {
		info["not run"] = "the instrumented build failed"
		return
	}
	k, secs := min(8, runtime.NumCPU()), 12
	if tier == "thorough" {
		secs = 300
	}
	corpus := filepath.Join(dir, "corpus")
	os.MkdirAll(corpus, 0o755)
	type end struct {
		code int
		log  string
	}
	ends := make([]end, k)
	var wg sync.WaitGroup
	for i := 0; i < k; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			maxLen := 600
			if i%4 == 3 {
				maxLen = 6000
			}
			cmd := exec.Command(bin, corpus, filepath.Join(dir, "seeds"),
				"-dict="+filepath.Join(dir, "dict"), "-seed="+strconv.FormatUint(1+(seed*31+uint64(i))%1000000007, 10),
				"-max_total_time="+strconv.Itoa(secs), "-max_len="+strconv.Itoa(maxLen), "-use_value_profile="+strconv.Itoa(i%2),
				"-reload=1", "-timeout=0", "-rss_limit_mb=0", "-malloc_limit_mb=0", "-artifact_prefix="+dir+"/", "-print_final_stats=1",
				"-handle_abrt=0", "-handle_bus=0", "-handle_fpe=0", "-handle_ill=0", "-handle_segv=0", "-handle_xfsz=0",
				"-handle_term=0", "-handle_int=0", "-handle_usr1=0", "-handle_usr2=0", "-detect_leaks=0")
			cmd.Env = append(os.Environ(), "VERIF_FUZZ_ID="+id, "VERIF_FUZZ_DIR="+dir, "VERIF_FUZZ_TAG="+strconv.Itoa(i), "GOTRACEBACK=all", "GOMAXPROCS=2")
			var log bytes.Buffer
			cmd.Stdout, cmd.Stderr = &log, &log
			err := cmd.Start()
			if err == nil {
				t := time.AfterFunc(time.Duration(secs+150)*time.Second, func() { cmd.Process.Kill() })
				err = cmd.Wait()
				t.Stop()
			}
			e := end{log: log.String()}
			var x *exec.ExitError
			if errors.As(err, &x) {
				e.code = x.ExitCode()
			} else if err != nil {
				e.code, e.log = -2, err.Error()
			}
			ends[i] = e
		}()
	}
	wg.Wait()
	var execs, nt int64
	cov, ft, corp, total, early := 0, 0, 0, 0, 0
	for i, e := range ends {
		tag := strconv.Itoa(i)
		var st fuzzStats
		if b, err := os.ReadFile(filepath.Join(dir, "stats-"+tag)); err == nil && json.Unmarshal(b, &st) == nil {
			execs += st.Execs
			nt += st.Nontrivial
		}
		if l := covLine.FindAllStringSubmatch(e.log, -1); len(l) > 0 {
			x := l[len(l)-1]
			for j, p := range []*int{&cov, &ft, &corp} {
				v, _ := strconv.Atoi(x[j+1])
				*p = max(*p, v)
			}
		}
		if x := counters.FindStringSubmatch(e.log); x != nil {
			total, _ = strconv.Atoi(x[1])
		}
		var v Violation
		readV := func(kind string) bool {
			b, err := os.ReadFile(filepath.Join(dir, kind+"-"+tag))
			return err == nil && json.Unmarshal(b, &v) == nil && v.Case != nil
		}
		switch {
		case e.code == 0:
		case e.code == 70:
			r.Harness = append(r.Harness, clipLog(e.log))
		case id != "C21" && id != "C23" && readV("violation"):
			r.Violations = append(r.Violations, v)
		case readV("hang") || readV("violation"): // memory and time: judged by the ordinary build
			if len(r.Violations) > 0 {
				break // one is enough, and each may take long
			}
			if what := confirm(id, tier, seed, v.Case); what != "" {
				v.What = what
				r.Violations = append(r.Violations, v)
			} else {
				early++
			}
		case crashedUnder(e.log):
			v := Violation{Case: &Case{Prop: id, Kind: "coverage-guided"}, What: "the process was ended by the Go runtime:\n" + clipLog(tailFrom(e.log))}
			if b, err := os.ReadFile(filepath.Join(dir, "cur-"+tag)); err == nil && len(b) == curSize {
				if n := int(binary.LittleEndian.Uint32(b)); n <= curSize-8 {
					if c := fuzzCase(id, shapesOf(id), b[4:4+n]); c != nil {
						v.Case = c
					}
				}
			}
			r.Violations = append(r.Violations, v)
		default:
			early++
			info["ended early"] = fmt.Sprintf("%d processes; status %d: %s", early, e.code, clipS(tailOf(e.log)))
		}
	}
	if len(r.Violations) > 4 {
		r.Violations = r.Violations[:4]
	}
	r.Evals += execs
	r.Nontrivial += nt
	info["executions"], info["non-trivial, distinct within a process"] = execs, nt
	info["blocks reached"], info["blocks instrumented"] = cov, total
	info["features"], info["corpus"] = ft, corp
	info["processes"], info["seconds"] = k, secs
	if len(r.Violations) == 0 {
		os.RemoveAll(dir)
	}
}

func tailOf(s string) string { return s[max(0, len(s)-500):] }

func tailFrom(s string) string {
	for _, m := range []string{"fatal error:", "panic:", "SIGSEGV"} {
		if i := strings.Index(s, m); i >= 0 {
			return s[i:]
		}
	}
	return s
}

func waitBuilt(rc string) bool {
	for i := 0; i < 3000; i++ {
		if b, err := os.ReadFile(rc); err == nil && len(b) > 0 {
			return strings.TrimSpace(string(b)) == "0"
		}
		time.Sleep(100 * time.Millisecond)
	}
	return false
}

// confirm runs one case in an ordinary process of its own; it returns what the
// monitors saw there.
func confirm(id, tier string, seed uint64, c *Case) string {
	dir := filepath.Join(outDir(), "fuzz-"+id)
	in, out := filepath.Join(dir, "confirm.json"), filepath.Join(dir, "confirmed.json")
	os.Remove(out)
	os.WriteFile(in, marshal(c), 0o644)
	self, _ := os.Executable()
	_, log, _ := run([]string{"GOTRACEBACK=all"}, self, "confirm", id, tier, strconv.FormatUint(seed, 10), in, out)
	var r result
	b, err := os.ReadFile(out)
	if err == nil {
		err = json.Unmarshal(b, &r)
	}
	switch {
	case err != nil && crashedUnder(log):
		return "the process was ended by the Go runtime:\n" + clipLog(log)
	case err != nil || len(r.Violations) == 0:
		return ""
	}
	return r.Violations[0].What
}
