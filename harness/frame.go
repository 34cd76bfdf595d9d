package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand/v2"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unicode"
	"unicode/utf8"
)

// Check is one property's monitor: Case(c) drives the real code with workload
// number c.Idx and reports what the oracle saw.
type Check struct {
	ID          string
	Level       string
	Rule        string
	Quick       int
	Thorough    int
	Workers     int  // 0: one per CPU
	PerProc     int  // cases per worker process, 0: no limit
	Race        bool // run the race-detector build
	External    bool // the worker waits for other processes
	Tools       []string
	CPUSec      float64 // CPU time one case may burn before it counts as a hang
	MemMB       int64   // resident memory a worker may reach
	Case        func(c *C)
	Mins        map[string]int64
	Assumptions []string
}

var checks = map[string]*Check{}

func register(c *Check) {
	if c.CPUSec == 0 {
		c.CPUSec = 60
	}
	if c.MemMB == 0 {
		c.MemMB = 3000
	}
	if c.Level == "" {
		c.Level = "exploration"
	}
	checks[c.ID] = c
}

// peakMB is the largest resident memory seen of a worker.
var peakMB atomic.Int64

// C is the context of one case.
type C struct {
	Idx      int
	Tier     string
	R        *rand.Rand
	counters map[string]int64
	shapes   map[string]bool
	samples  []any
	dir      string
	detail   any
	evals    int
	rot      bool // records get other contents of the same sizes
}

// fork is a C that makes the choices of a seed; with rot the records it
// generates differ from those of the same seed without, and nothing else.
func (c *C) fork(seed uint64, rot bool) *C {
	c.Dir()
	f := *c
	f.R = rand.New(rand.NewPCG(seed, 99))
	f.rot = rot
	return &f
}

type failure struct {
	Msg    string
	Key    string
	Detail any
}

// Failf reports a violation of the property.
func (c *C) Failf(format string, args ...any) {
	panic(&failure{Msg: fmt.Sprintf(format, args...), Detail: c.detail})
}

func (c *C) Detail(d any)             { c.detail = d }
func (c *C) Count(name string, n int) { c.counters[name] += int64(n) }
func (c *C) Shape(parts ...any)       { c.evals++; c.shapes[fmt.Sprint(parts...)] = true }
func (c *C) Sample(v any)             { c.samples = append(c.samples, v) }
func (c *C) Thorough() bool           { return c.Tier == "thorough" }
func (c *C) P(p float64) bool         { return c.R.Float64() < p }
func (c *C) N(n int) int              { return c.R.IntN(n) }

// few returns a small number, and now and then a much larger one.
func (c *C) few(n int) int {
	if c.P(0.03) {
		return c.R.IntN(16 * n)
	}
	return c.R.IntN(n)
}
func (c *C) Between(lo, hi int) int { return lo + c.R.IntN(hi-lo+1) }
func pick[T any](c *C, l []T) T     { return l[c.R.IntN(len(l))] }
func shuffle[T any](c *C, l []T)    { c.R.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] }) }

// Dir is a scratch directory of this case, removed afterwards.
func (c *C) Dir() string {
	if c.dir == "" {
		d, err := os.MkdirTemp("", "uipcheck")
		if err != nil {
			harness("mkdtemp: %v", err)
		}
		c.dir = d
	}
	return c.dir
}

type harnessError struct{ msg string }

// harness aborts with an error of the check itself.
func harness(format string, args ...any) {
	panic(&harnessError{fmt.Sprintf(format, args...)})
}

type result struct {
	Idx      int              `json:"idx"`
	Viol     string           `json:"viol,omitempty"`
	Key      string           `json:"key,omitempty"`
	Detail   any              `json:"detail,omitempty"`
	Err      string           `json:"err,omitempty"`
	Counters map[string]int64 `json:"c,omitempty"`
	Shapes   []string         `json:"s,omitempty"`
	Samples  []any            `json:"m,omitempty"`
	Evals    int              `json:"e,omitempty"`
}

const uipPath = "github.com/qiniu/uip/"

func runCase(ck *Check, tier string, seed int64, idx int) (res result) {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", ck.ID, seed, idx)
	c := &C{Idx: idx, Tier: tier, R: rand.New(rand.NewPCG(h.Sum64(), uint64(idx))),
		counters: map[string]int64{}, shapes: map[string]bool{}}
	defer func() {
		if c.dir != "" {
			os.RemoveAll(c.dir)
		}
	}()
	defer func() {
		res.Idx = idx
		res.Counters = c.counters
		res.Evals = c.evals
		for s := range c.shapes {
			hh := fnv.New64a()
			hh.Write([]byte(s))
			res.Shapes = append(res.Shapes, strconv.FormatUint(hh.Sum64(), 36))
		}
		res.Samples = c.samples
		if v := recover(); v != nil {
			switch f := v.(type) {
			case *failure:
				res.Viol, res.Key, res.Detail = f.Msg, f.Key, f.Detail
			case *harnessError:
				res.Err = f.msg
			default:
				st := string(debug.Stack())
				if panicInUip(st) {
					res.Viol = fmt.Sprintf("panic in the library: %v\n%s", v, clip(st, 3000))
					res.Key = "panic"
					res.Detail = c.detail
				} else {
					res.Err = fmt.Sprintf("harness panic: %v\n%s", v, st)
				}
			}
		}
	}()
	ck.Case(c)
	return
}

// panicInUip says whether the code that panicked was called from qiniu/uip:
// a frame of the module lies between the panic and the harness.
func panicInUip(stack string) bool {
	i := strings.LastIndex(stack, "panic(")
	if i < 0 {
		i = 0
	}
	for _, line := range strings.Split(stack[i:], "\n") {
		if strings.HasPrefix(line, uipPath) {
			return true
		}
		if strings.HasPrefix(line, "main.") {
			return false
		}
	}
	return false
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// printable keeps control characters out of the output.
func printable(s string) string {
	return strings.Map(func(r rune) rune {
		if r < ' ' && r != '\n' && r != '\t' || r == 0x7f || r == utf8.RuneError || r >= 0x80 && !unicode.IsPrint(r) {
			return '?'
		}
		return r
	}, s)
}

func worker(ck *Check, tier string, seed int64) {
	// far from UTC: a date must not depend on where it is read
	time.Local = time.FixedZone("far east", 13*3600)
	log.SetOutput(io.Discard)
	out := os.NewFile(3, "results")
	w := bufio.NewWriter(out)
	enc := json.NewEncoder(w)
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		idx, err := strconv.Atoi(in.Text())
		if err != nil {
			break
		}
		res := runCase(ck, tier, seed, idx)
		if err := enc.Encode(res); err != nil {
			enc.Encode(result{Idx: idx, Err: "encode: " + err.Error()})
		}
		w.Flush()
	}
	closeDrivers()
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<17 {
		// keep the first part: reports start with the reason
		t.b = t.b[:1<<17]
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

type stats struct {
	mu       sync.Mutex
	cases    int64
	evals    int64
	counters map[string]int64
	shapes   map[string]bool
	samples  []any
	viols    []result
	errs     []string
	known    map[string]int
	stop     bool
	violated func()
}

func (s *stats) add(ck *Check, res result) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.cases++
	s.evals += int64(res.Evals)
	for k, v := range res.Counters {
		if strings.HasPrefix(k, "max_") {
			if v > s.counters[k] {
				s.counters[k] = v
			}
		} else {
			s.counters[k] += v
		}
	}
	for _, k := range res.Shapes {
		s.shapes[k] = true
	}
	for _, m := range res.Samples {
		if len(s.samples) < 6 {
			s.samples = append(s.samples, m)
		}
	}
	if res.Err != "" {
		s.errs = append(s.errs, fmt.Sprintf("case %d: %s", res.Idx, res.Err))
		s.stop = true
	}
	if res.Viol != "" {
		if k := knownFinding(ck.ID, res.Viol); k != "" {
			s.known[k]++
			return
		}
		s.viols = append(s.viols, res)
		if len(s.viols) == 1 && s.violated != nil {
			s.violated()
		}
		if len(s.viols) >= 3 {
			s.stop = true
		}
	}
}

// knownFinding looks a violation up in the committed list; lines read
// "known: property=<id> match=<substring of the message> :: <what fails>".
func knownFinding(id, msg string) string {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return ""
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+id+" match=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+id+" match=")
		parts := strings.SplitN(rest, " :: ", 2)
		if len(parts) == 2 && parts[0] != "" && strings.Contains(msg, parts[0]) {
			return parts[1]
		}
	}
	return ""
}

func procCPU(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	i := bytes.LastIndexByte(b, ')')
	if i < 0 {
		return 0
	}
	f := strings.Fields(string(b[i+1:]))
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	k, _ := strconv.ParseFloat(f[12], 64)
	return (u + k) / 100
}

func procRSSMB(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	p, _ := strconv.ParseInt(f[1], 10, 64)
	return p * int64(os.Getpagesize()) >> 20
}

var verifDir = "/verif"

func parent(ck *Check, tier string, seed int64, only []int) int {
	start := time.Now()
	n := ck.Quick
	if tier == "thorough" {
		n = ck.Thorough
	}
	nw := ck.Workers
	if nw == 0 {
		nw = runtime.NumCPU()
	}
	if only != nil {
		nw = 1
		n = len(only)
	}
	if nw > n {
		nw = n
	}
	st := &stats{counters: map[string]int64{}, shapes: map[string]bool{}, known: map[string]int{}}
	jobs := make(chan int)
	go func() {
		defer close(jobs)
		for i := 0; i < n; i++ {
			st.mu.Lock()
			stop := st.stop
			st.mu.Unlock()
			if stop {
				return
			}
			if only != nil {
				jobs <- only[i]
			} else {
				jobs <- i
			}
		}
	}()
	var pids sync.Map
	killAll := func() {
		pids.Range(func(k, v any) bool {
			syscall.Kill(-k.(int), syscall.SIGKILL)
			return true
		})
	}
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGTERM, syscall.SIGINT)
	go func() {
		<-sig
		killAll()
		os.Exit(3)
	}()
	limit := 840 * time.Second
	if tier == "thorough" {
		limit = 6 * time.Hour
	}
	timedOut := time.AfterFunc(limit, func() {
		st.mu.Lock()
		if len(st.viols) > 0 {
			killAll()
			os.Exit(report(ck, tier, seed, only, st, start))
		}
		fmt.Println("watchdog: the run did not finish, inconclusive")
		killAll()
		os.Exit(3)
	})
	defer timedOut.Stop()
	// a broken tree may be slow: one violation is an answer
	st.violated = func() {
		if tier != "thorough" {
			time.AfterFunc(time.Minute, func() {
				st.mu.Lock()
				killAll()
				os.Exit(report(ck, tier, seed, only, st, start))
			})
		}
	}

	var wg sync.WaitGroup
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			runWorker(ck, tier, seed, jobs, st, &pids)
		}()
	}
	wg.Wait()
	killAll()
	st.mu.Lock()
	return report(ck, tier, seed, only, st, start)
}

// report tells the outcome; st is locked.
func report(ck *Check, tier string, seed int64, only []int, st *stats, start time.Time) int {
	sort.Slice(st.viols, func(i, j int) bool { return st.viols[i].Idx < st.viols[j].Idx })
	code := 0
	for k, cnt := range st.known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d cases)\n", ck.ID, k, cnt)
	}
	if len(st.viols) > 0 {
		code = 1
		os.MkdirAll(filepath.Join(verifDir, "out"), 0o755)
		for _, v := range st.viols {
			p := filepath.Join(verifDir, "out", fmt.Sprintf("%s-%d.json", ck.ID, v.Idx))
			b, _ := json.MarshalIndent(map[string]any{"property": ck.ID, "tier": tier, "seed": seed, "index": v.Idx,
				"message": v.Viol, "detail": v.Detail, "replay": fmt.Sprintf("./check.sh %s --replay %s", ck.ID, p)}, "", " ")
			os.WriteFile(p, b, 0o644)
			fmt.Printf("case %d: %s\n", v.Idx, printable(clip(v.Viol, 2500)))
			fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, p)
		}
	} else if len(st.errs) > 0 {
		code = 3
	}
	for _, e := range st.errs {
		fmt.Println("ERROR of the check:", printable(clip(e, 4000)))
	}
	if code == 0 && only == nil {
		for k, m := range ck.Mins {
			if st.counters[k] < m {
				fmt.Printf("ERROR of the check: monitor %q saw only %d events, expected at least %d\n", k, st.counters[k], m)
				code = 3
			}
		}
	}
	st.counters["max_resident_mb"] = peakMB.Load()
	if only == nil {
		writeEvidence(ck, tier, seed, st, time.Since(start).Seconds())
	}
	fmt.Printf("%s %s seed=%d cases=%d evaluations=%d distinct=%d violations=%d wall=%.1fs", ck.ID, tier, seed, st.cases, st.evals, len(st.shapes), len(st.viols), time.Since(start).Seconds())
	for _, k := range sortedKeys(st.counters) {
		fmt.Printf(" %s=%d", k, st.counters[k])
	}
	fmt.Println()
	return code
}

func sortedKeys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func writeEvidence(ck *Check, tier string, seed int64, st *stats, wall float64) {
	cov := map[string]any{
		"evaluations":         st.evals,
		"cases":               st.cases,
		"distinct_nontrivial": len(st.shapes),
		"rule":                ck.Rule,
		"samples":             st.samples,
		"monitor_events":      st.counters,
	}
	ev := map[string]any{
		"property": ck.ID, "tier": tier, "seed": seed, "level": ck.Level,
		"coverage": cov, "assumptions": ck.Assumptions, "wall_s": wall, "violations": len(st.viols),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir, "evidence", ck.ID+".json"), append(b, '\n'), 0o644)
}

func runWorker(ck *Check, tier string, seed int64, jobs <-chan int, st *stats, pids *sync.Map) {
	for {
		first, ok := <-jobs
		if !ok {
			return
		}
		if !oneWorker(ck, tier, seed, first, jobs, st, pids) {
			return
		}
	}
}

// oneWorker runs a worker process until it dies (true) or the jobs are done (false).
func oneWorker(ck *Check, tier string, seed int64, first int, jobs <-chan int, st *stats, pids *sync.Map) bool {
	pr, pw, err := os.Pipe()
	if err != nil {
		st.add(ck, result{Idx: first, Err: err.Error()})
		return false
	}
	cmd := exec.Command(os.Args[0], "-worker", ck.ID, tier, strconv.FormatInt(seed, 10))
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	stdin, _ := cmd.StdinPipe()
	errTail := &tail{}
	cmd.Stderr = errTail
	cmd.Stdout = io.Discard
	cmd.ExtraFiles = []*os.File{pw}
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=3", "GOTRACEBACK=single")
	if !ck.Race {
		cmd.Env = append(cmd.Env, "GOMAXPROCS=2")
	}
	if err := cmd.Start(); err != nil {
		st.add(ck, result{Idx: first, Err: err.Error()})
		return false
	}
	pw.Close()
	pid := cmd.Process.Pid
	pids.Store(pid, true)
	defer pids.Delete(pid)
	results := make(chan result)
	go func() {
		dec := json.NewDecoder(bufio.NewReader(pr))
		for {
			var r result
			if dec.Decode(&r) != nil {
				close(results)
				return
			}
			results <- r
		}
	}()
	idx := first
	done := 0
	for {
		fmt.Fprintf(stdin, "%d\n", idx)
		cpu0 := procCPU(pid)
		tick := time.NewTicker(100 * time.Millisecond)
		lastCPU, lastMove := cpu0, time.Now()
		var reason string
		var res result
		var alive bool
	wait:
		for {
			select {
			case res, alive = <-results:
				break wait
			case <-tick.C:
				rss := procRSSMB(pid)
				if old := peakMB.Load(); rss > old {
					peakMB.CompareAndSwap(old, rss)
				}
				if rss > ck.MemMB && reason == "" {
					reason = fmt.Sprintf("memory blow-up: %d MB resident for one small case", rss)
					syscall.Kill(-pid, syscall.SIGKILL)
				}
				now := procCPU(pid)
				if cpu := now - cpu0; cpu > ck.CPUSec && reason == "" {
					reason = fmt.Sprintf("hang: one small case burned %.0f s of CPU", cpu)
					syscall.Kill(-pid, syscall.SIGKILL)
				}
				if now > lastCPU+0.05 {
					lastCPU, lastMove = now, time.Now()
				} else if time.Since(lastMove) > 3*time.Minute && !ck.External && reason == "" {
					reason = "deadlock: one small case made no progress for three minutes"
					syscall.Kill(-pid, syscall.SIGKILL)
				}
			}
		}
		tick.Stop()
		if !alive {
			werr := cmd.Wait()
			pr.Close()
			text := errTail.String()
			if reason == "" && strings.Contains(text, uipPath) &&
				(strings.Contains(text, "DATA RACE") || strings.Contains(text, "fatal error") || strings.Contains(text, "panic:") ||
					strings.Contains(text, "runtime error") || strings.Contains(text, "goroutine ")) {
				reason = "the process died: " + clip(text, 3000)
			}
			if reason != "" {
				st.add(ck, result{Idx: idx, Viol: reason})
			} else {
				st.add(ck, result{Idx: idx, Err: fmt.Sprintf("worker died: %v\n%s", werr, clip(text, 3000))})
			}
			return true
		}
		st.add(ck, res)
		done++
		stop := func() {
			stdin.Close()
			for range results {
			}
			cmd.Wait()
			pr.Close()
		}
		if ck.PerProc > 0 && done >= ck.PerProc {
			stop()
			return true
		}
		next, ok := <-jobs
		if !ok {
			stop()
			return false
		}
		idx = next
	}
}

func main() {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	args := os.Args[1:]
	if len(args) >= 4 && args[0] == "-worker" {
		seed, _ := strconv.ParseInt(args[3], 10, 64)
		worker(checks[args[1]], args[2], seed)
		return
	}
	if len(args) == 1 && args[0] == "-list" {
		for _, k := range sortedKeys(checks) {
			fmt.Println(k)
		}
		return
	}
	if len(args) < 1 || checks[args[0]] == nil {
		fmt.Println("usage: uipcheck ID [--replay FILE | --index N]")
		os.Exit(3)
	}
	ck := checks[args[0]]
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	var only []int
	if len(args) == 3 && args[1] == "--replay" {
		var r struct {
			Seed  int64
			Tier  string
			Index int
		}
		b, err := os.ReadFile(args[2])
		if err == nil {
			err = json.Unmarshal(b, &r)
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		seed, tier, only = r.Seed, r.Tier, []int{r.Index}
	} else if len(args) == 3 && args[1] == "--index" {
		i, _ := strconv.Atoi(args[2])
		only = []int{i}
	} else if len(args) == 3 && args[1] == "--cases" {
		ck.Quick, _ = strconv.Atoi(args[2])
		ck.Mins = nil
	}
	os.Exit(parent(ck, tier, seed, only))
}

func sortInts(l []int) { sort.Ints(l) }
