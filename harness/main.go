// Command icsverif runs the real ics package under generated, hostile and
// faulty workloads, with monitors that judge everything that can be observed of
// it.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

const shards = 8

// zones are the settings of the local time zone that shards run with.
var zones = [shards]string{"UTC", "America/New_York", "Asia/Kolkata", "Europe/London", "Pacific/Apia", "Australia/Lord_Howe", "America/St_Johns", "Asia/Tokyo"}

// check decides one property.
type check struct {
	id       string
	level    string
	rule     string
	quick    int // number of cases
	thorough int
	run      func(w *work)
	probes   []probe
	race     bool

	perProcess int // number of cases of a process, where that matters
}

// probe is an input for which the property is known not to hold.
type probe struct {
	id, what string
	run      func() string // describes the failure, or gives ""
}

var checks = map[string]*check{}

func register(c *check) { checks[c.id] = c }

// work is the state of a worker.
type work struct {
	check *check
	tier  string
	seed  uint64
	idx   int
	n     int
	r     *rand.Rand
	g     *gen

	evals    int64
	counts   map[string]int64
	hashes   map[uint64]struct{}
	samples  []string
	attached []attachment
}

type attachment struct {
	name string
	data string
}

type violation struct {
	Idx     int               `json:"case"`
	Message string            `json:"message"`
	Data    map[string]string `json:"data,omitempty"`
}

type failure struct{ msg string }

// fail ends the case with a violation.
func (w *work) fail(format string, a ...any) {
	panic(failure{fmt.Sprintf(format, a...)})
}

// attach keeps something for the replay file, in case of a violation.
func (w *work) attach(name string, data []byte) {
	for i := range w.attached {
		if w.attached[i].name == name {
			w.attached[i].data = string(data)

			return
		}
	}

	w.attached = append(w.attached, attachment{name, string(data)})
}

// count counts something that a monitor observed.
func (w *work) count(what string, n int) { w.counts[what] += int64(n) }

// eval counts one judgement of an execution; nontrivial ones are given by a key
// that distinguishes them.
func (w *work) eval(key string) {
	w.evals++

	if key != "" {
		h := fnv.New64a()
		h.Write([]byte(key))
		w.hashes[h.Sum64()] = struct{}{}
	}
}

func (w *work) sample(s string) {
	if len(w.samples) < 2 {
		w.samples = append(w.samples, clip(s, 700))
	}
}

func caseRand(seed uint64, id string, idx int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, id, idx)
	a := h.Sum64()
	fmt.Fprintf(h, "x")

	return rand.New(rand.NewPCG(a, h.Sum64()))
}

// one runs a single case.
func (w *work) one(idx int) (v *violation) {
	w.idx = idx
	w.r = caseRand(w.seed, w.check.id, idx)
	w.g = newGen(w.r)
	w.attached = w.attached[:0]

	defer func() {
		e := recover()
		if e == nil {
			return
		}

		v = &violation{Idx: idx, Data: map[string]string{}}

		switch e := e.(type) {
		case failure:
			v.Message = e.msg
		default:
			s := fmt.Sprint(e)

			if strings.HasPrefix(s, "harness: ") {
				panic(e)
			}

			v.Message = "panic: " + s
			v.Data["stack"] = clip(string(debug.Stack()), 6000)
		}

		for _, a := range w.attached {
			if len(a.data) > 1<<20 {
				v.Data[a.name] = strconv.Quote(clip(a.data, 1<<16))
			} else {
				v.Data[a.name] = strconv.Quote(a.data)
			}
		}
	}()

	w.check.run(w)

	return nil
}

type workerResult struct {
	Cases      int              `json:"cases"`
	Evals      int64            `json:"evals"`
	Counts     map[string]int64 `json:"counts"`
	Samples    []string         `json:"samples"`
	Violations []violation      `json:"violations"`
	Done       bool             `json:"done"`
}

const maxViolations = 5

// worker runs the cases of a shard.
func worker(args []string) error {
	id, tier := args[0], args[1]

	useConstants(tier)

	seed, err := strconv.ParseUint(args[2], 10, 64)
	if err != nil {
		return err
	}

	start, err := strconv.Atoi(args[3])
	if err != nil {
		return err
	}

	end, err := strconv.Atoi(args[4])
	if err != nil {
		return err
	}

	step, err := strconv.Atoi(args[5])
	if err != nil {
		return err
	}

	out := args[6]
	c := checks[id]

	debug.SetMaxStack(256 << 20)

	progress, err := os.OpenFile(out+".progress", os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0o644)
	if err != nil {
		return err
	}

	w := newWork(c, tier, seed)
	w.n = c.cases(tier)
	res := workerResult{}

	var pos [8]byte

	for idx := start; idx < end; idx += step {
		binary.LittleEndian.PutUint64(pos[:], uint64(idx))

		if _, err := progress.WriteAt(pos[:], 0); err != nil {
			return err
		}

		v := w.one(idx)
		res.Cases++

		if v != nil {
			res.Violations = append(res.Violations, *v)

			if len(res.Violations) >= maxViolations {
				break
			}
		}
	}

	res.Evals, res.Counts, res.Samples, res.Done = w.evals, w.counts, w.samples, true

	hs := make([]byte, 0, 8*len(w.hashes))

	for h := range w.hashes {
		hs = binary.LittleEndian.AppendUint64(hs, h)
	}

	if err := os.WriteFile(out+".hashes", hs, 0o644); err != nil {
		return err
	}

	b, err := json.Marshal(res)
	if err != nil {
		return err
	}

	return os.WriteFile(out+".json", b, 0o644)
}

func newWork(c *check, tier string, seed uint64) *work {
	return &work{check: c, tier: tier, seed: seed, counts: map[string]int64{}, hashes: map[uint64]struct{}{}}
}

func (c *check) cases(tier string) int {
	if tier == "thorough" {
		return c.thorough
	}

	return c.quick
}

// outcome is how a worker process ended.
type outcome struct {
	res    *workerResult
	idx    int    // the case it was at
	killed string // why the supervisor ended it
	state  string
	stderr string
	code   int
}

const (
	cpuLimit  = 90      // seconds of CPU time for one case
	wallLimit = 600     // seconds without progress and without CPU time
	memLimit  = 3 << 30 // bytes of resident memory
	poll      = 50 * time.Millisecond
)

var clockTick = 100.0

// procUsage gives the CPU seconds and resident bytes of a child.
func procUsage(pid int) (cpu float64, rss int64, ok bool) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, 0, false
	}

	s := string(b)
	f := strings.Fields(s[strings.LastIndexByte(s, ')')+1:])

	if len(f) < 22 {
		return 0, 0, false
	}

	u, _ := strconv.ParseFloat(f[11], 64)
	k, _ := strconv.ParseFloat(f[12], 64)
	pages, _ := strconv.ParseInt(f[21], 10, 64)

	return (u + k) / clockTick, pages * int64(os.Getpagesize()), true
}

func readProgress(out string) int {
	b, err := os.ReadFile(out + ".progress")
	if err != nil || len(b) != 8 {
		return -1
	}

	return int(binary.LittleEndian.Uint64(b))
}

type supervisor struct {
	check *check
	tier  string
	seed  uint64
	dir   string
	self  string
	stop  atomic.Bool
	mu    sync.Mutex
	peak  int64
}

// runWorker runs one worker process and watches it.
func (s *supervisor) runWorker(name string, start, end, step int, cover bool) (*outcome, error) {
	out := filepath.Join(s.dir, name)

	for _, ext := range []string{".json", ".hashes", ".progress"} {
		if err := os.Remove(out + ext); err != nil && !errors.Is(err, os.ErrNotExist) {
			return nil, err
		}
	}

	cmd := exec.Command(s.self, "worker", s.check.id, s.tier, strconv.FormatUint(s.seed, 10), strconv.Itoa(start), strconv.Itoa(end), strconv.Itoa(step), out)

	env := []string{"TZ=" + zones[start%shards]}

	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "TZ=") && !strings.HasPrefix(e, "GOCOVERDIR=") && !strings.HasPrefix(e, "GORACE=") && !strings.HasPrefix(e, "GOMAXPROCS=") && !strings.HasPrefix(e, "GODEBUG=") {
			env = append(env, e)
		}
	}

	covDir := filepath.Join(s.dir, "cov")

	if !cover {
		covDir = filepath.Join(s.dir, "cov-other")
	}

	if err := os.MkdirAll(covDir, 0o755); err != nil {
		return nil, err
	}

	env = append(env, "GOCOVERDIR="+covDir, "GORACE=halt_on_error=1 exitcode=66")

	if !s.check.race {
		env = append(env, "GOMAXPROCS=2")
	}

	cmd.Env = env

	var stderr bytes.Buffer

	cmd.Stderr = &limitWriter{w: &stderr, n: 1 << 20}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}

	runtime.LockOSThread()
	defer runtime.UnlockOSThread()

	if err := cmd.Start(); err != nil {
		return nil, err
	}

	done := make(chan error, 1)

	go func() { done <- cmd.Wait() }()

	var (
		o        outcome
		lastIdx  = -2
		baseCPU  float64
		lastCPU  float64
		lastMove = time.Now()
		err      error
	)

	tick := time.NewTicker(poll)
	defer tick.Stop()

loop:
	for {
		select {
		case err = <-done:
			break loop
		case <-tick.C:
		}

		cpu, rss, ok := procUsage(cmd.Process.Pid)
		if !ok {
			continue
		}

		s.mu.Lock()
		s.peak = max(s.peak, rss)
		s.mu.Unlock()

		idx := readProgress(out)

		if idx != lastIdx {
			lastIdx, baseCPU, lastMove = idx, cpu, time.Now()
		}

		if cpu > lastCPU+0.02 {
			lastCPU, lastMove = cpu, time.Now()
		}

		switch {
		case o.killed != "":
		case cpu-baseCPU > cpuLimit:
			o.killed = fmt.Sprintf("does not end: used more than %d s of CPU time on one case", cpuLimit)
		case rss > memLimit:
			o.killed = fmt.Sprintf("uses more than %d MB of memory", memLimit>>20)
		case time.Since(lastMove) > wallLimit*time.Second:
			o.killed = fmt.Sprintf("is blocked: no progress in %d s", wallLimit)
		case s.stop.Load():
			o.killed = "stopped"
		default:
			continue
		}

		cmd.Process.Kill()
	}

	o.idx, o.stderr = readProgress(out), stderr.String()

	if err != nil {
		var ee *exec.ExitError

		if !errors.As(err, &ee) {
			return nil, err
		}

		o.code, o.state = ee.ExitCode(), ee.String()

		return &o, nil
	}

	b, err := os.ReadFile(out + ".json")
	if err != nil {
		return nil, err
	}

	o.res = new(workerResult)

	return &o, json.Unmarshal(b, o.res)
}

type limitWriter struct {
	w *bytes.Buffer
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if m := l.n - l.w.Len(); m > 0 {
		l.w.Write(p[:min(m, len(p))])
	}

	return len(p), nil
}

type shardResult struct {
	results    []*workerResult
	files      []string
	violations []violation
	flaky      int
	err        error
}

// shard runs all cases of a shard, going on after cases that end the process.
func (s *supervisor) shard(k, n int) (sr shardResult) {
	start := k

	for attempt := 0; start < n; attempt++ {
		name := fmt.Sprintf("shard%d-%d", k, attempt)

		end := n

		if s.check.perProcess > 0 {
			end = min(n, start+s.check.perProcess*shards)
		}

		o, err := s.runWorker(name, start, end, shards, true)
		if err != nil {
			sr.err = err

			return sr
		}

		if o.res != nil {
			sr.results = append(sr.results, o.res)
			sr.files = append(sr.files, filepath.Join(s.dir, name)+".hashes")
			sr.violations = append(sr.violations, o.res.Violations...)

			if end == n || len(sr.violations) > 0 {
				return sr
			}

			start = end

			continue
		}

		if o.killed == "stopped" {
			return sr
		}

		if strings.Contains(o.stderr, "harness: ") {
			sr.err = fmt.Errorf("worker failed at case %d: %s", o.idx, clip(o.stderr, 4000))

			return sr
		}

		if o.idx < 0 {
			sr.err = fmt.Errorf("worker did not start: %s: %s", o.state, clip(o.stderr, 4000))

			return sr
		}

		v := violation{Idx: o.idx, Message: s.describe(o), Data: map[string]string{"stderr": clip(o.stderr, 8000)}}

		if s.check.race && o.code == 66 {
			sr.violations = append(sr.violations, v)
			s.stop.Store(true)

			return sr
		}

		// make sure that it is this case that ends the process
		again, err := s.runWorker(name+"-confirm", o.idx, o.idx+1, 1, false)
		if err != nil {
			sr.err = err

			return sr
		}

		switch {
		case again.killed == "stopped":
			return sr
		case again.res == nil:
			v.Message = s.describe(again)
			v.Data["stderr"] = clip(again.stderr, 8000)
			sr.violations = append(sr.violations, v)
			s.stop.Store(true)

			return sr
		case len(again.res.Violations) > 0:
			sr.violations = append(sr.violations, again.res.Violations...)

			return sr
		}

		sr.flaky++
		start = o.idx

		if sr.flaky > 3 {
			sr.err = fmt.Errorf("workers end for no reproducible reason: %s: %s", o.state, clip(o.stderr, 4000))

			return sr
		}
	}

	return sr
}

func (s *supervisor) describe(o *outcome) string {
	if o.killed != "" {
		return o.killed
	}

	if o.code == 66 {
		return "data race"
	}

	for _, l := range strings.Split(o.stderr, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") {
			return "the process is ended: " + l
		}
	}

	return "the process is ended: " + o.state
}

type replayFile struct {
	Property string            `json:"property"`
	Tier     string            `json:"tier"`
	Seed     uint64            `json:"seed"`
	Case     int               `json:"case"`
	TZ       string            `json:"TZ"`
	Message  string            `json:"message"`
	Command  string            `json:"command"`
	Data     map[string]string `json:"data,omitempty"`
}

func verifDir() string {
	if d := os.Getenv("ICSVERIF_DIR"); d != "" {
		return d
	}

	return "/verif"
}

// try runs the probe; a panic is never a known finding.
func (p *probe) try() (got string, panicked bool) {
	defer func() {
		if e := recover(); e != nil {
			got, panicked = fmt.Sprint("panic: ", e), true
		}
	}()

	return p.run(), false
}

// knownFindings reads the ids of the known findings.
func knownFindings() (map[string]string, error) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return nil, err
	}

	known := map[string]string{}

	for _, l := range strings.Split(string(b), "\n") {
		// known: property=<id> input=<probe> <what fails>
		rest, ok := strings.CutPrefix(l, "known: property=")
		if !ok {
			continue
		}

		f := strings.SplitN(rest, " ", 3)

		if len(f) == 3 && strings.HasPrefix(f[1], "input=") {
			known[f[0]+"/"+strings.TrimPrefix(f[1], "input=")] = f[2]
		}
	}

	return known, nil
}

func supervise(id, tier string, seed uint64) (int, error) {
	useConstants(tier)

	began := time.Now()
	c := checks[id]

	if c == nil {
		return 2, fmt.Errorf("unknown property %s", id)
	}

	if gaps := schemaGaps(); len(gaps) > 0 {
		// new exported fields would not be monitored; fields that are gone would
		// not have compiled
		fmt.Fprintln(os.Stderr, "note: fields that are not monitored:", strings.Join(gaps, "; "))
	}

	self, err := os.Executable()
	if err != nil {
		return 2, err
	}

	dir, err := os.MkdirTemp("", "icsverif-"+id+"-")
	if err != nil {
		return 2, err
	}

	defer os.RemoveAll(dir)

	s := &supervisor{check: c, tier: tier, seed: seed, dir: dir, self: self}
	n := c.cases(tier)
	results := make([]shardResult, shards)

	var wg sync.WaitGroup

	width := shards

	if c.race {
		width = 4
	}

	sem := make(chan struct{}, width)

	for k := range results {
		wg.Add(1)

		go func() {
			defer wg.Done()

			sem <- struct{}{}
			results[k] = s.shard(k, n)
			<-sem
		}()
	}

	wg.Wait()

	total := newWork(c, tier, seed)
	cases, flaky := 0, 0

	var violations []violation

	for _, sr := range results {
		if sr.err != nil {
			return 2, sr.err
		}

		flaky += sr.flaky
		violations = append(violations, sr.violations...)

		for i, r := range sr.results {
			cases += r.Cases
			total.evals += r.Evals

			for k, v := range r.Counts {
				total.counts[k] += v
			}

			if len(total.samples) < 6 {
				total.samples = append(total.samples, r.Samples...)
			}

			b, err := os.ReadFile(sr.files[i])
			if err != nil {
				return 2, err
			}

			for ; len(b) >= 8; b = b[8:] {
				total.hashes[binary.LittleEndian.Uint64(b)] = struct{}{}
			}
		}
	}

	sort.Slice(violations, func(i, j int) bool { return violations[i].Idx < violations[j].Idx })

	// known findings
	known, err := knownFindings()
	if err != nil {
		return 2, err
	}

	probesHeld, knownCount := 0, 0

	for _, p := range c.probes {
		got, panicked := p.try()

		if got == "" {
			probesHeld++
		} else if what, ok := known[id+"/"+p.id]; ok && !panicked {
			fmt.Printf("KNOWN-FINDING: property=%s input=%s %s\n", id, p.id, what)

			knownCount++
		} else {
			violations = append(violations, violation{Idx: -1, Message: p.what + ": " + got})
		}
	}

	if len(violations) == 0 && len(total.hashes) == 0 {
		return 2, errors.New("nothing was observed")
	}

	for i, v := range violations {
		if i >= maxViolations {
			break
		}

		path, err := writeReplay(c, tier, seed, v)
		if err != nil {
			return 2, err
		}

		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		fmt.Printf("  case %d: %s\n", v.Idx, clip(v.Message, 2000))
	}

	processes := shards

	if n := c.perProcess * shards; n > 0 {
		processes *= (cases + n - 1) / n
	}

	coverage := map[string]any{
		"evaluations":         total.evals,
		"distinct_nontrivial": len(total.hashes),
		"rule":                c.rule,
		"samples":             total.samples,
		"cases":               cases,
		"observed":            total.counts,
		"worker_processes":    processes,
		"local_zones":         zones,
		"constants_tried":     len(hints().texts) + len(hints().ints) + len(hints().times),
		"peak_worker_memory":  s.peak,
	}

	if c.race {
		coverage["race_detector"] = raceEnabled
	}

	if len(c.probes) > 0 {
		coverage["known_findings_seen"] = knownCount
		coverage["probes_that_hold"] = probesHeld
	}

	if flaky > 0 {
		coverage["unreproduced_worker_exits"] = flaky
	}

	if cov := codeCoverage(filepath.Join(dir, "cov")); cov != nil {
		coverage["code_coverage"] = cov
	}

	ev := map[string]any{
		"property":   id,
		"tier":       tier,
		"seed":       seed,
		"level":      c.level,
		"coverage":   coverage,
		"violations": len(violations),
		"wall_s":     time.Since(began).Seconds(),
		"assumptions": []string{
			"held on the executions described, which are a sample of all of them",
			"the model, the writer and the reader of the harness follow the RFCs",
		},
	}

	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return 2, err
	}

	if err := os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755); err != nil {
		return 2, err
	}

	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		return 2, err
	}

	if len(violations) > 0 {
		return 1, nil
	}

	fmt.Printf("held: property=%s tier=%s seed=%d cases=%d evaluations=%d distinct=%d wall=%.1fs\n", id, tier, seed, cases, total.evals, len(total.hashes), time.Since(began).Seconds())

	return 0, nil
}

func writeReplay(c *check, tier string, seed uint64, v violation) (string, error) {
	dir := filepath.Join(verifDir(), "replays")

	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}

	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-%d.json", c.id, tier, seed, v.Idx))
	rf := replayFile{Property: c.id, Tier: tier, Seed: seed, Case: v.Idx, Message: v.Message, Data: v.Data, Command: "bash /verif/check.sh --replay " + path}

	if v.Idx >= 0 {
		rf.TZ = zones[v.Idx%shards]
	}

	b, err := json.MarshalIndent(rf, "", " ")
	if err != nil {
		return "", err
	}

	return path, os.WriteFile(path, append(b, '\n'), 0o644)
}

// replay runs the case of a replay file again.
func replay(path string) (int, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return 2, err
	}

	var rf replayFile

	if err := json.Unmarshal(b, &rf); err != nil {
		return 2, err
	}

	c := checks[rf.Property]

	if c == nil {
		return 2, fmt.Errorf("unknown property %s", rf.Property)
	}

	if rf.Case < 0 {
		for _, p := range c.probes {
			fmt.Printf("probe %s (%s): %s\n", p.id, p.what, p.run())
		}

		return 0, nil
	}

	self, err := os.Executable()
	if err != nil {
		return 2, err
	}

	dir, err := os.MkdirTemp("", "icsverif-replay-")
	if err != nil {
		return 2, err
	}

	defer os.RemoveAll(dir)

	s := &supervisor{check: c, tier: rf.Tier, seed: rf.Seed, dir: dir, self: self}

	o, err := s.runWorker("replay", rf.Case, rf.Case+1, 1, false)
	if err != nil {
		return 2, err
	}

	if o.res == nil {
		fmt.Printf("VIOLATION property=%s replay=%s\n  case %d: %s\n%s\n", c.id, path, rf.Case, s.describe(o), clip(o.stderr, 8000))

		return 1, nil
	}

	for _, v := range o.res.Violations {
		fmt.Printf("VIOLATION property=%s replay=%s\n  case %d: %s\n", c.id, path, v.Idx, v.Message)

		for k, d := range v.Data {
			fmt.Printf("--- %s\n%s\n", k, d)
		}
	}

	if len(o.res.Violations) > 0 {
		return 1, nil
	}

	fmt.Println("held: case", rf.Case)

	return 0, nil
}

// codeCoverage says how much of the package the workload reached.
func codeCoverage(dir string) map[string]any {
	cmd := exec.Command("go", "tool", "covdata", "func", "-i", dir)

	b, err := cmd.Output()
	if err != nil {
		return nil
	}

	reached, all := 0, 0
	unreached := []string{}
	cov := map[string]any{}

	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)

		if len(f) == 0 {
			continue
		}

		pc := f[len(f)-1]

		if strings.HasPrefix(l, "total") {
			cov["statements_percent"] = pc

			continue
		}

		if !strings.Contains(l, "/ics/") || len(f) < 3 {
			continue
		}

		all++

		if pc == "0.0%" {
			unreached = append(unreached, f[0][strings.LastIndexByte(f[0][:strings.LastIndexByte(f[0], ':')], '/')+1:]+" "+f[1])
		} else {
			reached++
		}
	}

	if all == 0 {
		return nil
	}

	cov["functions"] = all
	cov["functions_reached"] = reached

	if len(unreached) <= 40 {
		cov["functions_not_reached"] = unreached
	}

	return cov
}

func main() {
	for _, f := range initDone {
		f()
	}

	code, err := 2, errors.New("usage: icsverif check ID TIER | replay FILE | list")

	if len(os.Args) > 1 {
		switch a := os.Args[2:]; os.Args[1] {
		case "worker":
			if len(a) == 7 {
				code, err = 0, worker(a)
			}
		case "check":
			if len(a) == 2 {
				seed := uint64(1)

				if v, e := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); e == nil {
					seed = v
				}

				code, err = supervise(a[0], a[1], seed)
			}
		case "replay":
			if len(a) == 1 {
				code, err = replay(a[0])
			}
		case "encode":
			if len(a) == 2 {
				seed, _ := strconv.ParseUint(a[0], 10, 64)
				idx, _ := strconv.Atoi(a[1])
				_, err = fmt.Println(strings.Join(processCalendars(seed, idx), "\n"))
				code = 0
			}
		case "constants": // makes baseline.go
			c := constants()

			fmt.Print("package main\n\n// baseline has the constants of the package, and how often they occur.\nvar baseline = map[string]int{\n")

			for _, k := range sortedNames(c) {
				fmt.Printf("\t%q: %d,\n", k, c[k])
			}

			fmt.Println("}")

			code, err = 0, nil
		case "list":
			for _, id := range sortedNames(checks) {
				fmt.Println(id, checks[id].quick, checks[id].thorough)
			}

			code, err = 0, nil
		}
	}

	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)

		code = 2
	}

	os.Exit(code)
}
