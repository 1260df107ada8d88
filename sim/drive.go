package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// The driver of a check: worker processes run seeds, the parent collects what they report, confirms
// and minimises deviations in fresh processes and writes the evidence.

const (
	hangSeconds = 90
	memLimitKB  = 5 << 20
)

// Replay is the content of a replay file.
type Replay struct {
	Property string    `json:"property"`
	Seed     uint64    `json:"seed"`
	Message  string    `json:"message"`
	Tags     []string  `json:"tags"`
	Step     int       `json:"step"`
	Crash    bool      `json:"crash,omitempty"`    // the process died or hung instead of reporting
	Attempts int       `json:"attempts,omitempty"` // more than one if the code itself is not deterministic
	Prelude  []uint64  `json:"prelude,omitempty"`  // seeds that have to run before in the same process
	Scenario *Scenario `json:"scenario"`
}

type workerViol struct {
	Seed  uint64   `json:"seed"`
	Props []string `json:"props"`
	Msg   string   `json:"msg"`
	Step  int      `json:"step"`
}

type workerMsg struct {
	T    string      `json:"t"`
	Seed uint64      `json:"s,omitempty"`
	Hash string      `json:"h,omitempty"`
	Hit  bool        `json:"n,omitempty"`
	Viol *workerViol `json:"v,omitempty"`
	St   *Stats      `json:"st,omitempty"`
}

// runOne executes the scenario of a seed and says whether the run reached what the property is about.
func runOne(prop string, sc *Scenario, st *Stats) (v *Violation, hash uint64, hit bool) {
	one := newStats()
	v, hash = runScenario(sc, one, false)
	for _, p := range probesOf(prop) {
		if one.N[p] > 0 {
			hit = true
			one.inc("nontrivial_by_" + p)
		}
	}
	st.merge(one)
	return
}

func worker(args []string) {
	prop := args[0]
	first, _ := strconv.ParseUint(args[1], 10, 64)
	stride, _ := strconv.ParseUint(args[2], 10, 64)
	count, _ := strconv.Atoi(args[3])
	secs, _ := strconv.ParseFloat(args[4], 64)
	out := bufio.NewWriter(os.Stdout)
	st := newStats()
	enc := json.NewEncoder(out)
	end := time.Now().Add(time.Duration(secs * float64(time.Second)))
	bad := 0
	for i := 0; i < count && time.Now().Before(end) && bad < 6; i++ {
		seed := first + uint64(i)*stride
		enc.Encode(workerMsg{T: "s", Seed: seed})
		out.Flush()
		v, h, hit := runOne(prop, generate(prop, seed), st)
		m := workerMsg{T: "r", Seed: seed, Hash: fmt.Sprintf("%016x", h), Hit: hit}
		if v != nil {
			m.Viol = &workerViol{seed, v.Props, v.Msg, v.Step}
			bad++
		}
		enc.Encode(m)
		out.Flush()
	}
	enc.Encode(workerMsg{T: "e", St: st})
	out.Flush()
}

type proc struct {
	cmd   *exec.Cmd
	mu    sync.Mutex
	seed  uint64
	has   bool
	at    time.Time
	why   string
	ended bool
}

func self() string {
	p, err := os.Executable()
	must(err)
	return p
}

// watch ends a process that hangs or takes too much memory.
func (p *proc) watch() {
	for {
		time.Sleep(200 * time.Millisecond)
		p.mu.Lock()
		if p.ended {
			p.mu.Unlock()
			return
		}
		hung := p.has && time.Since(p.at) > hangSeconds*time.Second
		p.mu.Unlock()
		b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", p.cmd.Process.Pid))
		big := false
		if err == nil {
			f := strings.Fields(string(b))
			if len(f) > 1 {
				n, _ := strconv.ParseInt(f[1], 10, 64)
				big = n*4 > memLimitKB
			}
		}
		if hung || big {
			p.mu.Lock()
			p.why = "took more than " + strconv.Itoa(hangSeconds) + " s"
			if big {
				p.why = fmt.Sprintf("took more than %d MB of memory", memLimitKB/1024)
			}
			p.mu.Unlock()
			p.cmd.Process.Kill()
			return
		}
	}
}

// check is the parent process of a check.
func check(prop string) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	vseed := uint64(1)
	if s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		vseed = s
	}
	runs, secs := 18000, 45.0
	if tier == "thorough" {
		runs, secs = 4000000, 780.0
	}
	if n, ok := quickRuns[prop]; ok && tier == "quick" {
		runs = n
	}
	if s := os.Getenv("VERIF_RUNS"); s != "" {
		runs, _ = strconv.Atoi(s)
	}
	if s := os.Getenv("VERIF_SECONDS"); s != "" {
		secs, _ = strconv.ParseFloat(s, 64)
	}
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	if s := os.Getenv("VERIF_WORKERS"); s != "" {
		nw, _ = strconv.Atoi(s)
	}
	base := vseed * 1000000000
	dir := os.Getenv("VERIF_EVIDENCE")
	if dir == "" {
		dir = "/verif/evidence"
	}
	must(os.MkdirAll(filepath.Join(dir, "replay"), 0755))

	c := &checker{prop: prop, tier: tier, vseed: vseed, st: newStats(), hashes: map[uint64]string{}, distinct: map[string]bool{}, dir: dir, t0: t0}
	fmt.Printf("check %s: VERIF_SEED=%d tier=%s workers=%d runs=%d at most %.0f s\n", prop, vseed, tier, nw, runs, secs)
	per := (runs + nw - 1) / nw
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			c.drive(base+uint64(w), uint64(nw), per, secs, true)
		}(w)
	}
	wg.Wait()
	explored := time.Since(t0).Seconds()

	if len(c.viols) == 0 && len(c.crashes) == 0 {
		c.doubleRun(base)
	}
	code := c.conclude()
	c.evidence(explored, nw)
	return code
}

type crash struct {
	seed   uint64
	why    string
	stderr string
	before []uint64
}

type checker struct {
	mu       sync.Mutex
	prop     string
	tier     string
	vseed    uint64
	st       *Stats
	hashes   map[uint64]string
	distinct map[string]bool
	hits     int
	runs     int
	viols    []workerViol
	foreign  []workerViol
	crashes  []crash
	order    map[uint64][]uint64
	stop     bool
	dir      string
	t0       time.Time
	double   int
	doubleIn int
	samples  []string
	reported []string
	found    int
	errs     []string
}

// drive runs one worker process, and another one after a crash.
func (c *checker) drive(first, stride uint64, count int, secs float64, record bool) {
	start := time.Now()
	for count > 0 {
		left := secs - time.Since(start).Seconds()
		if left <= 0 {
			return
		}
		cmd := exec.Command(self(), "worker", c.prop, fmt.Sprint(first), fmt.Sprint(stride), fmt.Sprint(count), fmt.Sprint(left))
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
		var errb tailBuf
		cmd.Stderr = &errb
		pipe, err := cmd.StdoutPipe()
		must(err)
		must(cmd.Start())
		p := &proc{cmd: cmd, at: time.Now()}
		go p.watch()
		ended := false
		var ran []uint64
		last := uint64(0)
		rd := bufio.NewReaderSize(pipe, 1<<20)
		for {
			line, err := rd.ReadBytes('\n')
			if err != nil {
				break
			}
			var m workerMsg
			if json.Unmarshal(line, &m) != nil {
				continue
			}
			switch m.T {
			case "s":
				p.mu.Lock()
				p.seed, p.has, p.at = m.Seed, true, time.Now()
				p.mu.Unlock()
				last = m.Seed
			case "r":
				p.mu.Lock()
				p.has = false
				p.mu.Unlock()
				c.result(&m, record, ran)
				ran = append(ran, m.Seed)
			case "e":
				ended = true
				if record {
					c.mu.Lock()
					c.st.merge(m.St)
					c.mu.Unlock()
				}
			}
			c.mu.Lock()
			stop := c.stop
			c.mu.Unlock()
			if stop && !ended {
				p.mu.Lock()
				p.ended = true
				p.mu.Unlock()
				cmd.Process.Kill()
				cmd.Wait()
				return
			}
		}
		werr := cmd.Wait()
		p.mu.Lock()
		p.ended = true
		why := p.why
		p.mu.Unlock()
		if ended {
			return
		}
		if !p.has {
			c.mu.Lock()
			c.errs = append(c.errs, fmt.Sprintf("a worker ended between runs: %v %s", werr, errb.String()))
			c.mu.Unlock()
			return
		}
		if why == "" {
			why = fmt.Sprintf("ended with %v", werr)
		}
		c.mu.Lock()
		c.crashes = append(c.crashes, crash{last, why, errb.String(), ran})
		n := len(c.crashes)
		if n >= 3 {
			c.stop = true
		}
		c.mu.Unlock()
		// go on after the seed that crashed
		for first <= last && count > 0 {
			first += stride
			count--
		}
	}
}

func (c *checker) result(m *workerMsg, record bool, ran []uint64) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if !record {
		c.doubleIn++
		if h, ok := c.hashes[m.Seed]; ok {
			c.double++
			if h != m.Hash {
				c.viols = append(c.viols, workerViol{m.Seed, []string{"C04"}, "two executions of the same run differ", -1})
			}
		}
		return
	}
	c.runs++
	c.hashes[m.Seed] = m.Hash
	if m.Hit {
		c.hits++
		c.distinct[m.Hash] = true
	}
	if m.Viol != nil {
		if has(m.Viol.Props, c.prop) {
			c.viols = append(c.viols, *m.Viol)
			if c.order == nil {
				c.order = map[uint64][]uint64{}
			}
			c.order[m.Seed] = append([]uint64{}, ran...)
			if len(c.viols) >= 4 {
				c.stop = true
			}
		} else {
			c.foreign = append(c.foreign, *m.Viol)
			if len(c.foreign) >= 40 {
				c.stop = true
			}
		}
	}
}

// doubleRun executes a sample of the runs again, in other processes with another partition.
func (c *checker) doubleRun(base uint64) {
	n := c.runs / 50
	if c.prop == "C04" {
		n = c.runs / 12
	}
	if n < 40 {
		n = 40
	}
	var wg sync.WaitGroup
	for w := 0; w < 3; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			c.drive(base+uint64(w)*uint64(n/3), 1, n/3, 20, false)
		}(w)
	}
	wg.Wait()
}

func has(l []string, x string) bool {
	for _, s := range l {
		if s == x {
			return true
		}
	}
	return false
}

type tailBuf struct{ b []byte }

func (t *tailBuf) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 1<<20 {
		t.b = append([]byte{}, t.b[:1<<19]...)
	}
	return len(p), nil
}
func (t *tailBuf) String() string {
	s := string(t.b)
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic") || strings.HasPrefix(l, "fatal") || strings.Contains(l, "SIG") {
			return strings.TrimSpace(l)
		}
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return strings.TrimSpace(s)
}

// isolated runs a scenario in a fresh process.
func isolated(r *Replay) (v *Violation, died string) {
	f, err := os.CreateTemp("", "simreplay")
	must(err)
	defer os.Remove(f.Name())
	must(json.NewEncoder(f).Encode(r))
	f.Close()
	cmd := exec.Command(self(), "replay1", f.Name())
	var out bytes.Buffer
	var errb tailBuf
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
	must(cmd.Start())
	p := &proc{cmd: cmd, at: time.Now(), has: true}
	go p.watch()
	err = cmd.Wait()
	p.mu.Lock()
	p.ended = true
	why := p.why
	p.mu.Unlock()
	if err != nil {
		if why == "" {
			why = "ended with " + err.Error() + ": " + errb.String()
		}
		return nil, why
	}
	var res struct{ V *Violation }
	if json.Unmarshal(out.Bytes(), &res) != nil {
		return nil, "no answer"
	}
	return res.V, ""
}

// replay1 runs a replay file once in this process and prints the outcome.
func replay1(path string) {
	r := readReplay(path)
	var v *Violation
	n := r.Attempts
	if n < 1 {
		n = 1
	}
	for _, s := range r.Prelude {
		runScenario(generate(r.Property, s), newStats(), false)
	}
	for i := 0; i < n && v == nil; i++ {
		v, _ = runScenario(r.Scenario, newStats(), false)
	}
	json.NewEncoder(os.Stdout).Encode(struct{ V *Violation }{v})
}

func readReplay(path string) *Replay {
	b, err := os.ReadFile(path)
	must(err)
	r := &Replay{}
	must(json.Unmarshal(b, r))
	return r
}

// replay is the command for people: it says what the file reproduces.
func replay(path string) int {
	r := readReplay(path)
	v, died := isolated(r)
	if died != "" {
		fmt.Printf("the process %s\nVIOLATION property=%s replay=%s\n", died, r.Property, path)
		return 1
	}
	if v != nil {
		fmt.Printf("step %d: %s (%s)\nVIOLATION property=%s replay=%s\n", v.Step, v.Msg, strings.Join(v.Props, " "), r.Property, path)
		return 1
	}
	fmt.Println("the run ends without a violation")
	return 0
}

// conclude confirms, minimises and reports violations.
func (c *checker) conclude() int {
	known := 0
	for _, k := range findingsOf(c.prop) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, k)
		known++
	}
	sort.Slice(c.viols, func(i, k int) bool { return c.viols[i].Seed < c.viols[k].Seed })
	reported := map[string]bool{}
	for _, x := range c.viols {
		kind := violKind(x.Msg)
		if reported[kind] || len(reported) >= 3 {
			continue
		}
		r := &Replay{Property: c.prop, Seed: x.Seed, Message: x.Msg, Tags: x.Props, Step: x.Step, Scenario: generate(c.prop, x.Seed)}
		if x.Step == -1 {
			// nondeterminism between processes: the run has to be repeated to show it
			if n := c.nondeterminism(r); n == "" {
				c.errs = append(c.errs, fmt.Sprintf("seed %d: two executions differed, which did not happen again", x.Seed))
				continue
			} else {
				r.Message = n
			}
			if c.prop != "C04" {
				c.foreign = append(c.foreign, x)
				continue
			}
			c.report(r, "")
			reported[kind] = true
			continue
		}
		if !c.confirm(r) {
			c.errs = append(c.errs, fmt.Sprintf("seed %d: %q did not happen again in a fresh process", x.Seed, x.Msg))
			continue
		}
		if r.Attempts <= 1 && len(r.Prelude) == 0 {
			c.minimise(r)
		}
		c.report(r, "")
		reported[kind] = true
	}
	for _, x := range c.crashes {
		if reported["crash"] {
			break
		}
		r := &Replay{Property: c.prop, Seed: x.seed, Crash: true, Tags: []string{"C05"}, Scenario: generate(c.prop, x.seed)}
		_, died := isolated(r)
		if died == "" {
			r.Prelude = lastN(x.before, 200)
			_, died = isolated(r)
		}
		if died == "" {
			c.errs = append(c.errs, fmt.Sprintf("seed %d: the process %s (%s), which did not happen again", x.seed, x.why, x.stderr))
			continue
		}
		r.Message = "the process that hosts the VM " + died
		if !has(crashProps, c.prop) {
			c.foreign = append(c.foreign, workerViol{x.seed, r.Tags, r.Message, 0})
			continue
		}
		c.minimise(r)
		c.report(r, died)
		reported["crash"] = true
	}
	seen := map[string]bool{}
	for _, x := range c.foreign {
		k := violKind(x.Msg)
		if !seen[k] && len(seen) < 8 {
			seen[k] = true
			fmt.Printf("DEVIATION (of %s, not of %s): seed %d step %d: %s\n", strings.Join(x.Props, " "), c.prop, x.Seed, x.Step, cutText(x.Msg, 400))
		}
	}
	for _, e := range c.errs {
		fmt.Println("ERROR:", cutText(e, 600))
	}
	if len(reported) > 0 {
		return 1
	}
	if len(c.errs) > 0 {
		return 3
	}
	if c.hits == 0 {
		fmt.Println("ERROR: no run reached what the property is about")
		return 3
	}
	return 0
}

func lastN(a []uint64, n int) []uint64 {
	if len(a) > n {
		a = a[len(a)-n:]
	}
	return append([]uint64{}, a...)
}

// confirm makes the violation happen again in a fresh process; if that takes more than the scenario
// alone it says so in the replay file.
func (c *checker) confirm(r *Replay) bool {
	if v, died := isolated(r); died != "" || v != nil && has(v.Props, c.prop) {
		if v != nil {
			r.Message, r.Tags, r.Step = v.Msg, v.Props, v.Step
		}
		return true
	}
	before := c.order[r.Seed]
	for _, n := range []int{1, 5, 25, 200, 2000} {
		r.Prelude = lastN(before, n)
		if v, _ := isolated(r); v != nil && has(v.Props, c.prop) {
			r.Message, r.Tags, r.Step = v.Msg, v.Props, v.Step
			return true
		}
		if n > len(before) {
			break
		}
	}
	r.Prelude = nil
	r.Attempts = 200
	for i := 0; i < 3; i++ {
		if v, _ := isolated(r); v != nil && has(v.Props, c.prop) {
			r.Message, r.Tags, r.Step = v.Msg+" (not in every execution of the run: the code is not deterministic)", v.Props, v.Step
			return true
		}
	}
	return false
}

// nondeterminism executes one scenario many times and looks for two different histories.
func (c *checker) nondeterminism(r *Replay) string {
	want := ""
	for i := 0; i < 12; i++ {
		cmd := exec.Command(self(), "worker", r.Property, fmt.Sprint(r.Seed), "1", "1", "60")
		out, err := cmd.Output()
		if err != nil {
			return "the process died: " + err.Error()
		}
		for _, l := range bytes.Split(out, []byte("\n")) {
			var m workerMsg
			if json.Unmarshal(l, &m) == nil && m.T == "r" {
				if want == "" {
					want = m.Hash
				} else if want != m.Hash {
					return "the same run has different histories in different executions"
				}
			}
		}
	}
	return ""
}

// violKind is a message without its particulars.
func violKind(s string) string {
	var b strings.Builder
	for _, w := range strings.Fields(s) {
		if strings.ContainsAny(w, "0123456789[]@\"") {
			continue
		}
		b.WriteString(w + " ")
	}
	return cutText(b.String(), 120)
}

func cutText(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (c *checker) report(r *Replay, died string) {
	c.found++
	path := filepath.Join(c.dir, "replay", fmt.Sprintf("%s-%d-%d.json", c.prop, r.Seed, c.found))
	b, err := json.MarshalIndent(r, "", " ")
	must(err)
	must(os.WriteFile(path, append(b, '\n'), 0644))
	again, gone := isolated(readReplay(path))
	same := died != "" && gone != "" || again != nil && has(again.Props, c.prop)
	fmt.Printf("%s: seed %d step %d: %s\n", strings.Join(r.Tags, " "), r.Seed, r.Step, cutText(r.Message, 1500))
	fmt.Printf("  %d steps, replayed in a fresh process: %v\n", len(r.Scenario.Steps), same || r.Attempts > 1 || r.Step == -1)
	for i := range r.Scenario.Steps {
		fmt.Println("  ", i, stepText(&r.Scenario.Steps[i]))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, path)
	c.reported = append(c.reported, path)
}

func stepText(s *Step) string {
	b, _ := json.Marshal(s)
	return cutText(string(b), 300)
}

// evidence writes what the check covered.
func (c *checker) evidence(explored float64, workers int) {
	ev := map[string]interface{}{}
	ev["property"], ev["tier"], ev["seed"], ev["level"] = c.prop, c.tier, c.vseed, "exploration"
	ev["wall_s"] = time.Since(c.t0).Seconds()
	ev["violations"] = c.found
	ev["assumptions"] = assumptionsOf(c.prop)
	faults := map[string]uint64{}
	counts := map[string]uint64{}
	for k, n := range c.st.N {
		if strings.HasPrefix(k, "fault_") {
			faults[strings.TrimPrefix(k, "fault_")] = n
		} else {
			counts[k] = n
		}
	}
	for _, k := range []string{"step_restart", "step_dropcache", "cache_poisoned", "schedule_changes", "mid_execution_changes", "bad_schedules", "reordered"} {
		if n, ok := c.st.N[k]; ok {
			faults["node:"+strings.TrimPrefix(k, "step_")] = n
		}
	}
	states := map[string]int{}
	for k, m := range c.st.Sets {
		states[k] = len(m)
	}
	var unm []string
	for k := range c.st.Sets["not_modelled"] {
		unm = append(unm, k)
	}
	sort.Strings(unm)
	foreign := []string{}
	for i, x := range c.foreign {
		if i < 10 {
			foreign = append(foreign, fmt.Sprintf("%v seed %d: %s", x.Props, x.Seed, cutText(x.Msg, 300)))
		}
	}
	var samples []interface{}
	for i := uint64(0); i < 2; i++ {
		sc := generate(c.prop, c.vseed*1000000000+i)
		sam := map[string]interface{}{"seed": sc.Seed, "cfg": sc.Cfg}
		var steps []string
		for k := range sc.Steps {
			if k < 12 {
				steps = append(steps, stepText(&sc.Steps[k]))
			}
		}
		sam["steps"] = steps
		sam["history_hash"] = c.hashes[sc.Seed]
		samples = append(samples, sam)
	}
	real, stub := componentsOf(c.prop)
	cov := map[string]interface{}{
		"evaluations":                    c.runs,
		"distinct_nontrivial":            len(c.distinct),
		"nontrivial_runs":                c.hits,
		"rule":                           ruleOf(c.prop),
		"samples":                        samples,
		"simulated_runs":                 c.runs,
		"runs_per_hour":                  int(float64(c.runs) / explored * 3600),
		"seeds_per_hour":                 int(float64(len(c.hashes)) / explored * 3600),
		"exploration_seconds":            explored,
		"simulated_seconds":              c.st.N["sim_seconds"],
		"faults_injected":                faults,
		"counts":                         counts,
		"api_functions_called":           c.st.API,
		"distinct_states":                states,
		"not_modelled":                   unm,
		"determinism_runs_repeated":      c.double,
		"deviations_of_other_properties": foreign,
		"worker_processes":               workers,
		"real_components":                real,
		"stub_components":                stub,
		"replays":                        c.reported,
	}
	ev["coverage"] = cov
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.WriteFile(filepath.Join(c.dir, c.prop+".json"), append(b, '\n'), 0644))
	fmt.Printf("%d runs (%d distinct non-trivial), %d executions, %d repeated, %.1f s\n", c.runs, len(c.distinct), c.st.N["vm_executions"], c.double, time.Since(c.t0).Seconds())
}

var _ = io.EOF
