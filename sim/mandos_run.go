package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwenmandos"
	mc "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/controller"
)

// The runs of the scenario executor: a scenario that says what the reference found has to pass; with one
// of its claims made false, with a broken file, or with a step that cannot be executed it has to fail.

type mandosRun struct {
	r     *Run
	codes [][]byte
	dir   string
	seq   int
}

func (p *mandosRun) run() {
	r := p.r
	r.stats.inc("runs")
	for i := range r.sc.Progs {
		p.codes = append(p.codes, r.sc.Progs[i].Assemble())
	}
	var err error
	p.dir, err = os.MkdirTemp("", "simmandos")
	must(err)
	defer os.RemoveAll(p.dir)
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	must(err)
	defer null.Close()
	stdout := os.Stdout
	defer func() { os.Stdout = stdout }()
	os.Stdout = null

	cfg := r.sc.Cfg.Mandos
	good, failed, why := p.reference(cfg.Schedule)
	t := p.write(good, cfg.Schedule, "", "")
	if failed != nil {
		all := append(append([]*mStep{}, good...), failed)
		err := p.one(p.write(all, cfg.Schedule, "", ""))
		if err == nil {
			r.fail("M01", "the scenario passed, but cannot be executed: %s", why)
		}
		r.stats.inc("scenarios_unexecutable")
		r.note("cannot be executed: %s", why)
	}
	if err := p.one(t); err != nil {
		r.fail("M01", "the scenario failed, but states nothing that is not so: %v", err)
	}
	r.stats.inc("scenarios_passed")
	r.stats.add("claims", uint64(len(t.claims)))
	for i := range r.sc.Steps {
		r.step = i
		switch st := &r.sc.Steps[i]; st.Kind {
		case "deviate":
			p.deviate(st, good, t)
		case "directory":
			p.directory(st, good, t)
		case "legacy":
			p.legacy(st)
		}
	}
	r.step = len(r.sc.Steps)
}

// reference executes the steps with the reference.
func (p *mandosRun) reference(schedule string) (good []*mStep, failed *mStep, why string) {
	m := newMRef(p.r, p.codes, schedule)
	good, failed, why = m.steps(p.r.sc.Steps, 0)
	for _, k := range sortedKeys(m.h.accts) {
		a := m.h.accts[k]
		p.r.note("%x nonce %d balance %v user %x owner %x async %q code %d", k, a.Nonce, a.Balance, a.User, a.Owner, a.Async, len(a.Code))
		var ks []string
		for s := range a.Storage {
			ks = append(ks, s)
		}
		sort.Strings(ks)
		for _, s := range ks {
			p.r.note(" %x=%x", s, a.Storage[s])
		}
	}
	return
}

// write is the files of a scenario.
func (p *mandosRun) write(steps []*mStep, schedule, dev, mode string) *mText {
	cfg := p.r.sc.Cfg.Mandos
	t := &mText{seed: cfg.Style, codes: p.codes, files: map[string][]byte{}, dev: dev, mode: mode}
	t.file("main.scen.json", steps, cfg.CheckGas, schedule, "")
	return t
}

// put writes files to a new directory.
func (p *mandosRun) put(files map[string][]byte) string {
	p.seq++
	d := filepath.Join(p.dir, fmt.Sprint(p.seq))
	must(os.Mkdir(d, 0700))
	for n, b := range files {
		f := filepath.Join(d, n)
		must(os.MkdirAll(filepath.Dir(f), 0700))
		must(os.WriteFile(f, b, 0600))
	}
	if keep := os.Getenv("KEEP"); keep != "" {
		for n, b := range files {
			f := filepath.Join(keep, fmt.Sprint(p.seq), n)
			must(os.MkdirAll(filepath.Dir(f), 0700))
			must(os.WriteFile(f, b, 0600))
		}
	}
	return d
}

func (p *mandosRun) runner() *mc.ScenarioRunner {
	e, err := arwenmandos.NewArwenTestExecutor()
	must(err)
	return mc.NewScenarioRunner(e, mc.NewDefaultFileResolver())
}

// one runs a scenario.
func (p *mandosRun) one(t *mText) error {
	d := p.put(t.files)
	defer os.RemoveAll(d)
	return p.single(filepath.Join(d, "main.scen.json"))
}

func (p *mandosRun) single(path string) (err error) {
	defer func() {
		if e := recover(); e != nil {
			if os.Getenv("STACK") != "" {
				debug.PrintStack()
			}
			p.r.fail("M01", "running a scenario panicked: %v", e)
		}
	}()
	return p.runner().RunSingleJSONScenario(path)
}

// pickClaim is the n-th claim that can be made false, or weakened: first what it is about, then which.
func pickClaim(t *mText, mode string, n uint64) (string, bool) {
	kinds := map[string][]string{}
	for _, c := range t.claims {
		if mode == "bad" && c.bad || mode == "soft" && c.soft {
			k := claimKind(c.path)
			kinds[k] = append(kinds[k], c.path)
		}
	}
	var ks []string
	for k := range kinds {
		ks = append(ks, k)
	}
	if len(ks) == 0 {
		return "", false
	}
	sort.Strings(ks)
	l := kinds[ks[n%uint64(len(ks))]]
	return l[n/uint64(len(ks))%uint64(len(l))], true
}

func (p *mandosRun) deviate(st *Step, good []*mStep, base *mText) {
	if st.Mode == "file" {
		p.fileFault(st, base)
		return
	}
	path, ok := pickClaim(base, st.Mode, st.N)
	if !ok {
		return
	}
	t := p.write(good, p.r.sc.Cfg.Mandos.Schedule, path, st.Mode)
	if t.devs != 1 {
		return
	}
	err := p.one(t)
	p.r.note("deviation %s %s %s: %v", st.Mode, path, t.how, err != nil)
	if st.Mode == "bad" && err == nil {
		p.r.fail("M01", "the scenario passed, but what it states about %s is false (%s: %s)", t.kind, path, t.how)
	}
	if st.Mode == "soft" && err != nil {
		p.r.fail("M01", "the scenario failed, but states nothing that is not so, and leaves open what it says about %s (%s): %v", t.kind, path, err)
	}
	p.r.stats.inc("deviations_" + st.Mode)
	p.r.stats.inc("deviation_" + st.Mode + "_" + t.kind)
}

func fileNames(files map[string][]byte) (ns []string) {
	for n := range files {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return
}

// fileFault runs the scenario with one of its files missing, cut short or not a file.
func (p *mandosRun) fileFault(st *Step, base *mText) {
	names := fileNames(base.files)
	name := names[st.N%uint64(len(names))]
	d := p.put(base.files)
	defer os.RemoveAll(d)
	path := filepath.Join(d, name)
	kind := st.N / uint64(len(names)) % 3
	isJSON := filepath.Ext(name) == ".json"
	if !isJSON && kind == 1 {
		kind = 0 // cut code is other code
	}
	must(os.Remove(path))
	what := "missing"
	switch kind {
	case 1:
		b := base.files[name]
		end := bytes.LastIndexByte(b, '}')
		must(os.WriteFile(path, b[:int(st.N/7)%(end+1)], 0600))
		what = "cut"
	case 2:
		must(os.Mkdir(path, 0700))
		what = "directory"
	}
	err := p.single(filepath.Join(d, "main.scen.json"))
	p.r.note("%s %s: %v", name, what, err != nil)
	if err == nil {
		p.r.fail("M01", "the scenario passed although its file %s could not be read (%s)", name, what)
	}
	p.r.stats.inc("fault_file_" + what)
}

// directory runs the scenario in a directory with others, one after another with the same executor.
func (p *mandosRun) directory(st *Step, good []*mStep, base *mText) {
	r := newRng(st.N)
	files := map[string][]byte{}
	var excluded []string
	pass := true
	n := 2 + r.Intn(2)
	for i := 0; i < n; i++ {
		dir := fmt.Sprintf("d%d", i)
		t := base
		switch k := r.Intn(6); {
		case k < 2:
			sched := []string{"", "dummy", "v1", "v2", "v3"}[r.Intn(5)]
			other, _, _ := p.reference(sched)
			t = p.write(other, sched, "", "")
		case k < 4:
			if path, ok := pickClaim(base, "bad", uint64(r.Intn(1<<20))); ok {
				t = p.write(good, p.r.sc.Cfg.Mandos.Schedule, path, "bad")
				switch r.Intn(3) {
				case 0:
					excluded = append(excluded, dir+"/*.scen.json")
				case 1:
					excluded = append(excluded, dir+"/main.scen.json")
				default:
					pass = false
				}
			}
		}
		for name, b := range t.files {
			files["sub/"+dir+"/"+name] = b
		}
	}
	for i := range excluded {
		excluded[i] = "sub/" + excluded[i]
	}
	d := p.put(files)
	defer os.RemoveAll(d)
	var err error
	func() {
		defer func() {
			if e := recover(); e != nil {
				p.r.fail("M01", "running a directory of scenarios panicked: %v", e)
			}
		}()
		err = p.runner().RunAllJSONScenariosInDirectory(d, "sub", ".scen.json", excluded)
	}()
	p.r.note("directory of %d: %v", n, err != nil)
	if pass != (err == nil) {
		p.r.fail("M01", "of a directory of %d scenarios that should %s: %v", n, map[bool]string{true: "all pass", false: "not all pass"}[pass], err)
	}
	p.r.stats.inc("directories")
}

// legacy runs the calls and deployments of the scenario as tests of the older format, all in one file.
func (p *mandosRun) legacy(st *Step) {
	m := newMRef(p.r, p.codes, "dummy")
	m.plain = true
	var sts []Step
	for _, s := range p.r.sc.Steps {
		if s.Kind == "setstate" && len(sts) == 0 || len(sts) > 0 && (s.Kind == "call" || s.Kind == "deploy") {
			sts = append(sts, s)
		}
	}
	if len(sts) == 0 {
		return
	}
	m.ids = []string{""}
	for _, k := range blockSizes(st.N, len(sts)-1) {
		for i := 0; i < k; i++ {
			m.ids = append(m.ids, fmt.Sprint(i)) // transactions are known by their place in the block
		}
	}
	steps, failed, _ := m.steps(append(sts, Step{Kind: "check"}), 0)
	if failed != nil {
		p.r.stats.inc("tests_unexecutable")
		return
	}
	r := newRng(st.N)
	n := 1 + r.Intn(2)
	write := func(dev, mode string, at int) *mText {
		t := &mText{seed: p.r.sc.Cfg.Mandos.Style, codes: p.codes, files: map[string][]byte{}, old: true, blocks: st.N}
		var top jmap
		for i := 0; i < n; i++ {
			t.dev, t.mode = "", ""
			if i == at {
				t.dev, t.mode = dev, mode
			}
			if i > 0 {
				t.seed++ // spelled otherwise
			}
			if dev == "" && i > 0 {
				t.claims = nil
			}
			top.add(fmt.Sprintf("test %d", i), t.test(steps, p.r.sc.Cfg.Mandos.CheckGas, ""))
		}
		var b bytes.Buffer
		writeJSON(&b, top, "")
		t.files["main.test.json"] = b.Bytes()
		return t
	}
	run := func(t *mText) (err error) {
		d := p.put(t.files)
		defer os.RemoveAll(d)
		defer func() {
			if e := recover(); e != nil {
				p.r.fail("M01", "running a test panicked: %v", e)
			}
		}()
		e, err := arwenmandos.NewArwenTestExecutor()
		must(err)
		tr := mc.NewTestRunner(e, mc.NewDefaultFileResolver())
		if st.N&64 == 0 {
			return tr.RunSingleJSONTest(filepath.Join(d, "main.test.json"))
		}
		return tr.RunAllJSONTestsInDirectory(d, "", ".test.json", nil)
	}
	base := write("", "", -1)
	if err := run(base); err != nil {
		p.r.fail("M01", "the test failed, but states nothing that is not so: %v", err)
	}
	p.r.stats.inc("tests_passed")
	for i := 0; i < 2; i++ {
		mode := "bad"
		if r.Intn(5) == 0 {
			mode = "soft"
		}
		path, ok := pickClaim(base, mode, uint64(r.Intn(1<<30)))
		if !ok {
			return
		}
		t := write(path, mode, n-1)
		if t.devs != 1 {
			continue
		}
		err := run(t)
		p.r.note("deviation of a test %s %s %s: %v", mode, path, t.how, err != nil)
		if mode == "bad" && err == nil {
			p.r.fail("M01", "the test passed, but what it states about %s is false (%s: %s)", t.kind, path, t.how)
		}
		if mode == "soft" && err != nil {
			p.r.fail("M01", "the test failed, but states nothing that is not so, and leaves open what it says about %s (%s): %v", t.kind, path, err)
		}
		p.r.stats.inc("deviations_of_tests")
	}
}
