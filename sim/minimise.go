package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"time"
)

// clone copies a scenario.
func (sc *Scenario) clone() *Scenario {
	b, err := json.Marshal(sc)
	must(err)
	c := &Scenario{}
	must(json.Unmarshal(b, c))
	return c
}

// shrink makes a scenario smaller for as long as fails says that it still shows the same violation.
func shrink(sc *Scenario, end time.Time, fails func(*Scenario) bool) *Scenario {
	cur := sc.clone()
	try := func(f func(c *Scenario)) bool {
		if time.Now().After(end) {
			return false
		}
		c := cur.clone()
		f(c)
		if fails(c) {
			cur = c
			return true
		}
		return false
	}
	cutList := func(length func() int, del func(c *Scenario, from, to int)) bool {
		any := false
		for size := (length() + 1) / 2; size >= 1; size /= 2 {
			for from := 0; from < length(); {
				to := from + size
				if to > length() {
					to = length()
				}
				if try(func(c *Scenario) { del(c, from, to) }) {
					any = true
				} else {
					from += size
				}
				if time.Now().After(end) {
					return any
				}
			}
		}
		return any
	}
	for round := 0; round < 4; round++ {
		any := cutList(func() int { return len(cur.Steps) }, func(c *Scenario, a, b int) {
			c.Steps = append(append([]Step{}, c.Steps[:a]...), c.Steps[b:]...)
		})
		for i := range cur.Steps {
			for _, k := range keysOfInt(cur.Steps[i].Fault) {
				any = try(func(c *Scenario) { delete(c.Steps[i].Fault, k) }) || any
			}
			for _, k := range keysOfInt(cur.Steps[i].Engine) {
				any = try(func(c *Scenario) { delete(c.Steps[i].Engine, k) }) || any
			}
			if cur.Steps[i].Value != "" {
				any = try(func(c *Scenario) { c.Steps[i].Value = "" }) || any
			}
			any = cutList(func() int { return len(cur.Steps[i].Chan) }, func(c *Scenario, a, b int) {
				c.Steps[i].Chan = append(append([]ChanFault{}, c.Steps[i].Chan[:a]...), c.Steps[i].Chan[b:]...)
			}) || any
			any = cutList(func() int { return len(cur.Steps[i].Sub) }, func(c *Scenario, a, b int) {
				c.Steps[i].Sub = append(append([]Step{}, c.Steps[i].Sub[:a]...), c.Steps[i].Sub[b:]...)
			}) || any
			any = cutList(func() int { return len(cur.Steps[i].Accts) }, func(c *Scenario, a, b int) {
				c.Steps[i].Accts = append(append([]AcctSpec{}, c.Steps[i].Accts[:a]...), c.Steps[i].Accts[b:]...)
			}) || any
			for j := range cur.Steps[i].Accts {
				if len(cur.Steps[i].Accts[j].Store) > 0 {
					any = try(func(c *Scenario) { c.Steps[i].Accts[j].Store = nil }) || any
				}
				if len(cur.Steps[i].Accts[j].Tokens) > 0 {
					any = try(func(c *Scenario) { c.Steps[i].Accts[j].Tokens = nil }) || any
				}
			}
			if len(cur.Steps[i].Args) > 0 {
				any = try(func(c *Scenario) { c.Steps[i].Args = nil }) || any
			}
		}
		for p := range cur.Progs {
			for f := range cur.Progs[p].Funcs {
				any = cutList(func() int { return len(cur.Progs[p].Funcs[f].Ops) }, func(c *Scenario, a, b int) {
					o := c.Progs[p].Funcs[f].Ops
					c.Progs[p].Funcs[f].Ops = append(append([]Op{}, o[:a]...), o[b:]...)
				}) || any
			}
			any = cutList(func() int { return len(cur.Progs[p].Funcs) }, func(c *Scenario, a, b int) {
				o := c.Progs[p].Funcs
				c.Progs[p].Funcs = append(append([]Func{}, o[:a]...), o[b:]...)
			}) || any
		}
		any = cutList(func() int { return len(cur.Accts) }, func(c *Scenario, a, b int) {
			c.Accts = append(append([]AcctSpec{}, c.Accts[:a]...), c.Accts[b:]...)
		}) || any
		for i := range cur.Accts {
			if len(cur.Accts[i].Store) > 0 {
				any = try(func(c *Scenario) { c.Accts[i].Store = nil }) || any
			}
			if len(cur.Accts[i].Tokens) > 0 {
				any = try(func(c *Scenario) { c.Accts[i].Tokens = nil }) || any
			}
			if len(cur.Accts[i].Roles) > 0 {
				any = try(func(c *Scenario) { c.Accts[i].Roles = nil }) || any
			}
		}
		if round == 0 {
			any = try(func(c *Scenario) { c.Cfg.Diff = false }) || any
			any = try(func(c *Scenario) { c.Cfg.NoSave = false }) || any
			if cur.Cfg.Sched != 0 {
				any = try(func(c *Scenario) { c.Cfg.Sched = 0 }) || any
			}
		}
		if !any || time.Now().After(end) {
			break
		}
	}
	return cur
}

// minimise1 runs in a process of its own: it shrinks the scenario of a replay file.
func minimise1(in, out string, secs float64) {
	r := readReplay(in)
	kind := violKind(r.Message)
	var last *Violation
	r.Scenario = shrink(r.Scenario, time.Now().Add(time.Duration(secs*float64(time.Second))), func(c *Scenario) (ok bool) {
		v, _ := runGuarded(c)
		if v != nil && has(v.Props, r.Property) && violKind(v.Msg) == kind {
			last = v
			return true
		}
		return false
	})
	if last != nil {
		r.Message, r.Tags, r.Step = last.Msg, last.Props, last.Step
	}
	b, err := json.Marshal(r)
	must(err)
	must(os.WriteFile(out, b, 0644))
}

// runGuarded runs a scenario that may make no sense.
func runGuarded(c *Scenario) (v *Violation, h uint64) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	return runScenario(c, newStats(), false)
}

func (c *checker) minimise(r *Replay) {
	secs := 25.0
	if c.tier == "thorough" {
		secs = 90
	}
	if r.Crash {
		end := time.Now().Add(time.Duration(secs * float64(time.Second)))
		if len(r.Prelude) > 0 {
			return
		}
		r.Scenario = shrink(r.Scenario, end, func(s *Scenario) bool {
			x := *r
			x.Scenario = s
			_, died := isolated(&x)
			return died != ""
		})
		return
	}
	in, err := os.CreateTemp("", "simmin")
	must(err)
	defer os.Remove(in.Name())
	must(json.NewEncoder(in).Encode(r))
	in.Close()
	out := in.Name() + ".out"
	defer os.Remove(out)
	cmd := exec.Command(self(), "minimise1", in.Name(), out, fmt.Sprint(secs))
	if cmd.Start() != nil {
		return
	}
	t := time.AfterFunc(time.Duration(secs+30)*time.Second, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	t.Stop()
	if err != nil {
		return
	}
	m := readReplay(out)
	if v, _ := isolated(m); v != nil && has(v.Props, c.prop) {
		m.Message, m.Tags, m.Step = v.Msg, v.Props, v.Step
		*r = *m
	}
}
