package main

// Workloads of the IPC properties: few steps over the same worlds and programs, and faults at
// messages counted from the start of each step.

func generateChan(prop string, seed uint64) *Scenario {
	g := newGen(prop, seed)
	c := &g.sc.Cfg
	c.Shards = uint32(1 + g.n(8)/7)
	c.Diff, c.Warm = false, false
	c.Chan = &ChanCfg{Marsh: g.n(2), MaxLoop: []int{50, 200, 1000, 3000}[g.n(4)], Frag: g.n(3), Seed: g.r.Uint64() >> 1}
	c.Chan.Pipe = []int{0, 0, 0, 4096, 512, 64}[g.n(6)]
	g.world()
	n := 2 + g.n(4)
	for i := 0; i < n; i++ {
		st := g.chanStep()
		g.chanFaults(&st)
		g.sc.Steps = append(g.sc.Steps, st)
	}
	// once faults have stopped everything has to work again
	if prop != "I01" {
		st := g.callStep()
		g.sc.Steps = append(g.sc.Steps, st)
	}
	return g.sc
}

func (g *gen) chanStep() Step {
	x := g.n(100)
	var st Step
	switch {
	case x < 42:
		st = g.callStep()
	case x < 47:
		st = Step{Kind: "deploy", From: g.pick(g.users), Prog: 1 + g.n(len(g.sc.Progs)), Meta: g.meta(), Gas: g.gas()}
		for _, a := range g.callArgs() {
			st.Args = append(st.Args, a)
		}
	case x < 51 && g.sc.Cfg.Shards > 1:
		st = Step{Kind: "deliver", N: uint64(g.n(8))}
	case x < 70:
		st = Step{Kind: "probe", N: uint64(g.n(200)), Gas: g.r.Uint64() >> 1}
	case x < 73:
		st = Step{Kind: "block", N: uint64(g.n(20))}
		if g.sc.Cfg.Epochs != nil {
			st.N = uint64(g.n(60000))
		}
	case x < 75:
		st = Step{Kind: []string{"dropcache", "restart", "poison"}[g.n(3)], N: uint64(g.n(100))}
	case x < 78:
		st = Step{Kind: "version", N: uint64(g.n(100))}
	case x < 82:
		m := g.sc.Cfg.Chan.MaxLoop
		st = Step{Kind: "diagnose", N: uint64([]int{0, 1, m - 2, m - 1, m, m + 30, 2 * m, g.n(2 * m)}[g.n(8)])}
	case x < 87 || g.prop == "I03" && x < 90:
		st = Step{Kind: "schedule", N: g.schedule()}
		if g.p(25) {
			st.Mode = "bad"
		}
	case x < 93 || g.prop == "I03" && x < 97:
		st = g.parallelStep()
	default:
		st = g.callStep()
		if g.prop != "I01" {
			st = Step{Kind: []string{"vmkill", "vmstop", "close"}[g.n(3)], N: uint64(g.n(100))}
		}
	}
	if (st.Kind == "call" || st.Kind == "deploy" || st.Kind == "deliver") && g.p(20) {
		st.Fault = map[string]int{faultServices[g.n(len(faultServices))]: 1 + g.n(4)}
	}
	return st
}

func (g *gen) parallelStep() Step {
	st := Step{Kind: "parallel", N: uint64(g.n(100))}
	for k := 2 + g.n(3); k > 0; k-- {
		switch g.n(6) {
		case 0:
			st.Sub = append(st.Sub, Step{Kind: "schedule", N: g.schedule()})
		case 1:
			st.Sub = append(st.Sub, Step{Kind: "version"})
		default:
			q := g.callStep()
			q.Value = ""
			if len(q.Func) > 2 {
				q.Func = funcNames[g.n(len(funcNames))]
			}
			st.Sub = append(st.Sub, q)
		}
	}
	return st
}

var chanFaultKinds = []string{"kill", "kill", "stop", "ioerr", "drop", "dup", "dup", "rogue", "answer", "junk", "delay", "rerr", "start", "pid", "lag", "nodecrash", "slow"}

func (g *gen) chanFaults(st *Step) {
	max := g.sc.Cfg.Chan.MaxLoop
	n := 0
	switch {
	case g.prop == "I01":
		if g.p(30) {
			n = 1 + g.n(3)
		}
	case g.prop == "I02" && g.p(75), g.p(45):
		n = 1 + g.n(2)
	}
	budget := max - 10
	for ; n > 0; n-- {
		f := ChanFault{Kind: chanFaultKinds[g.n(len(chanFaultKinds))], At: sideNames0[g.n(2)]}
		if g.prop == "I01" || g.prop == "I03" && g.p(25) {
			f.Kind = "delay"
		}
		if g.prop == "I03" && g.p(8) {
			f.Kind = "slow"
		}
		switch x := g.n(10); {
		case x < 4:
			f.N = g.n(6)
		case x < 8:
			f.N = g.n(30)
		default:
			f.N = g.n(200)
		}
		switch f.Kind {
		case "kill", "stop", "ioerr":
			if f.Kind == "stop" {
				f.At = "vm"
			}
			switch g.n(5) {
			case 0:
				f.V = -1
			case 1:
				f.V = 0
			case 2:
				f.V = int64(1 + g.n(8))
			default:
				f.V = int64(8 + g.n(300))
			}
			if f.Kind == "ioerr" && f.V < 0 {
				f.V = 0
			}
		case "answer":
			f.At, f.N, f.V = "vm", -1, int64(g.n(4))
		case "rogue", "junk":
			f.V = int64(g.n(74))
			if g.p(20) {
				f.V = int64(g.r.Uint32())
			}
		case "delay":
			f.V = int64(1 + g.n(1+max*3/2))
			if g.prop == "I01" {
				f.V = int64(1 + g.n(1+budget/4))
			}
			if f.At == "vm" && g.p(50) {
				f.V = int64(max - 8 + g.n(16))
				if g.prop == "I01" {
					f.V = int64(budget / 4)
				}
			}
		case "start":
			f.At = ""
			f.N = g.n(3)
			f.V = int64(1 + g.n(7))
		case "slow":
			f.At = "vm"
			f.V = int64(1 + g.n(max/2))
			f.N = g.n(6)
		case "pid", "lag":
			f.At = ""
			f.V = int64(g.n(2 * max))
		case "nodecrash":
			f.At = "node"
			if !g.p(30) {
				f.Kind, f.V = "kill", int64(g.n(12))
			}
		}
		st.Chan = append(st.Chan, f)
	}
}

var sideNames0 = []string{"node", "vm"}
