package main

import (
	"fmt"
	"math/big"
)

// Workloads of the debugger: sessions over a few worlds, with faults at the operations on the disk.

// debugAddresses makes the contracts those that the debugger creates for the users.
func (g *gen) debugAddresses() {
	g.nonces = map[string]uint64{}
	for i := range g.conts {
		u := g.pick(g.users)
		n := uint64(g.n(4))
		if g.p(10) {
			n = uint64(g.n(1000))
		}
		a := make([]byte, 32)
		copy(a[10:], []byte{0x11, 0x11, 0x11, 0x11})
		copy(a[14:29], u)
		a[29] = byte(n)
		copy(a[30:], u[30:])
		g.conts[i] = a
		g.nonces[string(a)] = n
		g.creators = append(g.creators, u)
	}
}

func generateDisk(prop string, seed uint64) *Scenario {
	g := newGen(prop, seed)
	c := &g.sc.Cfg
	c.Shards, c.Sched, c.Diff, c.NoSave = 1, 0, false, false
	c.Disk = &DiskCfg{Seed: g.r.Uint64() >> 1, Once: g.p(30), HTTP: g.p(50)}
	g.world()
	g.sc.Accts = nil
	main := g.diskMode()
	for i := range g.conts {
		if g.p(75) {
			g.sc.Steps = append(g.sc.Steps, g.diskDeploy(i, main)...)
		}
	}
	n := 3 + g.n(8)
	for i := 0; i < n; i++ {
		var st Step
		if g.p(10) && !c.Disk.Once {
			st = Step{Kind: "parallel"}
			for k := 2 + g.n(2); k > 0; k-- {
				s := g.diskStep(main)
				s.Type = 0
				st.Sub = append(st.Sub, s)
			}
		} else if g.p(10) {
			st = Step{Kind: "restart"}
		} else if g.p(10) {
			g.sc.Steps = append(g.sc.Steps, g.diskDeploy(g.n(len(g.conts)), g.place(main))...)
			continue
		} else {
			st = g.diskStep(main)
		}
		g.sc.Steps = append(g.sc.Steps, st)
	}
	for i := range g.sc.Steps {
		if st := &g.sc.Steps[i]; st.Kind != "restart" && g.p(30) {
			g.diskFaults(st)
		}
	}
	return g.sc
}

func (g *gen) diskMode() string { return fmt.Sprintf("%d%d", g.n(4), g.n(4)) }

// place is the main world, by one of its names, or another one.
func (g *gen) place(main string) string {
	if g.p(15) {
		return g.diskMode()
	}
	d, w := main[0], main[1]
	if d != '3' {
		d = byte('0' + g.n(3))
	}
	if w < '2' {
		w = byte('0' + g.n(2))
	}
	return string([]byte{d, w})
}

// diskDeploy makes a contract at its address.
func (g *gen) diskDeploy(i int, place string) []Step {
	nonce := g.nonces[string(g.conts[i])] + 1
	if nonce == 1 && g.p(50) {
		nonce = 0
	}
	a := Step{Kind: "account", To: g.creators[i], N: nonce, Value: g.diskBalance(), Mode: place, Type: g.outcome()}
	d := Step{Kind: "deploy", From: g.creators[i], Prog: g.contPr[i] + 1, Meta: g.meta(), Gas: uint64(1000000 + g.n(1000000)), Mode: place, Type: g.outcome()}
	if g.p(20) {
		d.Meta = nil
	}
	if g.p(30) {
		d.Value = fmt.Sprint(g.n(300))
	}
	for _, x := range g.callArgs() {
		d.Args = append(d.Args, x)
	}
	return []Step{a, d}
}

func (g *gen) diskBalance() string {
	if g.p(20) {
		return new(big.Int).Lsh(big.NewInt(int64(1+g.n(100))), uint(g.n(200))).String()
	}
	return fmt.Sprint(g.n(1000000))
}

func (g *gen) outcome() int {
	if g.p(30) {
		return 1 + g.n(2)
	}
	return 0
}

func (g *gen) diskStep(main string) Step {
	var st Step
	switch x := g.n(100); {
	case x < 55:
		st = g.callStep()
	case x < 70:
		st = g.callStep()
		st.Kind = "query"
	case x < 80:
		a := g.addr(0, g.p(20))
		if g.p(60) {
			a = g.anyAddr()
		}
		st = Step{Kind: "account", To: a, Value: g.diskBalance(), N: uint64(g.n(300))}
	case x < 88:
		i := g.n(len(g.conts))
		st = Step{Kind: "upgrade", From: g.creators[i], To: g.conts[i], Prog: 1 + g.n(len(g.sc.Progs)), Meta: g.meta(), Gas: g.gas()}
		if g.p(20) {
			st.From = g.pick(g.users)
		}
		if g.p(20) {
			st.Meta = nil
		}
		for _, a := range g.callArgs() {
			st.Args = append(st.Args, a)
		}
	case x < 94:
		st = Step{Kind: "deploy", From: g.pick(g.users), Prog: 1 + g.n(len(g.sc.Progs)), Meta: g.meta(), Gas: g.gas()}
	default:
		st = Step{Kind: "bad", From: g.pick(g.users), To: g.pick(g.conts), Prog: 1, Gas: 1000, Value: "1", Locked: uint64(g.n(150)), Func: "f0"}
	}
	if st.Gas == 0 {
		st.Gas = 1
	}
	st.Mode, st.Type = g.place(main), g.outcome()
	if (st.Kind == "call" || st.Kind == "query" || st.Kind == "deploy") && g.p(10) {
		st.N = uint64(1 + g.n(100000))
	}
	return st
}

func (g *gen) diskFaults(st *Step) {
	for k := 1 + g.n(6)/5; k > 0; k-- {
		f := ChanFault{Kind: []string{"crash", "crash", "power", "power", "ioerr", "ioerr", "full"}[g.n(7)], N: g.n(12)}
		if st.Kind == "parallel" {
			f.N = g.n(36)
		}
		switch g.n(4) {
		case 0:
			f.V = -1
		case 1:
			f.V = 0
		case 2:
			f.V = int64(1 + g.n(100))
		default:
			f.V = int64(g.n(100000))
		}
		if f.Kind == "full" && f.V < 0 {
			f.V = 0
		}
		st.Chan = append(st.Chan, f)
	}
}
