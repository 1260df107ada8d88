package main

import (
	"bytes"
	"fmt"
	"math/big"
)

// Workloads of the scenario executor: scenarios over a few accounts and contracts, and what to falsify
// or break in them.

// mandosAddresses makes addresses that fit: contracts of the executor's VM type, and users that may have
// a name.
func (g *gen) mandosAddresses() {
	for _, c := range g.conts {
		c[8], c[9] = 0, 0
	}
	for i, u := range g.users {
		if g.p(40) {
			copy(u, bytes.Repeat([]byte{'_'}, 32))
			copy(u, fmt.Sprintf("user%d", i))
			if g.p(30) {
				copy(u, fmt.Sprintf("a user-with.a;name %d", i))
			}
		}
	}
}

func generateMandos(prop string, seed uint64) *Scenario {
	g := newGen(prop, seed)
	c := &g.sc.Cfg
	c.Shards, c.Sched, c.Diff, c.NoSave = 1, 0, false, false
	c.Mandos = &MandosCfg{CheckGas: g.p(60), Schedule: []string{"", "", "dummy", "dummy", "dummy", "v1", "v2", "v3"}[g.n(8)], Style: g.r.Uint64() >> 1}
	g.world()
	accts := g.sc.Accts
	g.sc.Accts = nil
	for i := range accts {
		g.mandosAcct(&accts[i])
	}
	g.sc.Steps = []Step{{Kind: "setstate", N: g.r.Uint64() >> 1, Accts: accts}}
	n := 2 + g.n(7)
	for i := 0; i < n; i++ {
		g.sc.Steps = append(g.sc.Steps, g.mandosStep(accts, 0))
	}
	g.sc.Steps = append(g.sc.Steps, Step{Kind: "check"})
	for i := 4 + g.n(4); i > 0; i-- {
		st := Step{Kind: "deviate", Mode: "bad", N: uint64(g.n(1 << 30))}
		switch g.n(10) {
		case 0, 1:
			st.Mode = "soft"
		case 2:
			st.Mode = "file"
		}
		g.sc.Steps = append(g.sc.Steps, st)
	}
	if g.p(20) {
		g.sc.Steps = append(g.sc.Steps, Step{Kind: "legacy", N: g.r.Uint64() >> 1})
	}
	if g.p(20) {
		g.sc.Steps = append(g.sc.Steps, Step{Kind: "directory", N: g.r.Uint64() >> 1})
	}
	return g.sc
}

func (g *gen) word(max int) []byte {
	b := make([]byte, 1+g.n(max))
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz0123456789_.@+* "[g.n(42)]
	}
	return b
}

// mandosAcct makes an account of a setState step.
func (g *gen) mandosAcct(a *AcctSpec) {
	a.Meta = nil
	if a.Prog == 0 {
		a.Balance = new(big.Int).Lsh(big.NewInt(1+int64(g.n(100))), uint(60+g.n(60))).String()
		if g.p(15) {
			a.Balance = fmt.Sprint(g.n(3000))
		}
	}
	if g.p(25) {
		a.User = g.word(12)
	}
	if g.p(10) {
		a.Async = string(g.word(12))
	}
	if a.Prog > 0 && g.p(20) {
		a.Owner = nil
	}
	if a.Prog == 0 && g.p(15) {
		a.Owner = g.pick(g.users)
	}
	var store []KV
	for _, kv := range a.Store {
		for _, o := range store {
			if bytes.Equal(o.K, kv.K) {
				kv.K = nil
			}
		}
		if len(kv.K) > 0 {
			store = append(store, kv)
		}
	}
	a.Store = store
	if g.p(10) {
		a.Store = append(a.Store, KV{g.word(10), g.word(10)})
	}
	for i := range a.Tokens {
		if g.p(60) {
			a.Tokens[i].Attr = 1 + g.r.Uint64()>>1
		}
	}
	if g.p(25) {
		t := TokenSpec{Name: []byte(fmt.Sprintf("ROLE-%02x%02x%02x", g.n(256), g.n(256), g.n(256))), Attr: 1 + g.r.Uint64()>>1}
		if g.p(50) {
			t.Nonce, t.Value = uint64(1+g.n(300)), int64(1+g.n(9))
			if g.p(50) {
				a.Tokens = append(a.Tokens, t)
				t.Nonce, t.Value = t.Nonce+uint64(1+g.n(300)), 0
			}
		}
		a.Tokens = append(a.Tokens, t)
	}
}

func (g *gen) mandosGas() uint64 {
	x := g.gas()
	if s := g.sc.Cfg.Mandos.Schedule; s != "dummy" && g.p(85) {
		x = x*1000 + uint64(g.n(1000))
	}
	return x
}

func (g *gen) mandosStep(accts []AcctSpec, depth int) Step {
	var st Step
	switch x := g.n(100); {
	case x < 50:
		st = g.callStep()
		if st.Func == "" || !printable([]byte(st.Func)) {
			st.Func = "f1"
		}
		if !g.hasAcct(accts, st.To) {
			st.To = g.pick(g.conts)
		}
		if g.p(15) {
			st.Kind, st.From, st.Value = "query", nil, ""
		}
	case x < 58:
		st = Step{Kind: "deploy", From: g.pick(g.users), Prog: 1 + g.n(len(g.sc.Progs))}
		if g.p(30) {
			st.Value = fmt.Sprint(g.n(300))
		}
		for _, a := range g.callArgs() {
			st.Args = append(st.Args, a)
		}
	case x < 68:
		st = Step{Kind: "transfer", From: g.pick(g.users), To: g.anyAddr(), Value: g.value().String()}
	case x < 73:
		st = Step{Kind: "reward", To: g.anyAddr(), Value: fmt.Sprint(g.n(100000))}
	case x < 81:
		st = Step{Kind: "check"}
	case x < 84:
		st = Step{Kind: "dump"}
	case x < 93:
		st = Step{Kind: "setstate", N: g.r.Uint64() >> 1}
		for k := g.n(3); k > 0; k-- {
			a := accts[g.n(len(accts))]
			a.Store = append([]KV{}, a.Store...)
			a.Tokens = append([]TokenSpec{}, a.Tokens...)
			if g.p(30) {
				x := AcctSpec{Addr: g.addr(0, false), Balance: fmt.Sprint(g.n(100))}
				a = x
			}
			a.Nonce = uint64(g.n(300))
			g.mandosAcct(&a)
			for i := range st.Accts {
				if bytes.Equal(st.Accts[i].Addr, a.Addr) {
					a.Addr = nil
				}
			}
			if a.Addr != nil {
				st.Accts = append(st.Accts, a)
			}
		}
	default:
		st = Step{Kind: "external", N: g.r.Uint64() >> 1}
		if depth < 2 {
			for k := 1 + g.n(3); k > 0; k-- {
				st.Sub = append(st.Sub, g.mandosStep(accts, depth+1))
			}
		}
	}
	switch st.Kind {
	case "call", "deploy", "transfer":
		st.Gas, st.N = g.mandosGas(), 0
		if g.p(30) {
			st.N = uint64(g.n(4))
		}
		if g.p(15) && st.Kind != "deploy" && st.Func != "ESDTTransfer" && g.hasAcct(accts, st.To) {
			for _, a := range accts {
				if bytes.Equal(a.Addr, st.From) && len(a.Tokens) > 0 {
					t := a.Tokens[g.n(len(a.Tokens))]
					t.Attr = 0
					t.Value = 1 + t.Value/int64(1+g.n(10))
					if g.p(90) {
						st.Value = ""
					}
					st.Tok = &t
				}
			}
		}
	}
	return st
}

func (g *gen) hasAcct(accts []AcctSpec, addr []byte) bool {
	for i := range accts {
		if bytes.Equal(accts[i].Addr, addr) {
			return true
		}
	}
	return false
}
