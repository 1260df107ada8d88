package main

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	worldmock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/world"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/builtInFunctions"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
)

// How a test scenario is written: every value in one of the notations it may have, every expectation
// exactly, weakened or left out, and, in a deviation, one of the expectations false.

// jv is a JSON value: a string, a list, a map or a bool.
type jv interface{}

type jkv struct {
	k string
	v jv
}

type jmap []jkv
type jlist []jv

func (m *jmap) add(k string, v jv) { *m = append(*m, jkv{k, v}) }

func writeJSON(b *bytes.Buffer, v jv, ind string) {
	switch x := v.(type) {
	case string:
		b.WriteString(`"` + x + `"`)
	case bool:
		fmt.Fprintf(b, "%v", x)
	case jlist:
		b.WriteByte('[')
		for i, y := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString("\n" + ind + " ")
			writeJSON(b, y, ind+" ")
		}
		b.WriteString("\n" + ind + "]")
	case jmap:
		b.WriteByte('{')
		for i, y := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString("\n" + ind + ` "` + y.k + `": `)
			writeJSON(b, y.v, ind+" ")
		}
		b.WriteString("\n" + ind + "}")
	default:
		panic(fmt.Sprintf("%T in JSON", v))
	}
}

// claim is one thing a scenario states.
type claim struct {
	path string
	bad  bool // it can be made false
	soft bool // it can be weakened
}

// mText writes a scenario.
type mText struct {
	seed   uint64
	claims []claim
	dev    string // the path of the claim that is written differently
	mode   string // bad or soft
	devs   int    // how often that was done
	kind   string // what the deviating claim is about
	how    string // what was done
	files  map[string][]byte
	codes  [][]byte
	nfile  int
	checks bool
	blocks uint64
	old    bool // the older format, of tests
}

func hash2(a uint64, s string) uint64 {
	h := a ^ 14695981039346656037
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	return h ^ h>>32
}

func (t *mText) rng(path string) *rand.Rand { return newRng(hash2(t.seed, path) >> 1) }

// state of a claim: written exactly, weakened, or false
const (
	exact = iota
	weak
	wrong
)

// claimKind is what a claim is about.
func claimKind(path string) string {
	k := path[strings.LastIndexByte(path, '/')+1:]
	if i := strings.IndexByte(k, ':'); i > 0 {
		k = k[:i]
	}
	return k
}

// claim registers a claim and says how to write it.
func (t *mText) claim(path string, canBad, canSoft bool) int {
	t.claims = append(t.claims, claim{path, canBad, canSoft})
	if path == t.dev {
		t.devs++
		t.kind = claimKind(path)
		if t.mode == "bad" && canBad {
			return wrong
		}
		if t.mode == "soft" && canSoft {
			return weak
		}
	}
	// weakened now and then, but never what deviates elsewhere needs: every path draws for itself
	if canSoft && hash2(t.seed^77, path)%100 < 15 && !strings.HasPrefix(t.dev, path) {
		return weak
	}
	return exact
}

func printable(b []byte) bool {
	for _, c := range b {
		if c < 32 || c > 126 || c == '"' || c == '\\' || c == '|' {
			return false
		}
	}
	return true
}

func group(s string, r *rand.Rand) string {
	if r.Intn(3) > 0 {
		return s
	}
	sep := []string{",", "_"}[r.Intn(2)]
	out := ""
	for i, c := range s {
		if i > 0 && (len(s)-i)%3 == 0 {
			out += sep
		}
		out += string(c)
	}
	return out
}

// num writes a number.
func (t *mText) num(path string, v *big.Int) string {
	r := t.rng(path + "#n")
	switch r.Intn(8) {
	case 0:
		return fmt.Sprintf("0x%x", v)
	case 1:
		if v.BitLen() < 20 {
			return fmt.Sprintf("0b%b", v)
		}
	case 2:
		if v.IsUint64() {
			return fmt.Sprintf("u64:%d", v)
		}
	case 3:
		if v.Sign() == 0 {
			return ""
		}
	}
	return group(v.String(), r)
}

func (t *mText) u64(path string, v uint64) string { return t.num(path, new(big.Int).SetUint64(v)) }

// byt writes bytes as a string.
func (t *mText) byt(path string, v []byte) string {
	r := t.rng(path + "#b")
	return byteText(r, v, 0)
}

func byteText(r *rand.Rand, v []byte, depth int) string {
	if len(v) == 0 {
		return []string{"", "0x", "str:", "false", "0"}[r.Intn(5)]
	}
	switch r.Intn(9) {
	case 0, 1:
		if printable(v) {
			return []string{"str:", "``", "''"}[r.Intn(3)] + string(v)
		}
	case 2:
		if v[0] != 0 && len(v) < 40 {
			return group(new(big.Int).SetBytes(v).String(), r)
		}
	case 3:
		n := new(big.Int).SetBytes(v)
		switch len(v) {
		case 1, 2, 4, 8:
			return fmt.Sprintf("u%d:%s", 8*len(v), n)
		}
	case 4:
		if len(v) > 1 && depth < 2 {
			k := 1 + r.Intn(len(v)-1)
			return byteText(r, v[:k], depth+1) + "|" + byteText(r, v[k:], depth+1)
		}
	case 5:
		if len(v) == 32 && printable(v) && v[31] == '_' {
			if name := strings.TrimRight(string(v), "_"); name != "" && !strings.Contains(name, "#") {
				return "address:" + name
			}
		}
	case 6:
		if len(v) >= 4 && depth == 0 && new(big.Int).SetBytes(v[:4]).Cmp(big.NewInt(int64(len(v)-4))) == 0 {
			return "nested:0x" + hexs(v[4:])
		}
	case 7:
		if bytes.Equal(v, []byte{1}) {
			return "true"
		}
	}
	return "0x" + hexs(v)
}

// tree writes bytes where lists and maps are allowed.
func (t *mText) tree(path string, v []byte) jv {
	r := t.rng(path + "#t")
	if len(v) > 1 && r.Intn(8) == 0 {
		k := 1 + r.Intn(len(v)-1)
		a, b := byteText(r, v[:k], 0), byteText(r, v[k:], 0)
		if r.Intn(2) == 0 {
			return jlist{a, b}
		}
		return jmap{{"1-first", a}, {"2-second", b}}
	}
	return t.byt(path, v)
}

// otherNum is a number that is not v.
func otherNum(r *rand.Rand, v *big.Int) *big.Int {
	for {
		var w *big.Int
		switch r.Intn(6) {
		case 0:
			w = new(big.Int).Sub(v, big.NewInt(1))
		case 1:
			w = new(big.Int)
		case 2:
			w = new(big.Int).Lsh(v, 8)
		case 3:
			w = new(big.Int).Add(v, new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(64))))
		default:
			w = new(big.Int).Add(v, big.NewInt(1))
		}
		if w.Sign() >= 0 && w.Cmp(v) != 0 {
			return w
		}
	}
}

func otherU64(r *rand.Rand, v uint64) uint64 {
	for {
		w := otherNum(r, new(big.Int).SetUint64(v))
		if w.IsUint64() {
			return w.Uint64()
		}
	}
}

// otherBytes is bytes that are not v.
func otherBytes(r *rand.Rand, v []byte) []byte {
	for {
		var w []byte
		switch r.Intn(6) {
		case 0:
			w = append(append(w, v...), byte(r.Intn(256)))
		case 1:
			if len(v) > 0 {
				w = append(w, v[:len(v)-1]...)
			}
		case 2:
			w = append([]byte{0}, v...)
		case 3:
			if len(v) > 0 {
				w = append(w, v[1:]...)
			}
		case 4:
		default:
			w = append(w, v...)
			if len(w) > 0 {
				w[r.Intn(len(w))] ^= 1 << uint(r.Intn(8))
			}
		}
		if !bytes.Equal(w, v) {
			return w
		}
	}
}

// numClaim states a number. whenLeftOut says whether leaving it out states the same (0), is allowed.
func (t *mText) numClaim(m *jmap, path, key string, v *big.Int, zeroByDefault, free bool) {
	p := path + "/" + key
	r := t.rng(p + "#c")
	switch t.claim(p, true, true) {
	case weak:
		if free && r.Intn(2) == 0 {
			return
		}
		m.add(key, "*")
	case wrong:
		w := otherNum(r, v)
		if zeroByDefault && v.Sign() != 0 && r.Intn(4) == 0 {
			t.how = "left out"
			return
		}
		t.how = fmt.Sprintf("%v instead of %v", w, v)
		m.add(key, t.num(p, w))
	default:
		if zeroByDefault && v.Sign() == 0 && r.Intn(3) == 0 {
			return
		}
		m.add(key, t.num(p, v))
	}
}

func (t *mText) u64Claim(m *jmap, path, key string, v uint64, zeroByDefault, free bool, max uint64) {
	p := path + "/" + key
	r := t.rng(p + "#c")
	switch t.claim(p, true, true) {
	case weak:
		if free && r.Intn(2) == 0 {
			return
		}
		m.add(key, "*")
	case wrong:
		w := otherU64(r, v)
		for w > max {
			w = otherU64(r, w) % (max + 1)
			if w == v {
				w = max + 1
			}
		}
		if zeroByDefault && v != 0 && r.Intn(4) == 0 {
			t.how = "left out"
			return
		}
		t.how = fmt.Sprintf("%d instead of %d", w, v)
		m.add(key, t.u64(p, w))
	default:
		if zeroByDefault && v == 0 && r.Intn(3) == 0 {
			return
		}
		m.add(key, t.u64(p, v))
	}
}

func (t *mText) bytesClaim(m *jmap, path, key string, v []byte, emptyByDefault, free bool) {
	p := path + "/" + key
	r := t.rng(p + "#c")
	switch t.claim(p, true, true) {
	case weak:
		if free && r.Intn(2) == 0 {
			return
		}
		m.add(key, "*")
	case wrong:
		if emptyByDefault && len(v) > 0 && r.Intn(4) == 0 {
			t.how = "left out"
			return
		}
		w := otherBytes(r, v)
		t.how = fmt.Sprintf("%x instead of %x", w, v)
		m.add(key, t.tree(p, w))
	default:
		if emptyByDefault && len(v) == 0 && r.Intn(3) > 0 {
			return
		}
		m.add(key, t.tree(p, v))
	}
}

// --- files and steps

func (t *mText) file(name string, steps []*mStep, checkGas bool, schedule string, path string) {
	var top jmap
	r := t.rng(path + "#top")
	if r.Intn(2) == 0 {
		top.add("name", "scenario "+name)
	}
	if r.Intn(3) == 0 {
		top.add("comment", "made by the simulator")
	}
	if !checkGas || r.Intn(2) == 0 {
		top.add("checkGas", checkGas)
	}
	if schedule != "" {
		top.add("gasSchedule", schedule)
	}
	old := t.checks
	t.checks = checkGas
	list := jlist{}
	for i, s := range steps {
		if j := t.step(s, fmt.Sprintf("%s/%d", path, i)); j != nil {
			list = append(list, j)
		}
	}
	t.checks = old
	top.add("steps", list)
	var b bytes.Buffer
	writeJSON(&b, top, "")
	t.files[name] = b.Bytes()
}

// blockSizes divides transactions into blocks.
func blockSizes(seed uint64, n int) (l []int) {
	r := newRng(seed)
	for n > 0 {
		k := 1 + r.Intn(3)
		if k > n {
			k = n
		}
		l = append(l, k)
		n -= k
	}
	return
}

// test writes a test: its first step sets the accounts, its last one checks them, between are transactions.
func (t *mText) test(steps []*mStep, checkGas bool, path string) jmap {
	r := t.rng(path + "#top")
	var m jmap
	if !checkGas || r.Intn(2) == 0 {
		m.add("checkGas", checkGas)
	}
	if r.Intn(3) == 0 {
		m.add("network", "simulated")
	}
	t.checks = checkGas
	var set jmap
	t.setState(&set, steps[0], path+"/0")
	for _, e := range set {
		switch e.k {
		case "accounts":
			m.add("pre", e.v)
		default:
			m.add(e.k, e.v)
		}
	}
	blocks := jlist{}
	i := 1
	for _, n := range blockSizes(t.blocks, len(steps)-2) {
		txs, results := jlist{}, jlist{}
		for ; n > 0; n-- {
			p := fmt.Sprintf("%s/%d", path, i)
			txs = append(txs, t.tx(steps[i], p))
			results = append(results, t.expect(steps[i].res, p+"/expect"))
			i++
		}
		b := jmap{{"transactions", txs}, {"results", results}}
		if r.Intn(3) == 0 {
			b.add("blockHeader", jmap{{"gasLimit", "100000"}, {"number", "7"}, {"difficulty", "1"}, {"timestamp", "12"}, {"coinbase", "3"}})
		}
		blocks = append(blocks, shuffled(r, b))
	}
	m.add("blocks", blocks)
	m.add("postState", t.check(steps[len(steps)-1], fmt.Sprintf("%s/%d", path, len(steps)-1)))
	return m
}

var mandosStepNames = map[string]string{"setstate": "setState", "check": "checkState", "dump": "dumpState", "external": "externalSteps",
	"call": "scCall", "deploy": "scDeploy", "query": "scQuery", "transfer": "transfer", "reward": "validatorReward"}

func (t *mText) codeFile(c []byte) string {
	for i, o := range t.codes {
		if bytes.Equal(o, c) {
			n := fmt.Sprintf("code%d.wasm", i)
			t.files[n] = c
			return "file:" + n
		}
	}
	return "0x" + hexs(c)
}

func (t *mText) step(s *mStep, path string) jv {
	r := t.rng(path + "#s")
	m := jmap{{"step", mandosStepNames[s.st.Kind]}}
	if r.Intn(6) == 0 {
		m.add("comment", "a comment")
	}
	switch s.st.Kind {
	case "setstate":
		t.setState(&m, s, path)
	case "check":
		m.add("accounts", t.check(s, path))
	case "external":
		t.nfile++
		name := fmt.Sprintf("part%d.steps.json", t.nfile)
		sched := ""
		if r.Intn(2) == 0 {
			sched = []string{"v1", "v2", "dummy"}[r.Intn(3)]
		}
		t.file(name, s.sub, s.gas, sched, path)
		m.add("path", []string{"", "./"}[r.Intn(2)]+name)
	case "dump":
	default:
		m.add("txId", s.id)
		m.add("tx", t.tx(s, path))
		if s.res != nil && s.st.Kind != "transfer" && s.st.Kind != "reward" && r.Intn(12) > 0 {
			m.add("expect", t.expect(s.res, path+"/expect"))
		}
	}
	return m
}

func (t *mText) tx(s *mStep, path string) jv {
	st := s.st
	var m jmap
	if st.Kind != "reward" && st.Kind != "query" {
		m.add("from", t.byt(path+"/from", st.From))
	}
	if t.old && st.Kind == "deploy" {
		m.add("to", "") // what tells a deployment
	}
	if st.Kind != "deploy" {
		m.add("to", t.byt(path+"/to", st.To))
	}
	if st.Kind == "call" || st.Kind == "query" {
		m.add("function", st.Func)
	}
	if st.Kind != "query" && (bigOf(st.Value).Sign() > 0 || t.rng(path+"#v").Intn(2) == 0) {
		m.add("value", t.num(path+"/value", bigOf(st.Value)))
	}
	if st.Tok != nil {
		e := jmap{{"tokenIdentifier", t.byt(path+"/token", st.Tok.Name)}, {"value", t.u64(path+"/amount", uint64(st.Tok.Value))}}
		if st.Tok.Nonce > 0 {
			e.add("nonce", t.u64(path+"/tnonce", st.Tok.Nonce))
		}
		m.add("esdt", e)
	}
	if st.Kind == "deploy" {
		m.add("contractCode", t.codeFile(t.codes[(st.Prog-1+len(t.codes))%len(t.codes)]))
	}
	if st.Kind == "call" || st.Kind == "query" || st.Kind == "deploy" {
		args := jlist{}
		for i, a := range st.Args {
			args = append(args, t.tree(fmt.Sprintf("%s/arg%d", path, i), a))
		}
		m.add("arguments", args)
	}
	if st.Kind != "reward" && st.Kind != "query" {
		m.add("gasLimit", t.u64(path+"/gas", st.Gas))
		m.add("gasPrice", t.u64(path+"/price", st.N))
	}
	return m
}

func (t *mText) expect(res *mRes, path string) jv {
	var m jmap
	r := t.rng(path + "#e")
	p := path + "/out"
	switch t.claim(p, true, false) {
	case wrong:
		l := append([][]byte{}, res.out...)
		i, j := 0, 0
		if len(l) > 1 {
			i, j = r.Intn(len(l)), r.Intn(len(l))
		}
		switch {
		case r.Intn(3) == 0:
			l = append(l, []byte{byte(r.Intn(2))}[:r.Intn(2)])
			t.how = "one more"
		case len(l) > 0 && r.Intn(2) == 0:
			l = l[:len(l)-1]
			t.how = "one less"
		case len(l) > 1 && !bytes.Equal(l[i], l[j]) && r.Intn(2) == 0:
			l[i], l[j] = l[j], l[i]
			t.how = "exchanged"
		case len(l) > 0:
			l[i] = otherBytes(r, l[i])
			t.how = fmt.Sprintf("%x instead of %x", l[i], res.out[i])
		default:
			l = append(l, []byte{})
			t.how = "one more, empty"
		}
		m.add("out", t.list(p, l))
	default:
		if len(res.out) > 0 || r.Intn(2) == 0 {
			l := t.list(p, res.out)
			for i := range l {
				if hash2(t.seed, fmt.Sprint(p, i))%100 < 10 {
					l[i] = "*"
				}
			}
			m.add("out", l)
		}
	}
	t.numClaim(&m, path, "status", big.NewInt(int64(res.code)), true, false)
	t.bytesClaim(&m, path, "message", []byte(res.msg), true, false)
	if !printable([]byte(res.msg)) {
		for i := range m {
			if m[i].k == "message" && m[i].v != "*" && t.dev != path+"/message" {
				m[i].v = "0x" + hexs([]byte(res.msg))
			}
		}
	}
	t.numClaim(&m, path, "refund", res.refund, true, false)
	if t.checks {
		t.u64Claim(&m, path, "gas", res.gas, false, true, ^uint64(0))
	} else if r.Intn(2) == 0 {
		m.add("gas", t.u64(path+"/gas", otherU64(r, res.gas))) // not looked at
	}
	logs := path + "/logs"
	if len(res.logs) == 0 {
		logs = path + "/nologs" // the more interesting claims are not drowned by these
	}
	switch t.claim(logs, true, true) {
	case weak:
		if r.Intn(2) == 0 {
			m.add("logs", "*")
		}
	case wrong:
		l := append([]*vmcommon.LogEntry{}, res.logs...)
		i := 0
		if len(l) > 0 {
			i = r.Intn(len(l))
			c := *l[i]
			c.Topics = append([][]byte{}, c.Topics...)
			l[i] = &c
		}
		k := r.Intn(8)
		if len(l) == 0 {
			k = 0
		}
		t.how = fmt.Sprintf("change %d of entry %d of %d", k, i, len(l))
		switch k {
		case 0:
			l = append(l, &vmcommon.LogEntry{Identifier: []byte("nothing"), Address: make([]byte, 32)})
		case 1:
			l = l[:len(l)-1]
		case 2:
			l[i].Address = otherBytes(r, l[i].Address)
		case 3:
			l[i].Identifier = otherBytes(r, l[i].Identifier)
		case 4:
			l[i].Data = otherBytes(r, l[i].Data)
		case 5:
			l[i].Topics = append(l[i].Topics, []byte{})
		case 6:
			if n := len(l[i].Topics); n > 0 {
				l[i].Topics = l[i].Topics[:n-1]
			} else {
				l[i].Data = otherBytes(r, l[i].Data)
			}
		default:
			if n := len(l[i].Topics); n > 0 {
				j := r.Intn(n)
				l[i].Topics[j] = otherBytes(r, l[i].Topics[j])
			} else {
				l[i].Address = otherBytes(r, l[i].Address)
			}
		}
		m.add("logs", t.logs(path+"/logs", l))
	default:
		m.add("logs", t.logs(path+"/logs", res.logs))
	}
	return shuffled(r, m)
}

func shuffled(r *rand.Rand, m jmap) jmap {
	if r.Intn(2) == 0 {
		return m
	}
	out := make(jmap, len(m))
	for i, k := range r.Perm(len(m)) {
		out[i] = m[k]
	}
	return out
}

func (t *mText) list(path string, l [][]byte) jlist {
	out := jlist{}
	for i, v := range l {
		out = append(out, t.tree(fmt.Sprintf("%s/%d", path, i), v))
	}
	return out
}

func (t *mText) logs(path string, l []*vmcommon.LogEntry) jlist {
	out := jlist{}
	for i, e := range l {
		p := fmt.Sprintf("%s/%d", path, i)
		out = append(out, jmap{{"address", t.tree(p+"a", e.Address)}, {"identifier", t.tree(p+"i", e.Identifier)}, {"topics", t.list(p+"t", e.Topics)}, {"data", t.tree(p+"d", e.Data)}})
	}
	return out
}

func (t *mText) block(path string, b *mBlock) jv {
	m := jmap{{"blockNonce", t.u64(path+"n", b.nonce)}, {"blockRound", t.u64(path+"r", b.round)}, {"blockTimestamp", t.u64(path+"t", b.time)}, {"blockEpoch", t.u64(path+"e", b.epoch)}}
	if !bytes.Equal(b.seed, make([]byte, 48)) || t.rng(path).Intn(2) == 0 {
		m.add("blockRandomSeed", t.tree(path+"s", b.seed))
	}
	return m
}

func (t *mText) setState(m *jmap, s *mStep, path string) {
	var accts jmap
	for i := range s.st.Accts {
		a := &s.st.Accts[i]
		p := fmt.Sprintf("%s/a%d", path, i)
		var x jmap
		if a.Nonce > 0 {
			x.add("nonce", t.u64(p+"/nonce", a.Nonce))
		}
		x.add("balance", t.num(p+"/balance", bigOf(a.Balance)))
		if len(a.User) > 0 {
			x.add("username", t.byt(p+"/user", a.User))
		}
		if a.Prog > 0 {
			x.add("code", t.codeFile(t.codes[(a.Prog-1+len(t.codes))%len(t.codes)]))
		}
		if len(a.Owner) > 0 {
			x.add("owner", t.byt(p+"/owner", a.Owner))
		}
		if a.Async != "" {
			x.add("asyncCallData", a.Async)
		}
		if len(a.Store) > 0 {
			var kv jmap
			for j, e := range a.Store {
				kv.add(t.byt(fmt.Sprintf("%s/k%d", p, j), e.K), t.tree(fmt.Sprintf("%s/v%d", p, j), e.V))
			}
			x.add("storage", uniqueKeys(kv))
		}
		if names, groups := tokenGroups(a); len(names) > 0 {
			var e jmap
			for _, n := range names {
				e.add(t.byt(p+"/esdt"+hexs([]byte(n)), []byte(n)), t.setToken(p+"/"+hexs([]byte(n)), groups[n]))
			}
			x.add("esdt", e)
		}
		accts.add(t.byt(p+"/addr", a.Addr), shuffled(t.rng(p+"#o"), x))
	}
	if len(accts) > 0 {
		m.add("accounts", uniqueKeys(accts))
	}
	if len(s.set.mocks) > 0 {
		l := jlist{}
		for i, n := range s.set.mocks {
			p := fmt.Sprintf("%s/m%d", path, i)
			l = append(l, jmap{{"creatorAddress", t.byt(p+"c", n.creator)}, {"creatorNonce", t.u64(p+"n", n.nonce)}, {"newAddress", t.byt(p+"a", n.addr)}})
		}
		m.add("newAddresses", l)
	}
	if s.set.prev != nil {
		m.add("previousBlockInfo", t.block(path+"/prev", s.set.prev))
	}
	if s.set.cur != nil {
		m.add("currentBlockInfo", t.block(path+"/cur", s.set.cur))
	}
	if len(s.set.hashes) > 0 {
		l := jlist{}
		for i, h := range s.set.hashes {
			l = append(l, t.byt(fmt.Sprintf("%s/h%d", path, i), h))
		}
		m.add("blockHashes", l)
	}
}

// uniqueKeys keeps the last of the entries that are spelled the same.
func uniqueKeys(m jmap) jmap {
	var out jmap
	for i, e := range m {
		again := false
		for _, f := range m[i+1:] {
			again = again || f.k == e.k
		}
		if !again {
			out = append(out, e)
		}
	}
	return out
}

func (t *mText) setToken(path string, g []*TokenSpec) jv {
	r := t.rng(path)
	head := tokenAttr(g[0])
	if len(g) == 1 && g[0].Nonce == 0 && g[0].Attr == 0 && r.Intn(2) == 0 {
		return t.u64(path+"/b", uint64(g[0].Value))
	}
	inst := func(i int, s *TokenSpec) jmap {
		p := fmt.Sprintf("%s/%d", path, i)
		at := tokenAttr(s)
		m := jmap{{"balance", t.u64(p+"b", uint64(s.Value))}}
		if s.Nonce > 0 {
			m.add("nonce", t.u64(p+"n", s.Nonce))
			if len(at.creator) > 0 {
				m.add("creator", t.byt(p+"c", at.creator))
			}
			if at.royalties > 0 {
				m.add("royalties", t.u64(p+"r", at.royalties))
			}
			if len(at.hash) > 0 {
				m.add("hash", t.byt(p+"h", at.hash))
			}
			if len(at.uri) > 0 {
				m.add("uri", t.tree(p+"u", at.uri))
			}
			if len(at.attr) > 0 {
				m.add("attributes", t.byt(p+"a", at.attr))
			}
		}
		return m
	}
	var m jmap
	if !bare(g) {
		l := jlist{}
		for i, s := range g {
			if i == 0 && r.Intn(2) == 0 {
				m = append(m, inst(i, s)...)
			} else {
				l = append(l, inst(i, s))
			}
		}
		if len(l) > 0 {
			m.add("instances", l)
		}
	}
	if head.last > 0 {
		m.add("lastNonce", t.u64(path+"/l", head.last))
	}
	if len(head.roles) > 0 {
		l := jlist{}
		for _, x := range head.roles {
			l = append(l, x)
		}
		m.add("roles", l)
	}
	if head.frozen {
		m.add("frozen", []string{"true", "1"}[r.Intn(2)])
	}
	return shuffled(r, m)
}

// --- the check of the state

func (t *mText) check(s *mStep, path string) jv {
	var m jmap
	r := t.rng(path + "#k")
	open := t.claim(path+"/accounts", true, true)
	for i, k := range sortedKeys(s.state) {
		p := fmt.Sprintf("%s/a%d", path, i)
		if open == weak && hash2(t.seed^5, p)%3 == 0 && !strings.HasPrefix(t.dev, p+"/") {
			continue
		}
		m.add(t.byt(p+"/addr", []byte(k)), t.checkAcct(s.state[k], p))
	}
	switch open {
	case weak:
		m = append(m, jkv{"+", ""})
		if r.Intn(2) == 0 {
			m[0], m[len(m)-1] = m[len(m)-1], m[0]
		}
	case wrong:
		if r.Intn(2) == 0 || len(m) == 0 {
			a := make([]byte, 32)
			r.Read(a)
			m.add("0x"+hexs(a), jmap{{"nonce", "*"}, {"balance", "*"}, {"storage", "*"}, {"esdt", "*"}, {"code", "*"}, {"username", "*"}})
			t.how = "an account more"
		} else {
			i := r.Intn(len(m))
			m = append(append(jmap{}, m[:i]...), m[i+1:]...)
			t.how = "an account less"
		}
	}
	return m
}

func (t *mText) checkAcct(a *Acct, path string) jv {
	var m jmap
	t.u64Claim(&m, path, "nonce", a.Nonce, true, false, ^uint64(0))
	t.numClaim(&m, path, "balance", a.Balance, true, false)
	t.bytesClaim(&m, path, "username", a.User, true, false)
	p := path + "/code"
	switch t.claim(p, true, true) {
	case weak:
		m.add("code", "*")
	case wrong:
		r := t.rng(p)
		w := otherBytes(r, a.Code)
		if len(a.Code) > 0 && r.Intn(3) == 0 {
			w = nil
		}
		for _, c := range t.codes {
			if !bytes.Equal(c, a.Code) && r.Intn(2) == 0 {
				w = c
			}
		}
		t.how = fmt.Sprintf("%d bytes of another", len(w))
		if len(w) == 0 {
			m.add("code", "")
		} else {
			m.add("code", t.codeFile(w))
		}
	default:
		if len(a.Code) > 0 {
			m.add("code", t.codeFile(a.Code))
		} else if t.rng(p).Intn(2) == 0 {
			m.add("code", "")
		}
	}
	t.bytesClaim(&m, path, "owner", a.Owner, false, true)
	t.bytesClaim(&m, path, "asyncCallData", []byte(a.Async), false, true)
	t.checkStorage(&m, a, path)
	t.checkTokens(&m, a, path)
	return shuffled(t.rng(path+"#o"), m)
}

func (t *mText) checkStorage(m *jmap, a *Acct, path string) {
	var keys []string
	for k, v := range a.Storage {
		if len(v) > 0 && !strings.HasPrefix(k, vmcommon.ElrondProtectedKeyPrefix) {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	p := path + "/storage"
	r := t.rng(p + "#c")
	var x jmap
	how := t.claim(p, true, true)
	if how == weak && r.Intn(2) == 0 {
		m.add("storage", "*")
		return
	}
	for i, k := range keys {
		q := fmt.Sprintf("%s/entry:%d", p, i)
		if how == weak && hash2(t.seed^9, q)%2 == 0 && !strings.HasPrefix(t.dev, q) {
			continue
		}
		v := a.Storage[k]
		key := t.byt(q+"#key", []byte(k))
		if key == "+" {
			key = "0x2b"
		}
		switch t.claim(q, true, true) {
		case weak:
			x.add(key, "*")
		case wrong:
			w := otherBytes(r, v)
			switch {
			case how == exact && r.Intn(3) == 0:
				t.how = "entry left out"
			case r.Intn(3) == 0:
				t.how = "entry of another key"
				k2 := otherBytes(r, []byte(k))
				if len(a.Storage[string(k2)]) > 0 || strings.HasPrefix(string(k2), vmcommon.ElrondProtectedKeyPrefix) {
					k2 = []byte{0xfe}
					k2 = append(k2, []byte(k)...)
					k2 = append(k2, 0xfe, 0xfe)
				}
				x.add("0x"+hexs(k2), t.tree(q, v))
			default:
				t.how = fmt.Sprintf("%x instead of %x", w, v)
				x.add(key, t.tree(q, w))
			}
		default:
			x.add(key, t.tree(q, v))
		}
	}
	if how == wrong {
		k := append([]byte("absent"), byte(r.Intn(256)))
		t.how = "an entry more"
		v := []byte{1}
		if len(keys) > 0 {
			v = a.Storage[keys[0]]
		}
		x.add("0x"+hexs(k), t.tree(p, v))
	}
	if how == weak {
		x = append(x, jkv{"+", ""})
	}
	if len(x) > 0 || r.Intn(2) == 0 {
		if x == nil {
			x = jmap{}
		}
		m.add("storage", x)
	}
}

// heldToken is what an account holds of a token.
type heldToken struct {
	inst  map[uint64]*esdt.ESDigitalToken
	last  uint64
	roles []string
}

func heldTokens(a *Acct) map[string]*heldToken {
	out := map[string]*heldToken{}
	get := func(n string) *heldToken {
		if out[n] == nil {
			out[n] = &heldToken{inst: map[uint64]*esdt.ESDigitalToken{}}
		}
		return out[n]
	}
	for k, v := range a.Storage {
		switch {
		case strings.HasPrefix(k, tokenPrefix):
			d := &esdt.ESDigitalToken{}
			if len(v) == 0 || (marsh{}).Unmarshal(d, v) != nil || d.Value == nil || d.Value.Sign() <= 0 {
				continue
			}
			name := k[len(tokenPrefix):]
			if d.TokenMetaData == nil || d.TokenMetaData.Nonce == 0 {
				d.TokenMetaData = &esdt.MetaData{}
			} else {
				name = strings.TrimSuffix(name, string(new(big.Int).SetUint64(d.TokenMetaData.Nonce).Bytes()))
			}
			get(name).inst[d.TokenMetaData.Nonce] = d
		case strings.HasPrefix(k, string(worldmock.ESDTNonceKeyPrefix)):
			if n := new(big.Int).SetBytes(v); n.Sign() > 0 {
				get(k[len(worldmock.ESDTNonceKeyPrefix):]).last = n.Uint64()
			}
		case strings.HasPrefix(k, string(worldmock.ESDTRoleKeyPrefix)):
			d := &esdt.ESDTRoles{}
			if len(v) == 0 || (marsh{}).Unmarshal(d, v) != nil || len(d.Roles) == 0 {
				continue
			}
			h := get(k[len(worldmock.ESDTRoleKeyPrefix):])
			for _, x := range d.Roles {
				h.roles = append(h.roles, string(x))
			}
			sort.Strings(h.roles)
		}
	}
	return out
}

func (t *mText) checkTokens(m *jmap, a *Acct, path string) {
	held := heldTokens(a)
	var names []string
	for n := range held {
		names = append(names, n)
	}
	sort.Strings(names)
	p := path + "/esdt"
	r := t.rng(p + "#c")
	how := t.claim(p, true, true)
	if how == weak && r.Intn(2) == 0 {
		m.add("esdt", "*")
		return
	}
	var x jmap
	for i, n := range names {
		q := fmt.Sprintf("%s/token:%d", p, i)
		if how == weak && hash2(t.seed^9, q)%2 == 0 && !strings.HasPrefix(t.dev, q) {
			continue
		}
		key := t.byt(q+"#key", []byte(n))
		if c := t.claim(q, how == exact, false); c == wrong {
			t.how = "token left out"
			continue
		}
		x.add(key, t.checkToken(q, held[n]))
	}
	if how == wrong {
		name := []byte("ABSENT-123456")
		if len(names) > 0 && r.Intn(2) == 0 {
			name = append([]byte(names[0]), 'x')
		}
		t.how = "a token more"
		x.add(t.byt(p+"#extra", name), fmt.Sprint(1+r.Intn(3)))
	}
	if how == weak {
		x = append(x, jkv{"+", ""})
	}
	if len(x) > 0 || r.Intn(2) == 0 {
		if x == nil {
			x = jmap{}
		}
		m.add("esdt", x)
	}
}

func (t *mText) checkToken(path string, h *heldToken) jv {
	r := t.rng(path + "#t")
	var nonces []uint64
	frozen := -1
	for n, d := range h.inst {
		nonces = append(nonces, n)
		f := 0
		if builtInFunctions.ESDTUserMetadataFromBytes(d.Properties).Frozen {
			f = 1
		}
		if frozen >= 0 && frozen != f {
			frozen = 2
		} else {
			frozen = f
		}
	}
	sort.Slice(nonces, func(i, j int) bool { return nonces[i] < nonces[j] })
	if len(nonces) == 1 && nonces[0] == 0 && h.last == 0 && len(h.roles) == 0 && r.Intn(2) == 0 {
		switch t.claim(path+"/amount", true, true) {
		case weak:
			return "*"
		case wrong:
			t.how = "another amount"
			return t.num(path, otherNum(r, h.inst[0].Value))
		}
		return t.num(path, h.inst[0].Value)
	}
	var m jmap
	l := jlist{}
	drop := -1
	c := t.claim(path+"/instances", true, false)
	if c == wrong && len(nonces) > 0 && r.Intn(2) == 0 {
		drop = r.Intn(len(nonces))
		t.how = "an instance less"
	}
	for i, n := range nonces {
		q := fmt.Sprintf("%s/%d", path, i)
		d := h.inst[n]
		var x jmap
		t.numClaim(&x, q, "balance", d.Value, false, false)
		if n > 0 {
			x.add("nonce", t.u64(q+"/n", n))
			md := d.TokenMetaData
			t.bytesClaim(&x, q, "creator", md.Creator, false, true)
			t.u64Claim(&x, q, "royalties", uint64(md.Royalties), false, true, 10000)
			t.bytesClaim(&x, q, "hash", md.Hash, false, true)
			if len(md.URIs) < 2 {
				var uri []byte
				if len(md.URIs) == 1 {
					uri = md.URIs[0]
				}
				t.bytesClaim(&x, q, "uri", uri, false, true)
			}
			t.bytesClaim(&x, q, "attributes", md.Attributes, false, true)
		}
		if i == drop {
			continue
		}
		if i == 0 && r.Intn(2) == 0 {
			m = append(m, x...)
		} else {
			l = append(l, x)
		}
	}
	if c == wrong && drop < 0 {
		n := uint64(1000 + r.Intn(1000))
		t.how = "an instance more"
		l = append(l, jmap{{"nonce", t.u64(path+"/en", n)}, {"balance", "1"}})
	}
	if len(l) > 0 {
		m.add("instances", l)
	}
	t.u64Claim(&m, path, "lastNonce", h.last, true, false, ^uint64(0))
	roles := append([]string{}, h.roles...)
	if t.claim(path+"/roles", true, false) == wrong {
		if len(roles) > 0 && r.Intn(2) == 0 {
			roles = roles[:len(roles)-1]
			t.how = "a role less"
		} else {
			roles = append(roles, "ESDTRoleOther")
			t.how = "a role more"
		}
	}
	if len(roles) > 0 || r.Intn(2) == 0 {
		rl := jlist{}
		for _, x := range roles {
			rl = append(rl, x)
		}
		m.add("roles", rl)
	}
	if frozen == 0 || frozen == 1 {
		t.u64Claim(&m, path, "frozen", uint64(frozen), false, true, 1)
	}
	return shuffled(r, m)
}
