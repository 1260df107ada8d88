//go:build verif
// +build verif

package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"math/big"
	"net/http"
	"os"
	"path"
	"sync"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/host"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwendebug"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/builtInFunctions"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
	"github.com/gin-gonic/gin"
)

// The runs of the debugger: processes that serve requests, alone or several at once, over a simulated
// disk, against a reference that keeps every world in memory, executes each request with a VM of its
// own over its own blockchain hook, and applies the output itself.

func init() {
	newDisk = func(r *Run) diskSide { return &diskRun{r: r} }
	arwendebug.NewSessionLock = func() sync.Locker { return &simLock{} }
	gin.SetMode(gin.ReleaseMode)
	gin.DefaultWriter, gin.DefaultErrorWriter = ioutil.Discard, ioutil.Discard
	arwendebug.Serve = func(h http.Handler) error {
		served = h
		return nil
	}
}

// served is what the server that was started last answers requests with.
var served http.Handler

// httpAnswer collects what a server answers.
type httpAnswer struct {
	header http.Header
	status int
	body   bytes.Buffer
}

func (a *httpAnswer) Header() http.Header { return a.header }
func (a *httpAnswer) WriteHeader(n int) {
	if a.status == 0 {
		a.status = n
	}
}
func (a *httpAnswer) Write(b []byte) (int, error) {
	a.WriteHeader(200)
	return a.body.Write(b)
}

// post sends a request to the server of the debugger and returns the data it answers.
func (p *diskRun) post(st *Step, kind string, q interface{}) (json.RawMessage, error) {
	b, err := json.Marshal(q)
	must(err)
	fields := map[string]interface{}{}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	must(d.Decode(&fields))
	for k, v := range fields {
		if v == nil || v == "" || v == json.Number("0") {
			delete(fields, k) // a client sends what it has to say
		}
	}
	b, err = json.Marshal(fields)
	must(err)
	if st.Kind == "bad" && st.Locked%7 == 0 {
		b = b[:len(b)*int(st.Locked%5)/5] // the connection breaks
	}
	r, err := http.NewRequest("POST", "/"+kind, bytes.NewReader(b))
	must(err)
	a := &httpAnswer{header: http.Header{}}
	p.handler.ServeHTTP(a, r)
	p.k.check(p.k.cur) // the server recovers even from the end of its process
	p.r.stats.inc("http_requests")
	var x struct {
		ErrorMessage *string         `json:"errorMessage"`
		Data         json.RawMessage `json:"data"`
	}
	if err := json.Unmarshal(a.body.Bytes(), &x); err != nil || a.status != 200 && (a.status != 400 || x.ErrorMessage == nil) {
		panic(fmt.Sprintf("the server answers %d %s", a.status, cutText(a.body.String(), 200)))
	}
	if a.status != 200 {
		return nil, errors.New(*x.ErrorMessage)
	}
	return x.Data, nil
}

// httpText is the answer of a contract in the words of the server.
func httpText(code string, output []byte, failed bool) string {
	output = bytes.ReplaceAll(output, []byte("null"), []byte(`""`)) // nothing may be nil or empty
	return fmt.Sprintf("%s failed %v %s", code, failed, output)
}

// debugHook is the blockchain of the reference.
type debugHook struct {
	*World
	created [][]byte
}

func (h *debugHook) NewAddress(creator []byte, nonce uint64, vmType []byte) ([]byte, error) {
	a := mockAddress(creator, nonce)
	h.created = append(h.created, a)
	return a, nil
}

func (h *debugHook) GetUserAccount(addr []byte) (vmcommon.UserAccountHandler, error) {
	if h.get(addr) == nil {
		return nil, fmt.Errorf("account not found: %s", hexs(addr))
	}
	return h.World.GetUserAccount(addr)
}

func (h *debugHook) GetAllState(addr []byte) (map[string][]byte, error) {
	if h.get(addr) == nil {
		return nil, fmt.Errorf("account not found: %s", hexs(addr))
	}
	return h.World.GetAllState(addr)
}

var errNoBuiltins = errors.New("builtin function not found or container not initialized")

func (h *debugHook) ProcessBuiltInFunction(*vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
	return nil, errNoBuiltins
}

func (h *debugHook) GetESDTToken([]byte, []byte, uint64) (*esdt.ESDigitalToken, error) {
	return nil, errNoBuiltins
}

func (h *debugHook) GetBlockhash(nonce uint64) ([]byte, error) { return nil, errors.New("no block") }
func (h *debugHook) LastRandomSeed() []byte                    { return nil }
func (h *debugHook) GetStateRootHash() []byte                  { return nil }
func (h *debugHook) CurrentRandomSeed() []byte {
	var none *[48]byte
	return none[:]
}

func (h *debugHook) IsSmartContract(addr []byte) bool {
	if a := h.get(addr); a != nil {
		return len(a.Code) > 0
	}
	return vmcommon.IsSmartContractAddress(addr)
}

func (h *debugHook) IsPayable(addr []byte) (bool, error) {
	a := h.get(addr)
	return a == nil || len(a.Code) == 0 || vmcommon.CodeMetadataFromBytes(a.Meta).Payable, nil
}

type diskState map[string]map[string]*Acct // world -> accounts, which are never changed in place

func (s diskState) with(world string, accts map[string]*Acct) diskState {
	c := diskState{}
	for k, v := range s {
		c[k] = v
	}
	c[world] = accts
	return c
}

type diskRun struct {
	r       *Run
	k       *kernel
	d       *simDisk
	codes   [][]byte
	state   diskState
	server  *vproc
	facade  *arwendebug.DebugFacade
	handler http.Handler // of the server, if there is one
	null    *os.File
	gas     config.GasScheduleMap
}

// callRes is how a request ended.
type callRes struct {
	done    bool // it returned
	err     error
	text    string // what the VM answered
	json    string // the same, as the server puts it
	addr    []byte
	resp    interface{}
	created int
}

func (p *diskRun) run() {
	k := newKernel(&ChanCfg{Seed: p.r.sc.Cfg.Disk.Seed}, p.r.stats)
	p.k = k
	p.d = newSimDisk(k, p.r.stats)
	arwendebug.Disk = p.d
	p.state = diskState{}
	p.gas = config.MakeGasMap(1, 1)
	p.r.stats.inc("runs")
	for i := range p.r.sc.Progs {
		p.codes = append(p.codes, p.r.sc.Progs[i].Assemble())
	}
	var err error
	p.null, err = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	must(err)
	defer p.null.Close()
	stdout := os.Stdout
	defer func() { os.Stdout = stdout }()
	k.run(func() {
		for i := range p.r.sc.Steps {
			p.r.step = i
			st := &p.r.sc.Steps[i]
			p.r.stats.inc("step_" + st.Kind)
			if st.Kind == "restart" {
				p.server = nil
				continue
			}
			p.step(st, stdout)
		}
		p.r.step = len(p.r.sc.Steps)
		p.d.arm(nil)
		p.compareAll("at the end")
	})
	if k.viol != nil {
		panic(k.viol)
	}
	if k.idle {
		p.r.fail("D01", "the debugger is blocked forever, %s: %v", p.d.blame(), k.stuck)
	}
	p.r.stats.seen("disk_histories", fmt.Sprintf("%016x", k.shape))
	p.r.note("end: shape %016x", k.shape)
}

var diskWorlds = []string{"", "default", "alpha", "beta"}
var diskPaths = []string{"", "./db", "db", "/data/other db"}

// place is the database and the world a request names, and the world it means.
func (p *diskRun) place(st *Step) (dir, world, key string) {
	x := func(i int) int {
		if i < len(st.Mode) {
			return int(st.Mode[i]-'0') & 3
		}
		return 0
	}
	dir, world = diskPaths[x(0)], diskWorlds[x(1)]
	d, w := dir, world
	if d == "" {
		d = "./db"
	}
	if w == "" {
		w = "default"
	}
	return dir, world, path.Join(clean(d), w)
}

// step is one request, or several at once, to one process.
func (p *diskRun) step(st *Step, stdout *os.File) {
	k := p.k
	subs := []*Step{st}
	if st.Kind == "parallel" {
		subs = nil
		for i := range st.Sub {
			subs = append(subs, &st.Sub[i])
		}
	}
	p.d.arm(st.Chan)
	if p.server == nil || p.server.killed || p.r.sc.Cfg.Disk.Once {
		k.nextPid++
		p.server = &vproc{pid: k.nextPid, name: "debugger"}
		k.procs = append(k.procs, p.server)
		p.facade = arwendebug.NewDebugFacade()
		if p.r.sc.Cfg.Disk.HTTP {
			must(arwendebug.NewDebugServer(p.facade, "").Start())
			p.handler = served
		}
		p.r.stats.inc("processes")
	}
	srv := p.server
	srv.exited = false
	res := make([]*callRes, len(subs))
	var tasks []*task
	for i := range subs {
		i := i
		res[i] = &callRes{}
		tasks = append(tasks, k.spawn(fmt.Sprintf("request %d", i), srv, func() { p.request(subs[i], res[i]) }))
	}
	os.Stdout = p.null
	k.wait(func() bool {
		for _, t := range tasks {
			if !t.done {
				return false
			}
		}
		return true
	}, 0)
	os.Stdout = stdout
	for i, s := range subs {
		x := res[i]
		p.r.note("%d: %s -> done %v err %v %s %s", p.r.step, p.what(s), x.done, x.err, cutText(x.text, 200), p.d.blame())
		if x.done {
			p.r.stats.inc("requests_answered")
		}
	}
	if srv.crash != "" {
		p.r.fail("D01", "%s crashes the debugger, %s: %s", p.what(st), p.d.blame(), srv.crash)
	}
	p.d.faults = nil
	p.d.room = -1
	p.judge(st, subs, res)
}

func (p *diskRun) what(st *Step) string {
	dir, world, _ := p.place(st)
	switch st.Kind {
	case "parallel":
		return "several requests at once"
	case "account":
		return fmt.Sprintf("account %s %s nonce %d in %q/%q", shortAddr(st.To), st.Value, st.N, dir, world)
	}
	return fmt.Sprintf("%s %s->%s.%s(%d args) prog %d value %s gas %d in %q/%q", st.Kind, shortAddr(st.From), shortAddr(st.To), st.Func, len(st.Args), st.Prog, st.Value, st.Gas, dir, world)
}

func (p *diskRun) code(st *Step) []byte {
	if st.Prog < 1 || st.Prog > len(p.codes) {
		return []byte{0}
	}
	return p.codes[st.Prog-1]
}

func (p *diskRun) base(st *Step) arwendebug.RequestBase {
	dir, world, _ := p.place(st)
	b := arwendebug.RequestBase{DatabasePath: dir, World: world}
	if st.Type > 0 {
		b.Outcome = fmt.Sprintf("out %d", st.Type)
	}
	return b
}

func (p *diskRun) contractBase(st *Step) arwendebug.ContractRequestBase {
	return arwendebug.ContractRequestBase{RequestBase: p.base(st), ImpersonatedHex: hexs(st.From), Value: st.Value, GasPrice: st.N, GasLimit: st.Gas}
}

func (p *diskRun) deployRequest(st *Step) arwendebug.DeployRequest {
	return arwendebug.DeployRequest{ContractRequestBase: p.contractBase(st), CodeHex: hexs(p.code(st)), CodeMetadata: hexs(st.Meta), ArgumentsHex: hexArgs(st.Args)}
}

func (p *diskRun) runRequest(st *Step) arwendebug.RunRequest {
	return arwendebug.RunRequest{ContractRequestBase: p.contractBase(st), ContractAddressHex: hexs(st.To), Function: st.Func, ArgumentsHex: hexArgs(st.Args)}
}

func hexArgs(args []HexBytes) []string {
	var a []string
	for _, x := range args {
		a = append(a, hexs(x))
	}
	return a
}

// request sends one request to the debugger.
func (p *diskRun) request(st *Step, x *callRes) {
	f := p.facade
	contract := func(b *arwendebug.ContractResponseBase) { x.text = resultText(b.Output, b.Error) }
	kind := st.Kind
	bad := -1
	if kind == "bad" {
		bad = int(st.Locked)
		kind = []string{"account", "deploy", "call", "query", "upgrade"}[bad%5]
		bad /= 5
	}
	spoil := func(fields ...*string) {
		if bad >= 0 {
			*fields[bad%len(fields)] = []string{"xx", "abc", "0g", "12z"}[bad/len(fields)%4]
		}
	}
	send := func(q interface{}) bool {
		if p.handler == nil {
			return false
		}
		data, err := p.post(st, map[string]string{"call": "run"}[kind]+map[bool]string{true: kind}[kind != "call"], q)
		x.err, x.resp = err, data
		if err == nil {
			var r struct {
				Error              json.RawMessage
				Output             json.RawMessage
				ReturnCodeString   string
				ContractAddress    []byte
				ContractAddressHex string
				Account            *struct {
					Address []byte
					Balance *big.Int
					Nonce   uint64
				}
			}
			if err := json.Unmarshal(data, &r); err != nil {
				panic(fmt.Sprintf("the server answers %s: %v", cutText(string(data), 200), err))
			}
			if r.Account != nil {
				x.text = fmt.Sprintf("account %s %v %d", hexs(r.Account.Address), r.Account.Balance, r.Account.Nonce)
			} else {
				x.json = httpText(r.ReturnCodeString, r.Output, string(r.Error) != "null")
			}
			if hexs(r.ContractAddress) == r.ContractAddressHex {
				x.addr = r.ContractAddress
			}
		}
		x.done = true
		return true
	}
	switch kind {
	case "account":
		q := arwendebug.CreateAccountRequest{RequestBase: p.base(st), AddressHex: hexs(st.To), Balance: st.Value, Nonce: st.N}
		spoil(&q.AddressHex, &q.Balance)
		if send(q) {
			return
		}
		r, err := f.CreateAccount(q)
		x.err, x.resp = err, r
		if err == nil {
			x.text = fmt.Sprintf("account %s %v %d", hexs(r.Account.Address), r.Account.Balance, r.Account.Nonce)
		}
	case "deploy":
		q := p.deployRequest(st)
		gas := "1"
		arg := ""
		spoil(&q.ImpersonatedHex, &q.Value, &q.CodeHex, &q.CodeMetadata, &gas, &arg)
		if gas != "1" {
			q.GasLimit = 0
		}
		if arg != "" {
			q.ArgumentsHex = append(q.ArgumentsHex, arg)
		}
		if send(q) {
			return
		}
		r, err := f.DeploySmartContract(q)
		x.err, x.resp = err, r
		if err == nil {
			contract(&r.ContractResponseBase)
			x.addr = r.ContractAddress
			if hexs(r.ContractAddress) != r.ContractAddressHex {
				x.addr = nil
			}
		}
	case "upgrade":
		q := arwendebug.UpgradeRequest{DeployRequest: p.deployRequest(st), ContractAddressHex: hexs(st.To)}
		spoil(&q.ContractAddressHex, &q.ImpersonatedHex, &q.Value, &q.CodeHex, &q.CodeMetadata)
		if send(q) {
			return
		}
		r, err := f.UpgradeSmartContract(q)
		x.err, x.resp = err, r
		if err == nil {
			contract(&r.ContractResponseBase)
		}
	case "call", "query":
		q := p.runRequest(st)
		gas := "1"
		spoil(&q.ContractAddressHex, &q.ImpersonatedHex, &q.Value, &gas)
		if gas != "1" {
			q.GasLimit = 0
		}
		if send(q) {
			return
		}
		if kind == "call" {
			r, err := f.RunSmartContract(q)
			x.err, x.resp = err, r
			if err == nil {
				contract(&r.ContractResponseBase)
			}
		} else {
			r, err := f.QuerySmartContract(arwendebug.QueryRequest{RunRequest: q})
			x.err, x.resp = err, r
			if err == nil {
				contract(&r.ContractResponseBase)
			}
		}
	}
	x.done = true
}

// reference executes a request on a state: what it answers, and the state after it.
func (p *diskRun) reference(state diskState, st *Step) (diskState, *callRes) {
	_, _, key := p.place(st)
	x := &callRes{done: true}
	h := &debugHook{World: &World{NShards: 1, accts: map[string]*Acct{}, compiled: map[string][]byte{}}}
	for a, v := range state[key] {
		h.accts[a] = v
	}
	if st.Kind == "account" {
		a := &Acct{Addr: string(st.To), Nonce: st.N, Balance: bigOf(st.Value), Storage: map[string][]byte{}}
		h.accts[a.Addr] = a
		x.text = fmt.Sprintf("account %s %v %d", hexs(st.To), a.Balance, a.Nonce)
		return state.with(key, h.accts), x
	}
	vm, err := host.NewArwenVM(h, &arwen.VMHostParameters{VMType: vmTypeBytes, BlockGasLimit: 10000000, GasSchedule: p.gas,
		ElrondProtectedKeyPrefix: []byte(vmcommon.ElrondProtectedKeyPrefix), BuiltInFuncContainer: builtInFunctions.NewBuiltInFunctionContainer()})
	must(err)
	in := vmcommon.VMInput{CallerAddr: st.From, CallValue: bigOf(st.Value), Arguments: rawArgs(st.Args), GasProvided: st.Gas, GasPrice: st.N}
	if in.GasPrice == 0 {
		in.GasPrice = arwendebug.DefaultGasPrice
	}
	meta := []byte(st.Meta)
	if len(meta) == 0 {
		meta = []byte{1, 0} // upgradeable
	}
	var out *vmcommon.VMOutput
	switch st.Kind {
	case "deploy":
		out, err = vm.RunSmartContractCreate(&vmcommon.ContractCreateInput{VMInput: in, ContractCode: p.code(st), ContractCodeMetadata: meta})
		if len(h.created) > 0 {
			x.addr = h.created[0]
		}
		x.created = len(h.created)
	case "upgrade":
		in.Arguments = append([][]byte{p.code(st), meta}, in.Arguments...)
		out, err = vm.RunSmartContractCall(&vmcommon.ContractCallInput{VMInput: in, RecipientAddr: st.To, Function: "upgradeContract"})
	default:
		out, err = vm.RunSmartContractCall(&vmcommon.ContractCallInput{VMInput: in, RecipientAddr: st.To, Function: st.Func})
	}
	x.text = resultText(out, err)
	code := ""
	if out != nil {
		code = out.ReturnCode.String()
	}
	output, _ := json.Marshal(out)
	x.json = httpText(code, output, err != nil)
	if err == nil && out.ReturnCode == vmcommon.Ok {
		p.r.stats.inc(st.Kind + "_ok")
	} else {
		p.r.stats.inc(st.Kind + "_failed")
	}
	if st.Kind == "query" || err != nil || out.ReturnCode != vmcommon.Ok {
		return state, x
	}
	for _, a := range out.OutputAccounts {
		a := a
		h.edit(a.Address, func(y *Acct) {
			if state[key][y.Addr] == nil {
				y.Owner = a.CodeDeployerAddress
			}
			if a.BalanceDelta != nil {
				y.Balance.Add(y.Balance, a.BalanceDelta)
			}
			if a.Nonce > y.Nonce {
				y.Nonce = a.Nonce
			}
			if len(a.Code) > 0 {
				y.Code, y.Meta = a.Code, a.CodeMetadata
				if len(y.Owner) == 0 {
					y.Owner = a.CodeDeployerAddress
				}
			}
			for _, s := range a.StorageUpdates {
				delete(y.Storage, string(s.Offset))
				if len(s.Data) > 0 {
					y.Storage[string(s.Offset)] = append([]byte{}, s.Data...)
				}
			}
		})
	}
	return state.with(key, h.accts), x
}

// stored is the accounts of a world as a new process finds them.
func (p *diskRun) stored(st *Step) (map[string]*Acct, error) {
	dir, world, _ := p.place(st)
	if dir == "" {
		dir = "./db"
	}
	if world == "" {
		world = "default"
	}
	m, err := arwendebug.LoadAccounts(dir, world)
	if err != nil {
		return nil, err
	}
	accts := map[string]*Acct{}
	for addr, a := range m {
		if a == nil || a.Balance == nil {
			return nil, fmt.Errorf("account %s is incomplete", hexs([]byte(addr)))
		}
		if addr != string(a.Address) {
			return nil, fmt.Errorf("account %s is under the address %s", hexs(a.Address), hexs([]byte(addr)))
		}
		if a.IsSmartContract != (len(a.Code) > 0) {
			return nil, fmt.Errorf("account %s with %d bytes of code is a contract: %v", shortAddr(a.Address), len(a.Code), a.IsSmartContract)
		}
		y := &Acct{Addr: addr, Nonce: a.Nonce, Balance: new(big.Int).Set(a.Balance), Storage: map[string][]byte{}, Code: a.Code, Meta: a.CodeMetadata, Owner: a.OwnerAddress}
		for k, v := range a.Storage {
			if len(v) > 0 {
				y.Storage[k] = v
			}
		}
		accts[addr] = y
	}
	return accts, nil
}

func diffWorld(got, want map[string]*Acct) string {
	for _, k := range sortedKeys(mergedKeys(got, want)) {
		if d := diffAcct(got[k], want[k]); d != "" {
			return "account " + shortAddr([]byte(k)) + ": " + d
		}
	}
	return ""
}

// actual is what the disk holds of some worlds.
func (p *diskRun) actual(places map[string]*Step, when string) diskState {
	s := diskState{}
	for _, key := range sortedPlaces(places) {
		a, err := p.stored(places[key])
		if err != nil {
			p.r.fail("D01", "the world %s cannot be loaded %s: %v", key, when, err)
		}
		s[key] = a
		p.r.stats.inc("worlds_compared")
	}
	return s
}

func sortedPlaces(m map[string]*Step) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sortStrings(l)
	return l
}

func (p *diskRun) diff(got, want diskState) string {
	var keys []string
	for k := range got {
		keys = append(keys, k)
	}
	sortStrings(keys)
	for _, k := range keys {
		if d := diffWorld(got[k], want[k]); d != "" {
			return "world " + k + ", " + d
		}
	}
	return ""
}

// judge compares what happened in a step with what may have happened.
func (p *diskRun) judge(st *Step, subs []*Step, res []*callRes) {
	places := map[string]*Step{}
	crashed := p.server.killed
	for _, s := range subs {
		_, _, key := p.place(s)
		places[key] = s
	}
	if p.d.fired > 0 { // no world may suffer
		p.allPlaces(places)
		p.r.stats.inc("steps_with_disk_faults")
	}
	if crashed {
		p.r.stats.inc("steps_with_crash")
	}
	got := p.actual(places, "after "+p.what(st)+", "+p.d.blame())
	may := make([]bool, len(subs)) // it may have had its effect
	for i, s := range subs {
		x := res[i]
		if !x.done {
			if !crashed {
				p.r.fail("D01", "%s is not answered, %s", p.what(s), p.d.blame())
			}
			may[i] = s.Kind != "bad"
			continue
		}
		if s.Kind == "bad" {
			if x.err == nil {
				p.r.fail("D01", "the invalid request %d is accepted", s.Locked)
			}
			p.r.stats.inc("invalid_refused")
			continue
		}
		may[i] = true
		if x.err != nil && p.d.fired == 0 {
			p.r.fail("D01", "%s fails without any fault: %v", p.what(s), x.err)
		}
		if x.err != nil {
			p.r.stats.inc("steps_failed_by_faults")
		} else if s.Type > 0 && !crashed && p.d.fired == 0 && len(subs) == 1 {
			p.outcome(s, x)
		}
	}
	why := ""
	var before []diskState // the states passed on the way to the present one
	var search func(state diskState, used int) diskState
	search = func(state diskState, used int) diskState {
		rest := 0
		for i := range subs {
			if used&(1<<uint(i)) == 0 && may[i] && res[i].done && res[i].err == nil {
				rest++
			}
		}
		if rest == 0 {
			d := p.diff(got, state)
			if d == "" {
				return state
			}
			for i := range before { // a power loss takes the last changes of the directories along
				if p.d.lost && p.diff(got, before[i]) == "" {
					p.r.stats.inc("answered_lost_with_the_power")
					return before[i]
				}
			}
			if why == "" || used != 0 && len(subs) == 1 {
				why = fmt.Sprintf("after %s, %s: %s", p.what(st), p.d.blame(), d)
			}
		}
		for i, s := range subs {
			if used&(1<<uint(i)) != 0 || !may[i] {
				continue
			}
			next, want := p.reference(state, s)
			p.r.stats.inc("reference_executions")
			if x := res[i]; x.done && x.err == nil {
				got, exp := x.text, want.text
				if x.json != "" {
					got, exp = x.json, want.json
				}
				if got != exp {
					why = fmt.Sprintf("%s answers %s instead of %s, %s", p.what(s), cut3(got), cut3(exp), p.d.blame())
					continue
				}
				if want.created == 1 && !bytes.Equal(x.addr, want.addr) {
					why = fmt.Sprintf("%s reports the address %s instead of %s", p.what(s), hexs(x.addr), hexs(want.addr))
					continue
				}
			}
			before = append(before, state)
			if f := search(next, used|1<<uint(i)); f != nil {
				return f
			}
			before = before[:len(before)-1]
		}
		return nil
	}
	next := search(p.state, 0)
	if next == nil {
		if len(subs) > 1 {
			why = "no order of the requests explains what happened: " + why
		}
		p.r.fail("D01", "%s", why)
	}
	p.r.stats.inc("steps_judged")
	p.state = next
	if len(subs) > 1 {
		p.r.stats.inc("parallel_judged")
	}
}

// outcome checks the file of the outcome of a request.
func (p *diskRun) outcome(st *Step, x *callRes) {
	dir, _, _ := p.place(st)
	if dir == "" {
		dir = "./db"
	}
	n := p.d.files[path.Join(clean(dir), "out", fmt.Sprintf("out %d.json", st.Type))]
	if n == nil {
		p.r.fail("D01", "%s stores no outcome", p.what(st))
	}
	var a, b interface{}
	want, err := json.Marshal(x.resp)
	must(err)
	must(json.Unmarshal(want, &a))
	if err := json.Unmarshal(n.data, &b); err != nil {
		p.r.fail("D01", "%s stores an outcome that cannot be read: %v", p.what(st), err)
	}
	ja, _ := json.Marshal(a)
	jb, _ := json.Marshal(b)
	if string(ja) != string(jb) {
		p.r.fail("D01", "%s stores another outcome than it answers", p.what(st))
	}
	p.r.stats.inc("outcomes_compared")
}

func (p *diskRun) allPlaces(places map[string]*Step) {
	for d := range diskPaths[1:] {
		for w := range diskWorlds[1:] {
			s := &Step{Mode: fmt.Sprintf("%d%d", d+1, w+1)}
			_, _, key := p.place(s)
			if p.state[key] != nil {
				places[key] = s
			}
		}
	}
}

func (p *diskRun) compareAll(when string) {
	places := map[string]*Step{}
	p.allPlaces(places)
	if d := p.diff(p.actual(places, when), p.state); d != "" {
		p.r.fail("D01", "%s: %s", when, d)
	}
}
