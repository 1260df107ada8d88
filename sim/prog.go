package main

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"sort"
)

// A contract program: exported functions made of API calls and a few plain wasm operations. It is
// part of the scenario, so it serialises to JSON, and it assembles to a wasm module.
type Prog struct {
	Funcs   []Func     `json:"funcs"`
	Pool    []HexBytes `json:"pool,omitempty"`
	Exports []Export   `json:"exports,omitempty"` // extra exports, for modules that must be refused
	Pages   int        `json:"pages,omitempty"`   // initial memory pages (0: 1)
	MaxPg   int        `json:"maxpg,omitempty"`   // memory maximum (0: none)
	NoMem   bool       `json:"nomem,omitempty"`
	Import  []string   `json:"import,omitempty"` // extra imports
	Imports []Extern   `json:"imports,omitempty"`
	Salt    uint32     `json:"salt,omitempty"` // makes the code distinct
	Raw     HexBytes   `json:"raw,omitempty"`  // not a module at all: these bytes
}

// Extern is an import that does not exist in the API.
type Extern struct {
	Name string `json:"name"`
	Sig  string `json:"sig"`
}

// Export exports function Func under another name.
type Export struct {
	Name string `json:"name"`
	Func int    `json:"func"`
}

// Func is one exported function. Params and Result are empty for a callable function.
type Func struct {
	Name   string `json:"name"`
	Params string `json:"params,omitempty"`
	Result string `json:"result,omitempty"`
	Ops    []Op   `json:"ops,omitempty"`
}

// Op is one operation. API names an API function or one of: store8, store32, load32, grow, burn,
// trap, ret, add, recurse, setl.
type Op struct {
	API  string `json:"api"`
	Args []Arg  `json:"args,omitempty"`
	Dst  int    `json:"dst,omitempty"`  // local+1 that receives the result
	Cond int    `json:"cond,omitempty"` // local+1 that must be non-zero (negative: zero) for the operation to run
}

// Arg is a constant ("c"), a local ("l"), the address ("p") or the length ("n") of a pool entry.
type Arg struct {
	K string `json:"k"`
	V int64  `json:"v"`
}

// HexBytes serialises as hexadecimal.
type HexBytes []byte

func (h HexBytes) MarshalJSON() ([]byte, error) {
	return []byte(`"` + hex.EncodeToString(h) + `"`), nil
}
func (h *HexBytes) UnmarshalJSON(b []byte) error {
	if len(b) < 2 {
		return fmt.Errorf("bad hex")
	}
	x, err := hex.DecodeString(string(b[1 : len(b)-1]))
	*h = x
	return err
}

func cst(v int64) Arg  { return Arg{"c", v} }
func loc(v int) Arg    { return Arg{"l", int64(v)} }
func ptr(i int) Arg    { return Arg{"p", int64(i)} }
func length(i int) Arg { return Arg{"n", int64(i)} }

const (
	poolBase = 64
	scratch  = 40960 // contract programs write their results from here on
	nI32     = 8     // locals 0..7 are i32, 8..11 are i64
	nI64     = 4
)

type wbuf struct{ b []byte }

func (w *wbuf) u(v uint64) {
	for {
		c := byte(v & 0x7f)
		v >>= 7
		if v != 0 {
			w.b = append(w.b, c|0x80)
			continue
		}
		w.b = append(w.b, c)
		return
	}
}
func (w *wbuf) s(v int64) {
	for {
		c := byte(v & 0x7f)
		v >>= 7
		if (v == 0 && c&0x40 == 0) || (v == -1 && c&0x40 != 0) {
			w.b = append(w.b, c)
			return
		}
		w.b = append(w.b, c|0x80)
	}
}
func (w *wbuf) op(b ...byte)   { w.b = append(w.b, b...) }
func (w *wbuf) name(s string)  { w.u(uint64(len(s))); w.b = append(w.b, s...) }
func (w *wbuf) bytes(x []byte) { w.u(uint64(len(x))); w.b = append(w.b, x...) }

func valtypes(s string) []byte {
	var out []byte
	for _, c := range s {
		if c == 'l' {
			out = append(out, 0x7e)
		} else {
			out = append(out, 0x7f)
		}
	}
	return out
}

func (p *Prog) poolOffset(i int) (int, int) {
	off := poolBase
	for k, e := range p.Pool {
		if k == i {
			return off, len(e)
		}
		off += (len(e) + 3) &^ 3
	}
	return off, 0
}

func (p *Prog) addPool(b []byte) int {
	for i, e := range p.Pool {
		if string(e) == string(b) {
			return i
		}
	}
	p.Pool = append(p.Pool, append([]byte{}, b...))
	return len(p.Pool) - 1
}

func isLocal64(i int64) bool { return i >= nI32 }

// Assemble builds the wasm module.
func (p *Prog) Assemble() []byte {
	if p.Raw != nil {
		return p.Raw
	}
	used := map[string]bool{}
	for _, f := range p.Funcs {
		for _, o := range f.Ops {
			if _, ok := apiSigs[o.API]; ok {
				used[o.API] = true
			}
		}
	}
	for _, n := range p.Import {
		used[n] = true
	}
	var imports []string
	for n := range used {
		imports = append(imports, n)
	}
	sort.Strings(imports)
	var types []string
	typeIdx := map[string]int{}
	ty := func(ps, r string) int {
		k := ps + ">" + r
		if i, ok := typeIdx[k]; ok {
			return i
		}
		typeIdx[k] = len(types)
		types = append(types, k)
		return len(types) - 1
	}
	impIdx := map[string]int{}
	var imp wbuf
	imp.u(uint64(len(imports) + len(p.Imports)))
	for i, n := range imports {
		s := apiSigs[n]
		impIdx[n] = i
		imp.name("env")
		imp.name(n)
		imp.op(0)
		imp.u(uint64(ty(s[0], s[1])))
	}
	for _, x := range p.Imports {
		imp.name("env")
		imp.name(x.Name)
		imp.op(0)
		imp.u(uint64(ty(x.Sig, "")))
	}
	nimp := len(imports) + len(p.Imports)
	var fsec, code wbuf
	fsec.u(uint64(len(p.Funcs)))
	code.u(uint64(len(p.Funcs)))
	for fi, f := range p.Funcs {
		fsec.u(uint64(ty(f.Params, f.Result)))
		code.bytes(p.body(fi, f, impIdx, nimp))
	}
	var tsec wbuf
	tsec.u(uint64(len(types)))
	for _, k := range types {
		var ps, r string
		for i := range k {
			if k[i] == '>' {
				ps, r = k[:i], k[i+1:]
			}
		}
		tsec.op(0x60)
		tsec.bytes(valtypes(ps))
		tsec.bytes(valtypes(r))
	}
	var msec wbuf
	pages := p.Pages
	if pages == 0 {
		pages = 1
	}
	msec.u(1)
	if p.MaxPg > 0 {
		msec.op(1)
		msec.u(uint64(pages))
		msec.u(uint64(p.MaxPg))
	} else {
		msec.op(0)
		msec.u(uint64(pages))
	}
	var esec wbuf
	n := len(p.Funcs) + len(p.Exports)
	if !p.NoMem {
		n++
	}
	esec.u(uint64(n))
	if !p.NoMem {
		esec.name("memory")
		esec.op(2, 0)
	}
	for i, f := range p.Funcs {
		esec.name(f.Name)
		esec.op(0)
		esec.u(uint64(nimp + i))
	}
	for _, e := range p.Exports {
		esec.name(e.Name)
		esec.op(0)
		esec.u(uint64(nimp + e.Func))
	}
	var dsec wbuf
	data := make([]byte, 0)
	for i, e := range p.Pool {
		off, _ := p.poolOffset(i)
		for len(data) < off-poolBase {
			data = append(data, 0)
		}
		data = append(data, e...)
	}
	nd := 0
	if len(data) > 0 {
		nd++
	}
	if p.Salt != 0 {
		nd++
	}
	dsec.u(uint64(nd))
	if len(data) > 0 {
		dsec.u(0)
		dsec.op(0x41)
		dsec.s(poolBase)
		dsec.op(0x0b)
		dsec.bytes(data)
	}
	if p.Salt != 0 {
		b := make([]byte, 4)
		binary.LittleEndian.PutUint32(b, p.Salt)
		dsec.u(0)
		dsec.op(0x41)
		dsec.s(16)
		dsec.op(0x0b)
		dsec.bytes(b)
	}
	var m wbuf
	m.op(0, 'a', 's', 'm', 1, 0, 0, 0)
	sec := func(id byte, b []byte) { m.op(id); m.bytes(b) }
	sec(1, tsec.b)
	if nimp > 0 {
		sec(2, imp.b)
	}
	sec(3, fsec.b)
	if !p.NoMem {
		sec(5, msec.b)
	}
	sec(7, esec.b)
	sec(10, code.b)
	if nd > 0 && !p.NoMem {
		sec(11, dsec.b)
	}
	return m.b
}

// localIndex maps a program local to the wasm local, after the parameters.
func (f *Func) localIndex(l int64) uint64 { return uint64(len(f.Params)) + uint64(l) }

func (p *Prog) push(w *wbuf, f *Func, a Arg, t byte) {
	switch a.K {
	case "l":
		l := a.V % (nI32 + nI64)
		w.op(0x20)
		w.u(f.localIndex(l))
		if isLocal64(l) && t == 'i' {
			w.op(0xa7) // i32.wrap
		} else if !isLocal64(l) && t == 'l' {
			w.op(0xac) // i64.extend_s
		}
		return
	case "p", "n":
		off, n := p.poolOffset(int(a.V))
		v := int64(off)
		if a.K == "n" {
			v = int64(n)
		}
		if t == 'l' {
			w.op(0x42)
		} else {
			w.op(0x41)
		}
		w.s(v)
		return
	}
	if t == 'l' {
		w.op(0x42)
		w.s(a.V)
	} else {
		w.op(0x41)
		w.s(int64(int32(a.V)))
	}
}

func (p *Prog) setDst(w *wbuf, f *Func, dst int, t string) {
	if t == "" {
		return
	}
	if dst <= 0 {
		w.op(0x1a)
		return
	}
	l := int64(dst-1) % (nI32 + nI64)
	if isLocal64(l) && t == "i" {
		w.op(0xac)
	} else if !isLocal64(l) && t == "l" {
		w.op(0xa7)
	}
	w.op(0x21)
	w.u(f.localIndex(l))
}

func arg(o Op, i int) Arg {
	if i < len(o.Args) {
		return o.Args[i]
	}
	return cst(0)
}

func (p *Prog) body(fi int, f Func, impIdx map[string]int, nimp int) []byte {
	var w wbuf
	w.u(2)
	w.u(nI32)
	w.op(0x7f)
	w.u(nI64)
	w.op(0x7e)
	for _, o := range f.Ops {
		if o.Cond != 0 {
			c := o.Cond
			if c < 0 {
				c = -c
			}
			p.push(&w, &f, loc(c-1), 'i')
			if o.Cond < 0 {
				w.op(0x45) // i32.eqz
			}
			w.op(0x04, 0x40)
		}
		switch o.API {
		case "trap":
			w.op(0x00)
		case "ret":
			for range f.Result {
				w.op(0x41, 0)
			}
			w.op(0x0f)
		case "store8", "store32":
			p.push(&w, &f, arg(o, 0), 'i')
			p.push(&w, &f, arg(o, 1), 'i')
			if o.API == "store8" {
				w.op(0x3a, 0, 0)
			} else {
				w.op(0x36, 0, 0)
			}
		case "load32":
			p.push(&w, &f, arg(o, 0), 'i')
			w.op(0x28, 0, 0)
			p.setDst(&w, &f, o.Dst, "i")
		case "grow":
			p.push(&w, &f, arg(o, 0), 'i')
			w.op(0x40, 0)
			p.setDst(&w, &f, o.Dst, "i")
		case "setl":
			p.push(&w, &f, arg(o, 0), 'l')
			p.setDst(&w, &f, o.Dst, "l")
		case "add":
			p.push(&w, &f, arg(o, 0), 'i')
			p.push(&w, &f, arg(o, 1), 'i')
			w.op(0x6a)
			p.setDst(&w, &f, o.Dst, "i")
		case "eq":
			p.push(&w, &f, arg(o, 0), 'i')
			p.push(&w, &f, arg(o, 1), 'i')
			w.op(0x46)
			p.setDst(&w, &f, o.Dst, "i")
		case "burn": // local 7 counts down
			p.push(&w, &f, arg(o, 0), 'i')
			w.op(0x21)
			w.u(f.localIndex(7))
			w.op(0x03, 0x40, 0x20)
			w.u(f.localIndex(7))
			w.op(0x41, 1, 0x6b, 0x22)
			w.u(f.localIndex(7))
			w.op(0x0d, 0, 0x0b)
		case "loop": // endless
			w.op(0x03, 0x40, 0x0c, 0, 0x0b)
		case "recurse": // a plain wasm call of a function of the same module
			t := int(arg(o, 0).V) % len(p.Funcs)
			if p.Funcs[t].Params == "" {
				w.op(0x10)
				w.u(uint64(nimp + t))
				if p.Funcs[t].Result != "" {
					w.op(0x1a)
				}
			}
		default:
			s := apiSigs[o.API]
			for i := range s[0] {
				p.push(&w, &f, arg(o, i), s[0][i])
			}
			w.op(0x10)
			w.u(uint64(impIdx[o.API]))
			p.setDst(&w, &f, o.Dst, s[1])
		}
		if o.Cond != 0 {
			w.op(0x0b)
		}
	}
	for _, r := range f.Result {
		if r == 'l' {
			w.op(0x42, 0)
		} else {
			w.op(0x41, 0)
		}
	}
	w.op(0x0b)
	_ = fi
	return w.b
}
