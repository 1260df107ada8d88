package main

import (
	"sync"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/wasmer"
)

// modInfo is what the model knows about a code.
type modInfo struct {
	accepted bool // the engine takes it
	memory   bool // a memory is exported
	exports  map[string][2]int
	imports  map[string]bool
	maxPages int // 0: no maximum
}

var modCache sync.Map

func moduleInfo(code []byte) *modInfo {
	if v, ok := modCache.Load(string(code)); ok {
		return v.(*modInfo)
	}
	info := &modInfo{exports: map[string][2]int{}, imports: map[string]bool{}}
	inst, err := wasmer.NewInstanceWithOptions(code, wasmer.CompilationOptions{
		GasLimit: 1000, UnmeteredLocals: 4000, OpcodeTrace: false, Metering: true, RuntimeBreakpoints: true})
	if err == nil {
		info.accepted = true
		inst.Clean()
		parseExports(code, info)
	}
	modCache.Store(string(code), info)
	return info
}

// parseExports reads the exports and their signatures of a module the engine has accepted.
func parseExports(code []byte, info *modInfo) {
	p := 8
	u := func() int {
		v, s := 0, uint(0)
		for p < len(code) {
			b := code[p]
			p++
			v |= int(b&0x7f) << s
			s += 7
			if b&0x80 == 0 {
				break
			}
		}
		return v
	}
	var types [][2]int
	var funcs []int
	limits := func() int {
		f := u()
		u()
		if f&1 != 0 {
			return u()
		}
		return 0
	}
	for p < len(code) {
		id := code[p]
		p++
		n := u()
		end := p + n
		switch id {
		case 1:
			for k := u(); k > 0; k-- {
				p++
				a := u()
				p += a
				b := u()
				p += b
				types = append(types, [2]int{a, b})
			}
		case 2:
			for k := u(); k > 0; k-- {
				l := u()
				p += l
				l = u()
				name := string(code[p : p+l])
				p += l
				kind := code[p]
				p++
				switch kind {
				case 0:
					funcs = append(funcs, u())
					info.imports[name] = true
				case 1:
					p++
					limits()
				case 2:
					info.maxPages = limits()
				case 3:
					p += 2
				}
			}
		case 3:
			for k := u(); k > 0; k-- {
				funcs = append(funcs, u())
			}
		case 5:
			for k := u(); k > 0; k-- {
				info.maxPages = limits()
			}
		case 7:
			for k := u(); k > 0; k-- {
				l := u()
				name := string(code[p : p+l])
				p += l
				kind := code[p]
				p++
				i := u()
				if kind == 0 && i < len(funcs) && funcs[i] < len(types) {
					info.exports[name] = types[funcs[i]]
				}
				if kind == 2 {
					info.memory = true
				}
			}
		}
		p = end
	}
}
