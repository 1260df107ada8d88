package main

/*
#include <stdint.h>
extern void wasmsim_set_fault(int k, int64_t n);
extern uint64_t wasmsim_fired(int k);
extern uint64_t wasmsim_seen(int k);
extern void wasmsim_reset(void);
extern void wasmsim_trace(int on);
extern uint64_t wasmsim_trace_len(void);
extern uint64_t *wasmsim_trace_data(void);
extern void wasmsim_trace_clear(void);
extern int64_t wasmsim_live(void);
extern uint64_t wasmsim_misuse(void);
extern uint32_t wasmsim_ev_words(void);
extern uint64_t wasmsim_hash(const uint8_t *p, uint64_t n);
extern void wasmsim_memtrace(int on);
extern uint32_t wasmsim_mem_pages(uint64_t img);
extern uint32_t wasmsim_mem_page_id(uint64_t img, uint32_t i);
extern const uint8_t *wasmsim_page(uint32_t id);
extern uint32_t wasmsim_ncosts(void);
extern void wasmsim_get_costs(uint32_t *p);
extern void wasmer_set_opcode_costs(const uint32_t *p);
extern uint32_t wasmsim_nimports(void);
extern const char *wasmsim_import_name(uint32_t i);
*/
import "C"
import (
	"strings"
	"unsafe"
)

// The event kinds of the engine trace.
const (
	evNew = iota + 1
	evDestroy
	evEnter
	evExit
	evImport
	evImportEnd
)

// The fault points of the engine.
const (
	fInstantiate = iota
	fCache
	fFromCache
	fGrow
	fTrap
	fImportOOG
	fEngineKinds
)

var engineFaultNames = []string{"instantiate", "cache", "from_cache", "grow", "trap", "import_oog"}

// Ev is one event of the execution engine: an instance created or destroyed, an exported function
// entered or left, an imported API function called or finished.
type Ev struct {
	Kind   int
	Inst   uint64
	Module uint64 // NEW, ENTER
	Limit  uint64 // NEW, ENTER
	Costs  uint64 // NEW, ENTER
	Points uint64 // ENTER, EXIT, IMPORT, IMPORT_END
	Ok     bool   // EXIT: ended normally; ENTER: memory and globals are as in the code
	Brk    uint64 // EXIT, IMPORT_END
	Name   string // ENTER: exported function; IMPORT, IMPORT_END: API function
	Args   []int64
	Result int64
	Mem    uint64 // memory image id (0: not recorded)
}

const pageSize = 65536

func engineTrace(on bool, mem bool) {
	b := func(x bool) C.int {
		if x {
			return 1
		}
		return 0
	}
	C.wasmsim_trace(b(on))
	C.wasmsim_memtrace(b(on && mem))
}

func engineTraceClear() { C.wasmsim_trace_clear() }

var importNames []string

func importName(i uint64) string {
	if int(i) >= len(importNames) {
		importNames = nil
		for k := 0; k < int(C.wasmsim_nimports()); k++ {
			importNames = append(importNames, strings.TrimPrefix(C.GoString(C.wasmsim_import_name(C.uint32_t(k))), "v1_3_"))
		}
	}
	if int(i) < len(importNames) {
		return importNames[i]
	}
	return "?"
}

func engineEvents() []Ev {
	n := int(C.wasmsim_trace_len())
	w := int(C.wasmsim_ev_words())
	if n == 0 {
		return nil
	}
	raw := unsafe.Slice((*uint64)(unsafe.Pointer(C.wasmsim_trace_data())), n*w)
	out := make([]Ev, 0, n)
	for i := 0; i < n; i++ {
		e := raw[i*w : (i+1)*w]
		v := Ev{Kind: int(e[0]), Inst: e[1]}
		switch v.Kind {
		case evNew:
			v.Module, v.Limit, v.Costs = e[2], e[3], e[4]
		case evEnter:
			v.Module, v.Points, v.Limit, v.Costs = e[2], e[3], e[4], e[5]
			v.Ok = e[w-1] != 0
			b := unsafe.Slice((*byte)(unsafe.Pointer(&e[6])), 8*(w-7))
			k := 0
			for k < len(b) && b[k] != 0 {
				k++
			}
			v.Name = string(b[:k])
		case evExit:
			v.Ok, v.Points, v.Brk = e[2] != 0, e[3], e[4]
		case evImport:
			v.Name, v.Points, v.Mem = importName(e[2]), e[3], e[5]
			np := int(e[4])
			if np > w-6 {
				np = w - 6
			}
			for k := 0; k < np; k++ {
				v.Args = append(v.Args, int64(e[6+k]))
			}
		case evImportEnd:
			v.Name, v.Points, v.Result, v.Brk, v.Mem = importName(e[2]), e[3], int64(e[4]), e[5], e[6]
		}
		out = append(out, v)
	}
	return out
}

// memLen is the length in bytes of a recorded memory image.
func memLen(img uint64) int { return int(C.wasmsim_mem_pages(C.uint64_t(img))) * pageSize }

func memPage(img uint64, i int) (uint32, []byte) {
	id := C.wasmsim_mem_page_id(C.uint64_t(img), C.uint32_t(i))
	return uint32(id), unsafe.Slice((*byte)(unsafe.Pointer(C.wasmsim_page(id))), pageSize)
}

// memRead reads n bytes at off of a memory image; bytes beyond its end read as zero.
func memRead(img uint64, off, n int) []byte {
	out := make([]byte, n)
	total := memLen(img)
	for k := 0; k < n; {
		p := off + k
		if p >= total {
			break
		}
		_, pg := memPage(img, p/pageSize)
		k += copy(out[k:], pg[p%pageSize:])
	}
	return out
}

func codeHash64(code []byte) uint64 {
	if len(code) == 0 {
		return uint64(C.wasmsim_hash(nil, 0))
	}
	return uint64(C.wasmsim_hash((*C.uint8_t)(unsafe.Pointer(&code[0])), C.uint64_t(len(code))))
}

func engineLive() int64             { return int64(C.wasmsim_live()) }
func engineMisuse() uint64          { return uint64(C.wasmsim_misuse()) }
func engineFault(kind int, n int64) { C.wasmsim_set_fault(C.int(kind), C.int64_t(n)) }
func engineFired(kind int) uint64   { return uint64(C.wasmsim_fired(C.int(kind))) }
func engineSeen(kind int) uint64    { return uint64(C.wasmsim_seen(C.int(kind))) }
func engineReset()                  { C.wasmsim_reset() }

// engineCosts and engineSetCosts save and restore the engine's cost table, of which every process
// has its own.
func engineCosts() []uint32 {
	c := make([]uint32, int(C.wasmsim_ncosts()))
	C.wasmsim_get_costs((*C.uint32_t)(unsafe.Pointer(&c[0])))
	return c
}

func engineSetCosts(c []uint32) { C.wasmer_set_opcode_costs((*C.uint32_t)(unsafe.Pointer(&c[0]))) }
