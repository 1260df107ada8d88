package main

import "sort"

func sortBig(s []string) { sort.Strings(s) }

type opc struct {
	name string
	code byte
	in   string // operand types
	out  string
}

// Integer instructions by their number in the WebAssembly specification.
var opcodes = func() []opc {
	var o []opc
	add := func(first byte, in, out string, names ...string) {
		for i, n := range names {
			o = append(o, opc{n, first + byte(i), in, out})
		}
	}
	add(0x45, "i", "i", "I32Eqz")
	add(0x46, "ii", "i", "I32Eq", "I32Ne", "I32LtS", "I32LtU", "I32GtS", "I32GtU", "I32LeS", "I32LeU", "I32GeS", "I32GeU")
	add(0x50, "l", "i", "I64Eqz")
	add(0x51, "ll", "i", "I64Eq", "I64Ne", "I64LtS", "I64LtU", "I64GtS", "I64GtU", "I64LeS", "I64LeU", "I64GeS", "I64GeU")
	add(0x67, "i", "i", "I32Clz", "I32Ctz", "I32Popcnt")
	add(0x6a, "ii", "i", "I32Add", "I32Sub", "I32Mul", "I32DivS", "I32DivU", "I32RemS", "I32RemU", "I32And", "I32Or", "I32Xor", "I32Shl", "I32ShrS", "I32ShrU", "I32Rotl", "I32Rotr")
	add(0x79, "l", "l", "I64Clz", "I64Ctz", "I64Popcnt")
	add(0x7c, "ll", "l", "I64Add", "I64Sub", "I64Mul", "I64DivS", "I64DivU", "I64RemS", "I64RemU", "I64And", "I64Or", "I64Xor", "I64Shl", "I64ShrS", "I64ShrU", "I64Rotl", "I64Rotr")
	add(0xa7, "l", "i", "I32WrapI64")
	add(0xac, "i", "l", "I64ExtendI32S", "I64ExtendI32U")
	return o
}()

// canaryCode is a module that executes every integer instruction once between two API calls, and
// what that costs by the schedule.
func canaryCode(costs map[string]uint64) ([]byte, uint64) {
	var w wbuf
	sum := uint64(0)
	op := func(name string, b ...byte) { w.op(b...); sum += costs[name] }
	w.u(1)
	w.u(2)
	w.op(0x7f) // two i32 locals
	w.op(0x10)
	w.u(0)
	w.op(0x1a) // getGasLeft, drop
	sum += costs["Drop"]
	for k, o := range opcodes {
		for _, t := range o.in {
			if t == 'i' {
				op("I32Const", 0x41, byte(1+k%60))
			} else {
				op("I64Const", 0x42, byte(1+k%60))
			}
		}
		op(o.name, o.code)
		op("Drop", 0x1a)
	}
	type mem struct {
		name string
		code byte
		t    byte
	}
	for _, m := range []mem{{"I32Load", 0x28, 'i'}, {"I64Load", 0x29, 'l'}, {"I32Load8S", 0x2c, 'i'}, {"I32Load8U", 0x2d, 'i'},
		{"I32Load16S", 0x2e, 'i'}, {"I32Load16U", 0x2f, 'i'}, {"I64Load8S", 0x30, 'l'}, {"I64Load8U", 0x31, 'l'}, {"I64Load16S", 0x32, 'l'},
		{"I64Load16U", 0x33, 'l'}, {"I64Load32S", 0x34, 'l'}, {"I64Load32U", 0x35, 'l'}} {
		op("I32Const", 0x41, 8)
		op(m.name, m.code, 0, 0)
		op("Drop", 0x1a)
	}
	for _, m := range []mem{{"I32Store", 0x36, 'i'}, {"I64Store", 0x37, 'l'}, {"I32Store8", 0x3a, 'i'}, {"I32Store16", 0x3b, 'i'},
		{"I64Store8", 0x3c, 'l'}, {"I64Store16", 0x3d, 'l'}, {"I64Store32", 0x3e, 'l'}} {
		op("I32Const", 0x41, 8)
		if m.t == 'i' {
			op("I32Const", 0x41, 5)
		} else {
			op("I64Const", 0x42, 5)
		}
		op(m.name, m.code, 0, 0)
	}
	op("Nop", 0x01)
	op("I32Const", 0x41, 3)
	op("LocalSet", 0x21, 0)
	op("LocalGet", 0x20, 0)
	op("LocalTee", 0x22, 1)
	op("Drop", 0x1a)
	op("I32Const", 0x41, 1)
	op("I32Const", 0x41, 2)
	op("I32Const", 0x41, 0)
	op("Select", 0x1b)
	op("Drop", 0x1a)
	op("MemorySize", 0x3f, 0)
	op("Drop", 0x1a)
	op("I32Const", 0x41, 0)
	op("MemoryGrow", 0x40, 0)
	op("Drop", 0x1a)
	op("Block", 0x02, 0x40)
	op("I32Const", 0x41, 0)
	op("BrIf", 0x0d, 0)
	op("End", 0x0b)
	op("I32Const", 0x41, 1)
	op("If", 0x04, 0x40)
	op("Nop", 0x01)
	op("End", 0x0b)
	op("Loop", 0x03, 0x40)
	op("Nop", 0x01)
	op("End", 0x0b)
	w.op(0x10)
	w.u(0)
	sum += costs["Call"]
	w.op(0x1a, 0x0b)

	var m wbuf
	m.op(0, 'a', 's', 'm', 1, 0, 0, 0)
	sec := func(id byte, f func(b *wbuf)) {
		var b wbuf
		f(&b)
		m.op(id)
		m.bytes(b.b)
	}
	sec(1, func(b *wbuf) { b.u(2); b.op(0x60, 0, 1, 0x7e, 0x60, 0, 0) })
	sec(2, func(b *wbuf) { b.u(1); b.name("env"); b.name("getGasLeft"); b.op(0, 0) })
	sec(3, func(b *wbuf) { b.u(1); b.u(1) })
	sec(5, func(b *wbuf) { b.u(1); b.op(0, 1) })
	sec(7, func(b *wbuf) { b.u(2); b.name("memory"); b.op(2, 0); b.name("c"); b.op(0, 1) })
	sec(10, func(b *wbuf) { b.u(1); b.bytes(w.b) })
	return m.b, sum
}
