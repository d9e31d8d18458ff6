package main

import (
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Functions are decoded once: operands become slots, constants, globals or function values.

type opnd struct {
	kind uint8 // 0 none, 1 slot, 2 const, 3 global, 4 func, 5 builtin
	idx  int
	fnv  *Closure
	glob *ssa.Global
	bi   *ssa.Builtin
}

type cins struct {
	in  ssa.Instruction
	dst int // -1
	ops []opnd
}

type cblock struct {
	ins  []cins
	nphi int
	// if-conversion: see merge.go
}

type fnInfo struct {
	fn     *ssa.Function
	nslots int
	params []int
	free   []int
	blocks []cblock
	local  bool // of the repository or the harness
	key    string
	extern bool // package outside the repository
}

var (
	infoCache sync.Map // *ssa.Function -> *fnInfo
	constMu   sync.Mutex
	constTab  []*ssa.Const
)

func getInfo(fn *ssa.Function) *fnInfo {
	if x, ok := infoCache.Load(fn); ok {
		return x.(*fnInfo)
	}
	ensureBuilt(fn)
	fi := &fnInfo{fn: fn, key: fn.String()}
	slots := map[ssa.Value]int{}
	add := func(v ssa.Value) int {
		i := fi.nslots
		slots[v] = i
		fi.nslots++
		return i
	}
	for _, p := range fn.Params {
		fi.params = append(fi.params, add(p))
	}
	for _, p := range fn.FreeVars {
		fi.free = append(fi.free, add(p))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	mkop := func(v ssa.Value) opnd {
		switch v := v.(type) {
		case nil:
			return opnd{}
		case *ssa.Const:
			constMu.Lock()
			constTab = append(constTab, v)
			i := len(constTab) - 1
			constMu.Unlock()
			return opnd{kind: 2, idx: i}
		case *ssa.Global:
			return opnd{kind: 3, glob: v}
		case *ssa.Function:
			return opnd{kind: 4, fnv: &Closure{fn: v}}
		case *ssa.Builtin:
			return opnd{kind: 5, bi: v}
		}
		i, ok := slots[v]
		if !ok {
			panic("compile: no slot for " + v.String() + " in " + fn.String())
		}
		return opnd{kind: 1, idx: i}
	}
	fi.blocks = make([]cblock, len(fn.Blocks))
	for i, b := range fn.Blocks {
		cb := &fi.blocks[i]
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cins{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = slots[v]
			}
			var rands [10]*ssa.Value
			for _, op := range in.Operands(rands[:0]) {
				if op == nil {
					ci.ops = append(ci.ops, opnd{})
				} else {
					ci.ops = append(ci.ops, mkop(*op))
				}
			}
			if _, ok := in.(*ssa.Phi); ok {
				cb.nphi++
			}
			cb.ins = append(cb.ins, ci)
		}
	}
	x, _ := infoCache.LoadOrStore(fn, fi)
	return x.(*fnInfo)
}

func ensureBuilt(fn *ssa.Function) {
	if fn.Pkg != nil && fn.Blocks == nil {
		fn.Pkg.Build()
	}
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}
