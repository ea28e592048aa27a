package main

import (
	"sync"

	"golang.org/x/tools/go/ssa"
)

// FnInfo: register slots, post-dominators and liveness of one SSA function.
type FnInfo struct {
	fn    *ssa.Function
	slot  map[ssa.Value]int
	n     int
	ipdom []*ssa.BasicBlock
	live  [][]uint64 // per block: live registers after its phis
	nphi  []int
	quits []bool // per block: its branch may leave a loop
	plain []bool // per block: its branch only chooses between two short pieces of straight code
}

var (
	fnMu   sync.Mutex
	fnInfo = map[*ssa.Function]*FnInfo{}
)

func getInfo(fn *ssa.Function) *FnInfo {
	fnMu.Lock()
	defer fnMu.Unlock()
	if i, ok := fnInfo[fn]; ok {
		return i
	}
	fi := &FnInfo{fn: fn, slot: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		fi.slot[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	nb := len(fn.Blocks)
	fi.nphi = make([]int, nb)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
			if _, ok := in.(*ssa.Phi); ok {
				fi.nphi[b.Index]++
			}
		}
	}
	fi.quits = make([]bool, nb)
	reaches := func(from, to *ssa.BasicBlock) bool {
		seen := make([]bool, nb)
		work := []*ssa.BasicBlock{from}
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			if b == to {
				return true
			}
			if seen[b.Index] {
				continue
			}
			seen[b.Index] = true
			work = append(work, b.Succs...)
		}
		return false
	}
	for i, b := range fn.Blocks {
		if len(b.Succs) == 2 {
			fi.quits[i] = reaches(b.Succs[0], b) != reaches(b.Succs[1], b)
		}
	}
	// post-dominators (blocks ending in panic do not reach the exit and are ignored)
	w := (nb + 63) / 64
	full := make([]uint64, w)
	for i := range full {
		full[i] = ^uint64(0)
	}
	pd := make([][]uint64, nb)
	exit := make([]bool, nb)
	for i, b := range fn.Blocks {
		pd[i] = append([]uint64(nil), full...)
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				exit[i] = true
				pd[i] = make([]uint64, w)
				pd[i][i/64] |= 1 << uint(i%64)
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for i := nb - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			if exit[i] || len(b.Succs) == 0 {
				continue
			}
			nw := append([]uint64(nil), full...)
			for _, s := range b.Succs {
				for k := range nw {
					nw[k] &= pd[s.Index][k]
				}
			}
			nw[i/64] |= 1 << uint(i%64)
			for k := range nw {
				if nw[k] != pd[i][k] {
					ch = true
				}
			}
			pd[i] = nw
		}
	}
	cnt := func(x []uint64) int {
		n := 0
		for i := 0; i < nb; i++ {
			if x[i/64]>>uint(i%64)&1 == 1 {
				n++
			}
		}
		return n
	}
	fi.ipdom = make([]*ssa.BasicBlock, nb)
	for i := range fn.Blocks {
		best, bn := -1, -1
		if cnt(pd[i]) == nb && nb > 1 && !exit[i] {
			// cannot reach the exit
			reach := false
			for k := 0; k < w; k++ {
				if pd[i][k] != full[k] {
					reach = true
				}
			}
			if !reach {
				continue
			}
		}
		for j := 0; j < nb; j++ {
			if j != i && pd[i][j/64]>>uint(j%64)&1 == 1 {
				if c := cnt(pd[j]); c > bn {
					best, bn = j, c
				}
			}
		}
		if best >= 0 {
			fi.ipdom[i] = fn.Blocks[best]
		}
	}
	fi.plain = make([]bool, nb)
	for i, b := range fn.Blocks {
		if len(b.Succs) != 2 {
			continue
		}
		fi.plain[i] = true
		for _, x := range b.Succs {
			if x == fi.ipdom[i] {
				continue
			}
			end := len(x.Succs) == 1 && x.Succs[0] == fi.ipdom[i]
			for _, in := range x.Instrs {
				switch in.(type) {
				case *ssa.Return:
					end = end || fi.ipdom[i] == nil
				case *ssa.Call, *ssa.Go, *ssa.Defer, *ssa.Panic, *ssa.RunDefers:
					fi.plain[i] = false
				}
			}
			fi.plain[i] = fi.plain[i] && end
		}
	}
	// liveness
	rw := (fi.n + 63) / 64
	if rw == 0 {
		rw = 1
	}
	liveIn := make([][]uint64, nb) // before phis are excluded: after-phi liveness
	for i := range liveIn {
		liveIn[i] = make([]uint64, rw)
	}
	set := func(x []uint64, v ssa.Value) {
		if s, ok := fi.slot[v]; ok {
			x[s/64] |= 1 << uint(s%64)
		}
	}
	clr := func(x []uint64, v ssa.Value) {
		if s, ok := fi.slot[v]; ok {
			x[s/64] &^= 1 << uint(s%64)
		}
	}
	var ops [16]*ssa.Value
	for ch := true; ch; {
		ch = false
		for i := nb - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := make([]uint64, rw)
			for _, s := range b.Succs {
				tmp := append([]uint64(nil), liveIn[s.Index]...)
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
						break
					}
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					clr(tmp, ph)
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for k, p := range s.Preds {
						if p == b || k == pi {
							set(tmp, ph.Edges[k])
						}
					}
				}
				for k := range cur {
					cur[k] |= tmp[k]
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if _, ok := in.(*ssa.Phi); ok {
					break
				}
				if v, ok := in.(ssa.Value); ok {
					clr(cur, v)
				}
				for _, o := range in.Operands(ops[:0]) {
					if *o != nil {
						set(cur, *o)
					}
				}
			}
			for k := range cur {
				if cur[k] != liveIn[i][k] {
					liveIn[i] = cur
					ch = true
					break
				}
			}
		}
	}
	fi.live = liveIn
	fnInfo[fn] = fi
	return fi
}
