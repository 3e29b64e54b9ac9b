package main

import "math/bits"

// linearize searches for an order of the calls that respects real time and that
// the reference model allows (Wing & Gong with memoisation). It returns the
// possible final states, and whether the search hit its bound. Calls in optional
// may be left out. With first it stops at the first order it finds. Where given,
// dead says of a state that the final one cannot be reached from it.
func linearize(init []State, hist []Event, optional uint64, limit int, first bool, dead func(State) bool) (finals []State, explored int, bounded bool) {
	n := len(hist)
	if n > 63 {
		panic("history too long")
	}
	full := uint64(1)<<uint(n) - 1
	type key struct{ m, h uint64 }
	seen := map[key]bool{}
	outSeen := map[uint64]bool{}
	var dfs func(m uint64, s State) bool
	dfs = func(m uint64, s State) bool {
		k := key{m, s.Hash()}
		if seen[k] {
			return false
		}
		seen[k] = true
		explored++
		if explored > limit {
			bounded = true
			return true
		}
		if m|optional == full && !outSeen[k.h] {
			outSeen[k.h] = true
			finals = append(finals, s)
			if first {
				return true
			}
		}
		if m == full || dead != nil && dead(s) {
			return false
		}
		minRet := never + 1
		for x := full &^ m; x != 0; x &= x - 1 {
			if i := bits.TrailingZeros64(x); hist[i].Ret < minRet {
				minRet = hist[i].Ret
			}
		}
		for x := full &^ m; x != 0; x &= x - 1 {
			i := bits.TrailingZeros64(x)
			if hist[i].Inv > minRet {
				continue
			}
			for _, t := range s.Step(hist[i].Op, hist[i].R) {
				if dfs(m|1<<uint(i), t) {
					return true
				}
			}
		}
		return false
	}
	for _, s := range init {
		if dfs(0, s) {
			break
		}
	}
	return
}
