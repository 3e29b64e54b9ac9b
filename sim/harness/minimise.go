package main

import (
	"simrt"
	"time"
)

// shrinker reduces a failing case while the same class of violation persists.
type shrinker struct {
	class string
	sig   string
	best  *Case
	out   *Outcome
	end   time.Time
	runs  int
	rng   simrt.Rng
	gen   []simrt.Sched // the schedule generators the rounds started with
	gseed []uint64
}

func (z *shrinker) over() bool { return time.Now().After(z.end) }

// try runs a candidate and keeps it if it fails in the same way.
func (z *shrinker) try(cs *Case) bool {
	z.runs++
	out := runCase(cs)
	if out.Class != z.class || out.Sig != z.sig {
		return false
	}
	n := cs.clone()
	n.Rounds = n.Rounds[:min(len(n.Rounds), out.Round+1)]
	z.best, z.out = n, out
	return true
}

// tryHard also looks for another schedule under which the candidate fails.
func (z *shrinker) tryHard(cs *Case, n int) bool {
	if z.try(cs) {
		return true
	}
	last := len(cs.Rounds) - 1
	if last < 0 {
		return false
	}
	for i := 0; i < n && !z.over(); i++ {
		c := cs.clone()
		rd := c.Rounds[last]
		rd.Seed = z.rng.U64()
		if i%3 == 0 && last < len(z.gen) {
			rd.Sched = z.gen[last]
		} else {
			g := &gen{r: simrt.NewRng(z.rng.U64())}
			ops := 0
			for _, t := range rd.T {
				ops += len(t)
			}
			rd.Sched = g.sched(ops)
		}
		rd.Sched.CrashStep = cs.Rounds[last].Sched.CrashStep
		z.runs++
		out := runCase(c)
		if out.Class == z.class && out.Sig == z.sig && out.Round == last {
			c = pinSchedules(c, out)
			if z.try(c) {
				return true
			}
		}
	}
	return false
}

// pinSchedules replaces schedule generators by the decisions they made.
func pinSchedules(cs *Case, out *Outcome) *Case {
	n := cs.clone()
	n.Rounds = n.Rounds[:min(len(n.Rounds), out.Round+1)]
	for i, rd := range n.Rounds {
		if i < len(out.Recorded) {
			rd.Sched = out.Recorded[i]
			rd.Seed = 0
		}
	}
	return n
}

// minimise shrinks a failing case. The result replays the same class of
// violation by following a recorded list of scheduling decisions.
func minimise(cs *Case, out *Outcome, limit time.Duration) (*Case, *Outcome, int) {
	z := &shrinker{class: out.Class, sig: out.Sig, best: cs.clone(), out: out, end: time.Now().Add(limit), rng: simrt.NewRng(cs.Seed ^ 0x5eed)}
	for _, rd := range cs.Rounds {
		z.gen = append(z.gen, rd.Sched)
	}
	if !z.try(pinSchedules(cs, out)) {
		// The recorded decisions do not reproduce it (they should): keep the generator.
		return cs, out, z.runs
	}
	for pass := 0; pass < 6 && !z.over(); pass++ {
		before := z.size()
		z.dropRounds()
		z.dropClients()
		z.shrinkPrefill()
		z.dropOps()
		z.simplify()
		z.dropSwitches()
		if z.size() >= before {
			break
		}
	}
	// what is reported is what a replay of the final case shows
	final := runCase(z.best)
	if final.Class == z.class {
		z.out = final
	}
	return z.best, z.out, z.runs
}

func (z *shrinker) size() int {
	n := 0
	for _, p := range z.best.Pre {
		for _, op := range p {
			n += 2
			if isBlock(op.K) {
				for _, a := range op.A {
					n += max(a, -a) / 2
				}
			}
		}
	}
	for _, rd := range z.best.Rounds {
		n += 5 + 3*len(rd.Sched.Switches)
		for _, t := range rd.T {
			n += 10 * len(t)
		}
	}
	return n + len(z.best.Init)
}

func (z *shrinker) dropRounds() {
	for i := len(z.best.Rounds) - 2; i >= 0 && !z.over(); i-- {
		if i >= len(z.best.Rounds)-1 {
			continue
		}
		c := z.best.clone()
		c.Rounds = append(c.Rounds[:i:i], c.Rounds[i+1:]...)
		z.tryHard(c, 4)
	}
}

func (z *shrinker) dropClients() {
	for ri := range z.best.Rounds {
		for ti := 0; ri < len(z.best.Rounds) && ti < len(z.best.Rounds[ri].T); ti++ {
			if len(z.best.Rounds[ri].T[ti]) == 0 || z.over() {
				continue
			}
			c := z.best.clone()
			rd := c.Rounds[ri]
			rd.T[ti] = nil
			var sw []simrt.Switch
			for _, w := range rd.Sched.Switches {
				if w.T != ti || w.Op < 0 {
					sw = append(sw, w)
				}
			}
			rd.Sched.Switches = sw
			z.tryHard(c, 25)
		}
	}
}

// withoutOp removes call i of client t from round ri.
func withoutOp(cs *Case, ri, t, i int) *Case {
	c := cs.clone()
	rd := c.Rounds[ri]
	rd.T[t] = append(rd.T[t][:i:i], rd.T[t][i+1:]...)
	var sw []simrt.Switch
	for _, w := range rd.Sched.Switches {
		if w.T == t && w.Op == i {
			continue
		}
		if w.T == t && w.Op > i {
			w.Op--
		}
		sw = append(sw, w)
	}
	rd.Sched.Switches = sw
	return c
}

func (z *shrinker) dropOps() {
	for ri := len(z.best.Rounds) - 1; ri >= 0; ri-- {
		if ri >= len(z.best.Rounds) {
			continue
		}
		for t := 0; ri < len(z.best.Rounds) && t < len(z.best.Rounds[ri].T); t++ {
			for i := len(z.best.Rounds[ri].T[t]) - 1; i >= 0 && !z.over(); i-- {
				if ri >= len(z.best.Rounds) || i >= len(z.best.Rounds[ri].T[t]) {
					break
				}
				z.tryHard(withoutOp(z.best, ri, t, i), 12)
			}
		}
	}
}

func isBlock(k string) bool {
	switch k {
	case "insn", "deln", "pushn", "pushbn", "pushfn", "popfn", "popbn",
		"churn", "cycle", "cyclef", "cycleb", "rcycle", "faddn":
		return true
	}
	return false
}

// countArg is the position of the count among the arguments of a block operation.
func countArg(op Op, pair bool) int {
	k := 1
	switch op.K {
	case "popfn", "popbn", "cycle":
		k = 0
	case "faddn":
		k = 2
	case "churn":
		k = 5
	}
	if pair {
		k++
	}
	return k
}

func (z *shrinker) shrinkPrefill() {
	pair := false
	for _, k := range z.best.Kinds {
		pair = pair || k == "pair"
	}
	for p := range z.best.Pre {
		for n := len(z.best.Pre[p]); n >= 1; n /= 2 {
			for i := 0; i < len(z.best.Pre[p]) && !z.over(); {
				c := z.best.clone()
				e := min(i+n, len(c.Pre[p]))
				c.Pre[p] = append(c.Pre[p][:i:i], c.Pre[p][e:]...)
				if !z.try(c) {
					i += n
				}
			}
		}
		for i := 0; i < len(z.best.Pre[p]); i++ {
			op := z.best.Pre[p][i]
			if !isBlock(op.K) {
				continue
			}
			k := countArg(op, pair)
			if k >= len(op.A) {
				continue
			}
			for d := op.A[k]; d >= 1 && !z.over(); d /= 2 {
				for z.best.Pre[p][i].A[k] > d && !z.over() {
					c := z.best.clone()
					a := clone(c.Pre[p][i].A)
					a[k] -= d
					c.Pre[p][i].A = a
					if !z.try(c) {
						break
					}
				}
			}
		}
	}
}

// simplify removes faults and sets parameters to their plainest value.
func (z *shrinker) simplify() {
	for ri := range z.best.Rounds {
		if ri < len(z.best.Rounds) && z.best.Rounds[ri].Sched.CrashStep != 0 && !z.over() {
			c := z.best.clone()
			c.Rounds[ri].Sched.CrashStep = 0
			z.try(c)
		}
	}
	for ri := range z.best.Rounds {
		for t := range z.best.Rounds[ri].T {
			for i := range z.best.Rounds[ri].T[t] {
				if ri >= len(z.best.Rounds) || i >= len(z.best.Rounds[ri].T[t]) || z.best.Rounds[ri].T[t][i].F == nil || z.over() {
					continue
				}
				c := z.best.clone()
				c.Rounds[ri].T[t][i].F = nil
				z.try(c)
			}
		}
	}
	for _, k := range []string{"kt", "rev", "hashmode", "hashseed", "randmode", "randseed", "clock", "coarse", "contpre", "nest", "cont", "front", "maxlevel", "optord", "bctor"} {
		if z.best.P[k] == 0 || z.over() {
			continue
		}
		c := z.best.clone()
		delete(c.P, k)
		z.try(c)
	}
}

func (z *shrinker) dropSwitches() {
	for ri := 0; ri < len(z.best.Rounds); ri++ {
		if len(z.best.Rounds[ri].Sched.Switches) == 0 {
			continue
		}
		for n := len(z.best.Rounds[ri].Sched.Switches); n >= 1; n /= 2 {
			for i := 0; ri < len(z.best.Rounds) && i < len(z.best.Rounds[ri].Sched.Switches) && !z.over(); {
				c := z.best.clone()
				s := c.Rounds[ri].Sched.Switches
				e := min(i+n, len(s))
				c.Rounds[ri].Sched.Switches = append(s[:i:i], s[e:]...)
				if !z.try(c) {
					i += n
				}
			}
		}
	}
}
