package main

import (
	"sort"
)

// linNext is one way an operation can go on from a state.
type linNext struct {
	st   any    // new state of the object
	key  string // identifies st
	loc  any    // where the operation is now (unless done)
	lkey string // identifies loc
	done bool
	same bool // done, and the operation has no effect in any state
}

// linOp is one operation of a history.
type linOp struct {
	s, e uint64
	// step lists the ways the operation can go on; an empty list means that
	// it cannot go on in this state with the outcome that was observed.
	step func(st any, loc any) []linNext
	name string
}

type linResult int

const (
	linOK linResult = iota
	linBad
	linUnknown
)

// linearize decides whether the operations can be ordered, in agreement with
// real time, so that every one has the outcome that was observed. Operations
// may consist of several atomic steps.
func linearize(ops []linOp, st any, key string, budget int) (linResult, []int) {
	n := len(ops)
	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	sort.SliceStable(order, func(a, b int) bool { return ops[order[a]].e < ops[order[b]].e })
	type conf struct {
		st   any
		key  string
		done []bool
		loc  []any
		lkey []string
		left int
	}
	seen := map[string]struct{}{}
	nodes := 0
	best := 0
	var bestDone []bool
	var rec func(c *conf) linResult
	rec = func(c *conf) linResult {
		// operations without effect are taken as soon as they fit
		for again := true; again && c.left > 0; {
			again = false
			minE := ^uint64(0)
			for i := range ops {
				if !c.done[i] && ops[i].e < minE {
					minE = ops[i].e
				}
			}
			for _, i := range order {
				if c.done[i] || ops[i].s > minE || c.loc[i] != nil {
					continue
				}
				for _, nx := range ops[i].step(c.st, nil) {
					if nx.done && nx.same {
						c.done[i] = true
						c.left--
						again = true
						break
					}
				}
				if again {
					break
				}
			}
		}
		if n-c.left > best || bestDone == nil {
			best = n - c.left
			bestDone = append([]bool{}, c.done...)
		}
		if c.left == 0 {
			return linOK
		}
		nodes++
		if nodes > budget {
			return linUnknown
		}
		kb := make([]byte, 0, n+len(c.key)+16)
		for i := range ops {
			switch {
			case c.done[i]:
				kb = append(kb, '1')
			case c.loc[i] != nil:
				kb = append(kb, '[')
				kb = append(kb, c.lkey[i]...)
				kb = append(kb, ']')
			default:
				kb = append(kb, '0')
			}
		}
		kb = append(kb, c.key...)
		k := string(kb)
		if _, ok := seen[k]; ok {
			return linBad
		}
		seen[k] = struct{}{}
		minE := ^uint64(0)
		for i := range ops {
			if !c.done[i] && ops[i].e < minE {
				minE = ops[i].e
			}
		}
		for _, i := range order {
			if c.done[i] || ops[i].s > minE {
				continue
			}
			for _, nx := range ops[i].step(c.st, c.loc[i]) {
				d := &conf{st: nx.st, key: nx.key, left: c.left,
					done: append([]bool{}, c.done...), loc: append([]any{}, c.loc...), lkey: append([]string{}, c.lkey...)}
				if nx.done {
					d.done[i] = true
					d.loc[i] = nil
					d.lkey[i] = ""
					d.left--
				} else {
					d.loc[i] = nx.loc
					d.lkey[i] = nx.lkey
				}
				if r := rec(d); r != linBad {
					return r
				}
			}
		}
		return linBad
	}
	c := &conf{st: st, key: key, done: make([]bool, n), loc: make([]any, n), lkey: make([]string, n), left: n}
	r := rec(c)
	var stuck []int
	if r == linBad {
		for _, i := range order {
			if !bestDone[i] {
				stuck = append(stuck, i)
			}
		}
	}
	return r, stuck
}
