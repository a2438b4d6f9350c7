package main

import "sort"

func sortStrings(s []string) { sort.Strings(s) }

func pick(names ...string) []*sigma {
	var out []*sigma
	for _, s := range sigmas() {
		for _, n := range names {
			if s.typ == n {
				out = append(out, s)
			}
		}
	}
	return out
}

// premises: the point primitives the protocols are analysed against.
func (c *Check) premises() {
	c.checkEqual()
	c.checkPrims()
}

func init() {
	register(&checkDef{id: "C01", run: func(c *Check) {
		for _, s := range pick("GSPFSProof", "EquivalenceProof", "ConsistencyProof") {
			c.checkSound(s, true, false)
		}
		c.premises()
	}})
	register(&checkDef{id: "C02", run: func(c *Check) {
		for _, s := range pick("DisjunctiveProof", "ABCProof", "InequalityProof") {
			c.checkSound(s, true, false)
		}
		c.premises()
	}})
	register(&checkDef{id: "C04", run: func(c *Check) {
		for _, s := range sigmas() {
			c.checkComplete(s)
		}
		c.premises()
	}})
	register(&checkDef{id: "C06", run: func(c *Check) {
		for _, s := range sigmas() {
			c.checkRefuse(s)
		}
	}})
	register(&checkDef{id: "C07", run: func(c *Check) {
		for _, s := range sigmas() {
			c.checkSound(s, false, true)
		}
	}})
}
