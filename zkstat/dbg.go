package main

import (
	"os"
	"runtime/pprof"
	"strconv"
)

var dbgBits = 40

func init() {
	if s := os.Getenv("ZK_BITS"); s != "" {
		dbgBits, _ = strconv.Atoi(s)
	}
	if s := os.Getenv("ZK_PROF"); s != "" {
		f, _ := os.Create(s)
		pprof.StartCPUProfile(f)
	}
}

func bddSize(f Bdd) int {
	seen := map[Bdd]bool{}
	var walk func(Bdd)
	walk = func(x Bdd) {
		if x <= 1 || seen[x] {
			return
		}
		seen[x] = true
		walk(B.nodes[x].lo)
		walk(B.nodes[x].hi)
	}
	walk(f)
	return len(seen)
}

// clip cuts a string at a rune boundary.
func clip(s string, n int) string {
	if len(s) <= n {
		return s
	}
	for n > 0 && n < len(s) && s[n]&0xc0 == 0x80 {
		n--
	}
	return s[:n] + "…"
}
