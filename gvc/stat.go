package main

import (
	"fmt"
	"os"
	"sort"
	"sync"
	"time"
)

var statMu sync.Mutex
var statT = map[string]time.Duration{}
var statN = map[string]int{}

func stat(k string, t0 time.Time) {
	statMu.Lock()
	statT[k] += time.Since(t0)
	statN[k]++
	statMu.Unlock()
}

func printStats() {
	if os.Getenv("GVC_STAT") == "" {
		return
	}
	var ks []string
	for k := range statT {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(os.Stderr, "%-40s %6d %v\n", k, statN[k], statT[k].Round(time.Millisecond))
	}
}
