package main

import (
	"fmt"
	"os"
	"sort"
	"sync"
)

var verbose = os.Getenv("SYMGO_VERBOSE") != ""

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "symgo: "+f+"\n", a...)
	os.Exit(2)
}

// forkProf counts forks by call stack, if SYMGO_FORKS is set.
var (
	forkProf map[string]int
	forkLock sync.Mutex
)

func init() {
	if os.Getenv("SYMGO_FORKS") != "" {
		forkProf = map[string]int{}
	}
}

func (w *worker) profileFork(d decision) {
	key := "choice " + string(d.kind)
	if w.forkAt != nil {
		key = ""
		for fr, n := w.forkAt, 0; fr != nil && n < 6; fr, n = fr.caller, n+1 {
			key += "\n    " + w.where(fr, fr.pos)
		}
	}
	forkLock.Lock()
	forkProf[key]++
	forkLock.Unlock()
}

func printForks() {
	var keys []string
	for k := range forkProf {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return forkProf[keys[i]] > forkProf[keys[j]] })
	for i, k := range keys {
		if i == 25 {
			break
		}
		fmt.Printf("%6d %s\n", forkProf[k], k)
	}
}
