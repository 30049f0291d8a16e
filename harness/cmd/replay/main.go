// Command replay runs harness functions natively on recorded inputs, one JSON
// case per line on standard input, one JSON result per line on standard output.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strconv"
	"time"

	"verif/harness/props"
	"verif/harness/sym"
)

type caseIn struct {
	Harness string      `json:"harness"`
	Inputs  []sym.Input `json:"inputs"`
	Repeat  int         `json:"repeat"`
}

type caseOut struct {
	Status string    `json:"status"`
	Label  string    `json:"label"`
	Obs    []sym.Obs `json:"obs"`
	Reach  []string  `json:"reach"`
}

func run(c caseIn) (out caseOut) {
	f := props.All[c.Harness]
	if f == nil {
		return caseOut{Status: "error", Label: "no such harness"}
	}
	sym.Start(c.Inputs)
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(sym.Stop); ok {
				out = caseOut{Status: s.Status, Label: s.Label}
				return
			}
			out = caseOut{Status: "panic", Label: fmt.Sprint(r)}
		}
	}()
	f()
	runtime.ReadMemStats(&m1)
	if d := m1.TotalAlloc - m0.TotalAlloc; sym.AllocMax > 0 && d > uint64(sym.AllocMax)*64+(1<<20) {
		return caseOut{Status: "alloc", Label: fmt.Sprintf("%d bytes allocated", d)}
	}
	out = caseOut{Status: "ok", Obs: sym.Seen}
	for r := range sym.Reached {
		out.Reach = append(out.Reach, r)
	}
	sort.Strings(out.Reach)
	return
}

func main() {
	ms, _ := strconv.Atoi(os.Getenv("REPLAY_TIMEOUT_MS"))
	if ms == 0 {
		ms = 20000
	}
	sym.IsThorough = os.Getenv("VERIF_TIER") == "thorough"
	defer sym.Clean()
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	dec := json.NewDecoder(in)
	w := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(w)
	for {
		var c caseIn
		if dec.Decode(&c) != nil {
			return
		}
		done := make(chan bool)
		go func() {
			select {
			case <-done:
			case <-time.After(time.Duration(ms) * time.Millisecond):
				fmt.Fprintln(os.Stderr, "REPLAY-TIMEOUT")
				os.Exit(3)
			}
		}()
		var o caseOut
		for i := 0; i < max(c.Repeat, 1); i++ {
			o = run(c)
			if o.Status != "ok" && o.Status != "assume" {
				break
			}
		}
		close(done)
		enc.Encode(o)
		w.Flush()
	}
}
