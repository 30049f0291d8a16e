package main

// The solver back end: one incremental z3 process per worker, with one-shot
// fall-backs to an older z3 release, cvc5 and a linear abstraction for queries it does not decide.

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN, Fallback, Linear, Incr int64
	Nanos                                                   int64
}

var gstats SolverStats

type Solver struct {
	tb      *TB
	cmd     *exec.Cmd
	in      *bufio.Writer
	inRaw   io.WriteCloser
	lines   chan string
	sent    map[int32]bool
	stack   []*Term
	timeout time.Duration
	buf     bytes.Buffer
}

func NewSolver(tb *TB, timeout time.Duration) *Solver {
	s := &Solver{tb: tb, timeout: timeout}
	s.start()
	return s
}

func (s *Solver) start() {
	s.sent = map[int32]bool{}
	s.stack = nil
	cmd := exec.Command("z3-new", "-in", "-smt2", "memory_max_size=3000", "smt.relevancy=0")
	in, err := cmd.StdinPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	if err := cmd.Start(); err != nil {
		fatal("cannot start z3: %v", err)
	}
	s.cmd, s.inRaw, s.in = cmd, in, bufio.NewWriterSize(in, 1<<16)
	lines := make(chan string, 64)
	s.lines = lines
	go func() {
		r := bufio.NewReaderSize(out, 1<<16)
		for {
			l, err := r.ReadString('\n')
			if l = strings.TrimRight(l, "\r\n"); l != "" {
				lines <- l
			}
			if err != nil {
				close(lines)
				return
			}
		}
	}()
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :timeout %d)\n", quickMillis)
}

// quickMillis bounds the incremental solver. What it cannot decide quickly is handed to
// solvers that see the whole problem at once and preprocess it.
const quickMillis = 100

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		go s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.Close()
	go func(c chan string) {
		for range c {
		}
	}(s.lines)
	s.start()
}

// define emits definitions for everything t needs.
func (s *Solver) define(w io.Writer, sent map[int32]bool, t *Term) {
	if t.op == OpConst || sent[t.id] {
		return
	}
	sent[t.id] = true
	if t.op == OpVar {
		fmt.Fprintf(w, "(declare-const |%s| %s)\n", t.name, sortOf(t.w))
		return
	}
	for _, a := range t.args {
		s.define(w, sent, a)
	}
	fmt.Fprintf(w, "(define-fun t%d () %s %s)\n", t.id, sortOf(t.w), bodySMT(t))
}

func (s *Solver) sync(pc []*Term) {
	k := 0
	for k < len(pc) && k < len(s.stack) && pc[k] == s.stack[k] {
		k++
	}
	if n := len(s.stack) - k; n > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", n)
		s.stack = s.stack[:k]
	}
	for _, t := range pc[k:] {
		s.define(s.in, s.sent, t)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", refSMT(t))
		s.stack = append(s.stack, t)
	}
}

func (s *Solver) readLine(d time.Duration) (string, bool) {
	select {
	case l, ok := <-s.lines:
		return l, ok
	case <-time.After(d):
		return "", false
	}
}

func collectVars(ts []*Term, seen map[int32]bool, out *[]*Term) {
	for _, t := range ts {
		if t.op == OpConst || seen[t.id] {
			continue
		}
		seen[t.id] = true
		if t.op == OpVar {
			*out = append(*out, t)
			continue
		}
		collectVars(t.args, seen, out)
	}
}

// Check decides pc ∧ extra. extra may be nil.
func (s *Solver) Check(pc []*Term, extra *Term) (Result, Model) {
	t0 := time.Now()
	atomic.AddInt64(&gstats.Queries, 1)
	res, m := s.check1(pc, extra)
	atomic.AddInt64(&gstats.Incr, int64(time.Since(t0)))
	if res == Unknown {
		atomic.AddInt64(&gstats.Fallback, 1)
		res, m = s.fallback(pc, extra)
	}
	atomic.AddInt64(&gstats.Nanos, int64(time.Since(t0)))
	if d := os.Getenv("SYMGO_SLOW"); d != "" && time.Since(t0) > 2*time.Second {
		os.WriteFile(fmt.Sprintf("%s/slow-%d.smt2", d, time.Now().UnixNano()), []byte(s.script(pc, extra)+"(check-sat)\n"), 0o644)
		os.WriteFile(fmt.Sprintf("%s/lia-%d-%v.smt2", d, time.Now().UnixNano(), res), []byte(liaScript(s.tb, append(append([]*Term(nil), pc...), extraList(extra)...))), 0o644)
	}
	switch res {
	case Sat:
		atomic.AddInt64(&gstats.SatN, 1)
	case Unsat:
		atomic.AddInt64(&gstats.UnsatN, 1)
	default:
		atomic.AddInt64(&gstats.UnknownN, 1)
	}
	return res, m
}

func (s *Solver) check1(pc []*Term, extra *Term) (Result, Model) {
	s.sync(pc)
	if extra != nil {
		s.define(s.in, s.sent, extra)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", refSMT(extra))
	}
	fmt.Fprintf(s.in, "(check-sat)\n")
	if s.in.Flush() != nil {
		s.restart()
		return Unknown, nil
	}
	l, ok := s.readLine(s.timeout + 5*time.Second)
	if !ok || strings.HasPrefix(l, "(error") {
		if ok && verbose {
			fmt.Fprintln(os.Stderr, "z3:", l)
		}
		s.restart()
		return Unknown, nil
	}
	var m Model
	res := Unknown
	switch l {
	case "unsat":
		res = Unsat
	case "sat":
		res = Sat
		var vars []*Term
		seen := map[int32]bool{}
		collectVars(pc, seen, &vars)
		if extra != nil {
			collectVars([]*Term{extra}, seen, &vars)
		}
		if len(vars) == 0 {
			m = Model{}
			break
		}
		s.in.WriteString("(get-value (")
		for _, v := range vars {
			s.in.WriteString("|" + v.name + "| ")
		}
		s.in.WriteString("))\n(echo \"@@\")\n")
		s.in.Flush()
		var sb strings.Builder
		for {
			l, ok := s.readLine(30 * time.Second)
			if !ok {
				s.restart()
				return Unknown, nil
			}
			if l == "@@" {
				break
			}
			sb.WriteString(l)
			sb.WriteByte(' ')
		}
		var err error
		m, err = parseValues(sb.String())
		if err != nil {
			s.restart()
			return Unknown, nil
		}
	}
	if extra != nil {
		fmt.Fprintf(s.in, "(pop 1)\n")
	}
	return res, m
}

func (s *Solver) script(pc []*Term, extra *Term) string {
	var sb strings.Builder
	sent := map[int32]bool{}
	all := append([]*Term(nil), pc...)
	if extra != nil {
		all = append(all, extra)
	}
	for _, t := range all {
		s.define(&sb, sent, t)
	}
	for _, t := range all {
		fmt.Fprintf(&sb, "(assert %s)\n", refSMT(t))
	}
	return sb.String()
}

func extraList(t *Term) []*Term {
	if t == nil {
		return nil
	}
	return []*Term{t}
}

// fallback runs other solvers on the whole problem.
func (s *Solver) fallback(pc []*Term, extra *Term) (Result, Model) {
	body := s.script(pc, extra)
	var vars []*Term
	seen := map[int32]bool{}
	collectVars(pc, seen, &vars)
	if extra != nil {
		collectVars([]*Term{extra}, seen, &vars)
	}
	var gv strings.Builder
	gv.WriteString("(get-value (")
	for _, v := range vars {
		gv.WriteString("|" + v.name + "| ")
	}
	gv.WriteString("))\n")
	secs := int(s.timeout.Seconds()) * 3
	text := "(set-option :produce-models true)\n(set-logic ALL)\n" + body + "(check-sat)\n" + gv.String()
	type ans struct {
		r Result
		m Model
	}
	opt := func(secs int) [][]string {
		return [][]string{
			{"z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", secs), "-memory:2000"}, // on the linear abstraction
			{"z3-new", "-in", "-smt2", fmt.Sprintf("-T:%d", secs), "-memory:3000"},
			{"cvc5", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", secs*1000), "-"},
			{"cvc5", "--lang=smt2", "--produce-models", "--solve-bv-as-int=sum", "--nl-ext-tplanes", fmt.Sprintf("--tlimit=%d", secs*1000), "-"},
			{"z3", "-in", "-smt2", fmt.Sprintf("-T:%d", secs), "-memory:3000"},
		}
	}
	linear := liaScript(s.tb, append(append([]*Term(nil), pc...), extraList(extra)...))
	race := func(cmds [][]string, secs int) ans {
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs+5)*time.Second)
		defer cancel()
		ch := make(chan ans, len(cmds))
		for i, c := range cmds {
			abstract := i == 0
			go func(c []string) {
				cmd := exec.CommandContext(ctx, c[0], c[1:]...)
				cmd.Stdin = strings.NewReader(text)
				if abstract {
					cmd.Stdin = strings.NewReader(linear)
				}
				out, _ := cmd.Output()
				o := strings.TrimSpace(string(out))
				switch {
				case strings.HasPrefix(o, "unsat"):
					if abstract {
						atomic.AddInt64(&gstats.Linear, 1)
					}
					ch <- ans{Unsat, nil}
				case strings.HasPrefix(o, "sat") && !abstract:
					m, err := parseValues(strings.TrimPrefix(o, "sat"))
					if err != nil && len(vars) > 0 {
						ch <- ans{Unknown, nil}
						return
					}
					ch <- ans{Sat, m}
				default:
					ch <- ans{Unknown, nil}
				}
			}(c)
		}
		for range cmds {
			if a := <-ch; a.r != Unknown {
				return a
			}
		}
		return ans{Unknown, nil}
	}
	// First the two that are mostly quick, then everything.
	a := race(opt(1)[:2], 1)
	if a.r == Unknown {
		a = race(opt(secs), secs)
	}
	return a.r, a.m
}

// parseValues reads ((|x| #x00) (|y| true) ...).
// Output cut short (the solver was stopped while writing) is an error.
func parseValues(s string) (_ Model, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("bad model: %v", e)
		}
	}()
	m := Model{}
	i := 0
	n := len(s)
	skip := func() {
		for i < n && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r') {
			i++
		}
	}
	sexpr := func() string { // one token or balanced list
		skip()
		st := i
		if i < n && s[i] == '(' {
			d := 0
			for i < n {
				switch s[i] {
				case '(':
					d++
				case ')':
					d--
				case '|':
					i++
					for i < n && s[i] != '|' {
						i++
					}
				}
				i++
				if d == 0 {
					break
				}
			}
			return s[st:i]
		}
		if i < n && s[i] == '|' {
			i++
			for i < n && s[i] != '|' {
				i++
			}
			i++
			return s[st:i]
		}
		for i < n && s[i] != ' ' && s[i] != ')' && s[i] != '(' && s[i] != '\n' {
			i++
		}
		return s[st:i]
	}
	skip()
	if i >= n || s[i] != '(' {
		return nil, fmt.Errorf("bad model: %.100q", s)
	}
	i++
	for {
		skip()
		if i >= n {
			return nil, fmt.Errorf("truncated model")
		}
		if s[i] == ')' {
			return m, nil
		}
		if s[i] != '(' {
			return nil, fmt.Errorf("bad model at %d", i)
		}
		i++
		name := strings.Trim(sexpr(), "|")
		val := sexpr()
		skip()
		i++ // )
		v, err := parseVal(val)
		if err != nil {
			return nil, err
		}
		m[name] = v
	}
}

func parseVal(s string) (uint64, error) {
	switch {
	case s == "true":
		return 1, nil
	case s == "false":
		return 0, nil
	case strings.HasPrefix(s, "#x"):
		return strconv.ParseUint(s[2:], 16, 64)
	case strings.HasPrefix(s, "#b"):
		return strconv.ParseUint(s[2:], 2, 64)
	case strings.HasPrefix(s, "(_ bv"):
		f := strings.Fields(strings.Trim(s, "()"))
		return strconv.ParseUint(f[1][2:], 10, 64)
	}
	return 0, fmt.Errorf("bad value %q", s)
}
