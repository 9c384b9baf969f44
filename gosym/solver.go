package main

import (
	"bufio"
	"fmt"
	"io"
	"math/bits"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// ms before a query is handed to the preprocessing tactic
const firstTimeout = 400

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

// Solver drives one SMT process over a pipe.
type Solver struct {
	ctx     *TermCtx
	cmdline []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.WriteCloser
	out     *bufio.Reader
	gen     int
	ndefs   int
	varDefd map[int]bool
	cache   map[string]cacheEnt
	timeout int // ms
	noCache bool

	Queries  int64 // queries that went to the SMT process
	Hits     int64
	NSat     int64
	NUnsat   int64
	NUnknown int64
	NSecond  int64 // queries decided by the second solver
	Time     time.Duration
	Errs     []string
}

type cacheEnt struct {
	r SatResult
	m []mv
}

type mv struct {
	ix int
	v  uint64
}

func NewSolver(ctx *TermCtx, cmdline []string, timeoutMS int) *Solver {
	s := &Solver{ctx: ctx, cmdline: cmdline, timeout: timeoutMS, cache: map[string]cacheEnt{}}
	s.start()
	return s
}

func (s *Solver) start() {
	s.gen++
	s.ndefs = 0
	s.varDefd = map[int]bool{}
	s.cmd = exec.Command(s.cmdline[0], s.cmdline[1:]...)
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	if err := s.cmd.Start(); err != nil {
		fatal("cannot start solver %v: %v", s.cmdline, err)
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	if strings.Contains(s.cmdline[0], "z3") {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", firstTimeout)
	}
	fmt.Fprintf(s.in, "(set-logic QF_BV)\n")
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) define(t *Term) {
	switch t.op {
	case OConst:
		return
	case OVar:
		if !s.varDefd[t.varIx] {
			s.varDefd[t.varIx] = true
			fmt.Fprintf(s.in, "(declare-const v%d %s)\n", t.varIx, smtSort(t.w))
		}
		return
	}
	if t.defd == s.gen {
		return
	}
	for _, a := range t.args {
		s.define(a)
	}
	t.defd = s.gen
	s.ndefs++
	fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", t.id, smtSort(t.w), t.body())
}

// Check decides satisfiability of the conjunction; on Sat it returns values
// for the variables occurring in it.
func (s *Solver) Check(cs []*Term) (SatResult, []mv) {
	ids := make([]int, 0, len(cs))
	var vars []uint64
	for _, c := range cs {
		if c.isConst() {
			if c.k == 0 {
				return Unsat, nil
			}
			continue
		}
		ids = append(ids, c.id)
		vars = bsUnion(vars, c.vars)
	}
	sort.Ints(ids)
	var kb []byte
	for i, id := range ids {
		if i > 0 && ids[i-1] == id {
			continue
		}
		kb = strconv.AppendInt(kb, int64(id), 36)
		kb = append(kb, ',')
	}
	key := string(kb)
	if !s.noCache {
		if e, ok := s.cache[key]; ok {
			s.Hits++
			return e.r, e.m
		}
	}
	if s.ndefs > 60000 {
		s.Close()
		s.start()
	}
	t0 := time.Now()
	s.Queries++
	for _, c := range cs {
		s.define(c)
	}
	fmt.Fprintf(s.in, "(push 1)\n")
	var vs []*Term
	for i, wd := range vars {
		for ; wd != 0; wd &= wd - 1 {
			ix := i*64 + bits.TrailingZeros64(wd)
			v := s.ctx.vars[ix]
			s.define(v)
			vs = append(vs, v)
			if v.w > 0 {
				if v.lo > 0 {
					fmt.Fprintf(s.in, "(assert (bvuge v%d %s))\n", ix, smtConst(v.w, v.lo))
				}
				if v.hi < mask(v.w) {
					fmt.Fprintf(s.in, "(assert (bvule v%d %s))\n", ix, smtConst(v.w, v.hi))
				}
			}
		}
	}
	for _, c := range cs {
		if !c.isConst() {
			fmt.Fprintf(s.in, "(assert %s)\n", c.ref())
		}
	}
	var ms []mv
	fmt.Fprintf(s.in, "(check-sat)\n")
	s.in.Flush()
	line := s.readLine()
	second := false
	if line == "unknown" || line == "timeout" {
		// the incremental solver gave up: try the others on the bare query
		second = true
		s.NSecond++
		line, ms = s.checkSecond(cs, vs)
	}
	var r SatResult
	switch line {
	case "sat":
		r = Sat
		s.NSat++
		if len(vs) > 0 && !second {
			s.in.WriteString("(get-value (")
			for _, v := range vs {
				fmt.Fprintf(s.in, "v%d ", v.varIx)
			}
			s.in.WriteString("))\n")
			s.in.Flush()
			ms = s.readValues(vs)
		}
	case "unsat":
		r = Unsat
		s.NUnsat++
	default:
		r = Unknown
		s.NUnknown++
		if line != "unknown" && line != "timeout" {
			s.Errs = append(s.Errs, line)
		}
	}
	if line == "EOF" {
		s.Close()
		s.start()
		return Unknown, nil
	}
	fmt.Fprintf(s.in, "(pop 1)\n")
	if dumpSlow != "" && time.Since(t0) > time.Second {
		dumpQuery(s, cs, vs)
	}
	s.Time += time.Since(t0)
	if r != Unknown {
		s.cache[key] = cacheEnt{r, ms}
	}
	return r, ms
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "EOF"
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "(error") {
			s.Errs = append(s.Errs, l)
			// keep reading: a verdict may follow, but it cannot be trusted
			s.NUnknown++
			continue
		}
		if len(s.Errs) > 0 && (l == "sat" || l == "unsat") {
			return "unknown"
		}
		return l
	}
}

func (s *Solver) readValues(vs []*Term) []mv {
	// read a balanced s-expression
	var sb strings.Builder
	depth := 0
	started := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			s.Errs = append(s.Errs, "EOF in model")
			return nil
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
			started = true
		} else if b == ')' {
			depth--
		}
		if started && depth == 0 {
			break
		}
	}
	return parseValues(sb.String())
}

func parseValues(txt string) []mv {
	toks := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' || r == '\r' })
	var out []mv
	for i := 0; i+1 < len(toks); {
		name := toks[i]
		if !strings.HasPrefix(name, "v") {
			i++
			continue
		}
		ix, _ := strconv.Atoi(name[1:])
		val := toks[i+1]
		i += 2
		var v uint64
		switch {
		case val == "true":
			v = 1
		case val == "false":
			v = 0
		case strings.HasPrefix(val, "#x"):
			v, _ = strconv.ParseUint(val[2:], 16, 64)
		case strings.HasPrefix(val, "#b"):
			v, _ = strconv.ParseUint(val[2:], 2, 64)
		case val == "_" && i+1 < len(toks)+1:
			// (_ bvN w)
			v, _ = strconv.ParseUint(strings.TrimPrefix(toks[i], "bv"), 10, 64)
			i += 2
		}
		out = append(out, mv{ix, v})
	}
	return out
}

var dumpSlow = os.Getenv("GOSYM_DUMP")
var dumpN int64

// standalone renders a query as a complete SMT-LIB script.
func standalone(cs, vs []*Term) string {
	var b strings.Builder
	b.WriteString("(set-option :produce-models true)\n(set-logic QF_BV)\n")
	for _, v := range vs {
		fmt.Fprintf(&b, "(declare-const v%d %s)\n", v.varIx, smtSort(v.w))
		if v.w > 0 {
			if v.lo > 0 {
				fmt.Fprintf(&b, "(assert (bvuge v%d %s))\n", v.varIx, smtConst(v.w, v.lo))
			}
			if v.hi < mask(v.w) {
				fmt.Fprintf(&b, "(assert (bvule v%d %s))\n", v.varIx, smtConst(v.w, v.hi))
			}
		}
	}
	seen := map[int]bool{}
	var def func(t *Term)
	def = func(t *Term) {
		if t.op == OConst || t.op == OVar || seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.args {
			def(a)
		}
		fmt.Fprintf(&b, "(define-fun t%d () %s %s)\n", t.id, smtSort(t.w), t.body())
	}
	for _, c := range cs {
		def(c)
	}
	for _, c := range cs {
		if !c.isConst() {
			fmt.Fprintf(&b, "(assert %s)\n", c.ref())
		}
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

// secondCmds are the solvers for queries the first one leaves open.
var secondCmds = [][]string{
	{"cvc5", "--lang=smt2", "--tlimit=10000"},
	{"/usr/bin/z3", "-in", "-smt2", "-T:10"},
}

// checkSecond decides one query with fresh solver processes.
func (s *Solver) checkSecond(cs, vs []*Term) (string, []mv) {
	q := standalone(cs, vs)
	if len(vs) > 0 {
		q += "(get-value ("
		for _, v := range vs {
			q += fmt.Sprintf("v%d ", v.varIx)
		}
		q += "))\n"
	}
	for _, c := range secondCmds {
		cmd := exec.Command(c[0], c[1:]...)
		cmd.Stdin = strings.NewReader(q)
		out, _ := cmd.Output() // get-value after unsat is an error; only the verdict counts then
		line, rest, _ := strings.Cut(strings.TrimSpace(string(out)), "\n")
		switch strings.TrimSpace(line) {
		case "unsat":
			return "unsat", nil
		case "sat":
			if ms := parseValues(rest); len(ms) == len(vs) {
				return "sat", ms
			}
		}
	}
	return "unknown", nil
}

// dumpQuery writes a query as a stand-alone file (debugging aid).
func dumpQuery(s *Solver, cs, vs []*Term) {
	os.WriteFile(fmt.Sprintf("%s-%d.smt2", dumpSlow, atomic.AddInt64(&dumpN, 1)), []byte(standalone(cs, vs)), 0644)
}
