package main

// One SMT-LIB2 solver process kept alive per worker, driven incrementally.

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type level struct {
	cond *Term
	defs []*Term
}

type Solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.WriteCloser
	out     *bufio.Reader
	levels  []level
	defined map[*Term]bool
	argv    []string
	dir     string // for query files
	// statistics
	Queries int
	NSat    int
	NUnsat  int
	NUnk    int
	Time    time.Duration
	errs    []string
	timeout int
	// no query starts after it
	deadline time.Time
	second   int // queries decided by the second solvers
}

func NewSolver(argv []string, timeoutMs int) *Solver {
	s := &Solver{argv: argv, timeout: timeoutMs}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.argv[0], s.argv[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.levels = []level{{}}
	s.defined = map[*Term]bool{}
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n")
	if strings.Contains(s.argv[0], "z3") {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.timeout)
	} else {
		fmt.Fprintf(s.in, "(set-option :tlimit-per %d)\n(set-logic ALL)\n", s.timeout)
	}
}

func (s *Solver) Close() {
	if s.cmd == nil {
		return
	}
	s.inc.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.cmd = nil
}

func (s *Solver) Restart() {
	s.Close()
	s.start()
}

func (s *Solver) top() *level { return &s.levels[len(s.levels)-1] }

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		return t.head(nil)
	case OVar:
		return t.name
	}
	return "t" + strconv.Itoa(int(t.id))
}

func (s *Solver) define(t *Term) {
	if t.op == OConst || s.defined[t] {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < int(f.t.n) {
			ch := f.t.a[f.i]
			f.i++
			if ch.op != OConst && !s.defined[ch] {
				st = append(st, fr{ch, 0})
			}
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		if s.defined[x] {
			continue
		}
		if x.op == OVar {
			fmt.Fprintf(s.in, "(declare-const %s %s)\n", x.name, x.sort)
		} else {
			fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", x.id, x.sort, x.head(s.ref))
		}
		s.defined[x] = true
		l := s.top()
		l.defs = append(l.defs, x)
	}
}

func (s *Solver) push(cond *Term) {
	fmt.Fprintf(s.in, "(push 1)\n")
	s.levels = append(s.levels, level{cond: cond})
	s.define(cond)
	fmt.Fprintf(s.in, "(assert %s)\n", s.ref(cond))
}

func (s *Solver) popTo(n int) {
	k := len(s.levels) - n
	if k <= 0 {
		return
	}
	for i := n; i < len(s.levels); i++ {
		for _, d := range s.levels[i].defs {
			delete(s.defined, d)
		}
	}
	s.levels = s.levels[:n]
	fmt.Fprintf(s.in, "(pop %d)\n", k)
}

// Sync makes the assertion stack equal to pc.
func (s *Solver) Sync(pc []*Term) {
	i := 0
	for i < len(pc) && i+1 < len(s.levels) && s.levels[i+1].cond == pc[i] {
		i++
	}
	s.popTo(i + 1)
	for ; i < len(pc); i++ {
		s.push(pc[i])
	}
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		panic(abort{kind: abSolver, msg: "solver died: " + err.Error()})
	}
	return strings.TrimSpace(l)
}

// Check decides pc /\ extra. When sat and vars != nil the model of vars is returned.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term) (Result, Model) {
	t0 := time.Now()
	if !s.deadline.IsZero() && t0.After(s.deadline) {
		panic(abort{abBound, "time budget"})
	}
	defer func() { s.Time += time.Since(t0) }()
	s.Sync(pc)
	base := len(s.levels)
	if extra != nil {
		s.push(extra)
	}
	for _, v := range vars {
		s.define(v)
	}
	s.Queries++
	fmt.Fprintf(s.in, "(check-sat)\n")
	s.in.Flush()
	var r Result
	for {
		l := s.readLine()
		if l == "sat" {
			r = Sat
			s.NSat++
			break
		}
		if l == "unsat" {
			r = Unsat
			s.NUnsat++
			break
		}
		if l == "unknown" || strings.HasPrefix(l, "timeout") {
			r = Unknown
			break
		}
		if strings.HasPrefix(l, "(error") {
			s.errs = append(s.errs, l)
			panic(abort{kind: abSolver, msg: l})
		}
	}
	var m Model
	if r == Sat && vars != nil {
		m = Model{}
		if len(vars) > 0 {
			fmt.Fprintf(s.in, "(get-value (")
			for _, v := range vars {
				fmt.Fprintf(s.in, "%s ", v.name)
			}
			fmt.Fprintf(s.in, "))\n")
			s.in.Flush()
			s.parseModel(m, len(vars))
		}
	}
	if r == Unknown {
		r, m = s.other(vars)
	}
	if d := os.Getenv("XSYM_DUMP"); d != "" && time.Since(t0) > 2*time.Second {
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", d, time.Now().UnixNano()), []byte(s.text()), 0644)
	}
	if extra != nil {
		s.popTo(base)
	}
	return r, m
}

// other asks other solvers about the current query, without a time limit of
// the incremental one. Their own limits only matter when this process is killed.
func (s *Solver) other(vars []*Term) (Result, Model) {
	text := "(set-option :produce-models true)\n(set-logic ALL)\n" + s.text()
	if len(vars) > 0 {
		text += "(get-value ("
		for _, v := range vars {
			text += v.name + " "
		}
		text += "))\n"
	}
	f, err := os.CreateTemp(s.dir, "q*.smt2")
	if err != nil {
		return Unknown, nil
	}
	defer os.Remove(f.Name())
	f.WriteString(text)
	f.Close()
	limit := 20 * time.Second
	if left := time.Until(s.deadline); !s.deadline.IsZero() && left < limit {
		limit = left
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	type answer struct {
		r Result
		m Model
	}
	ch := make(chan answer)
	n := 0
	for _, argv := range [][]string{{"z3", "-T:21", f.Name()}, {"cvc5", "--produce-models", "--tlimit=21000", f.Name()}} {
		if _, err := exec.LookPath(argv[0]); err != nil {
			continue
		}
		n++
		go func() {
			out, _ := exec.CommandContext(ctx, argv[0], argv[1:]...).Output()
			a := answer{r: Unknown}
			first, rest, _ := strings.Cut(string(out), "\n")
			switch strings.TrimSpace(first) {
			case "unsat":
				a.r = Unsat
			case "sat":
				a.r = Sat
				a.m = Model{}
				if len(vars) > 0 && !parseValues(a.m, rest) {
					a = answer{r: Unknown}
				}
			}
			select {
			case ch <- a:
			case <-ctx.Done():
			}
		}()
	}
	for ; n > 0; n-- {
		select {
		case a := <-ch:
			if a.r != Unknown {
				s.second++
				if a.r == Sat {
					s.NSat++
				} else {
					s.NUnsat++
				}
				return a.r, a.m
			}
		case <-ctx.Done():
			n = 1
		}
	}
	s.NUnk++
	return Unknown, nil
}

// text is the current query.
func (s *Solver) text() string {
	var b strings.Builder
	for _, l := range s.levels {
		for _, x := range l.defs {
			if x.op == OVar {
				fmt.Fprintf(&b, "(declare-const %s %s)\n", x.name, x.sort)
			} else {
				fmt.Fprintf(&b, "(define-fun t%d () %s %s)\n", x.id, x.sort, x.head(s.ref))
			}
		}
		if l.cond != nil {
			fmt.Fprintf(&b, "(assert %s)\n", s.ref(l.cond))
		}
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

func (s *Solver) parseModel(m Model, n int) {
	depth := 0
	var buf strings.Builder
	for {
		l := s.readLine()
		if strings.HasPrefix(l, "(error") {
			panic(abort{kind: abSolver, msg: l})
		}
		buf.WriteString(l)
		buf.WriteByte(' ')
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth <= 0 && buf.Len() > 1 {
			break
		}
	}
	if !parseValues(m, buf.String()) {
		panic(abort{kind: abSolver, msg: "model: cannot parse " + buf.String()})
	}
}

func parseValues(m Model, text string) bool {
	if strings.Contains(text, "error") {
		return false
	}
	toks := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(text))
	for i := 0; i+1 < len(toks); i += 2 {
		name, v := toks[i], toks[i+1]
		var x uint64
		var err error
		switch {
		case v == "true":
			x = 1
		case v == "false":
		case strings.HasPrefix(v, "#x"):
			x, err = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			x, err = strconv.ParseUint(v[2:], 2, 64)
		default:
			return false
		}
		if err != nil {
			return false
		}
		m[name] = x
	}
	return true
}
