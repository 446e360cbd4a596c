package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

// Solver is one z3 process driven over SMT-LIB with push/pop.
type Solver struct {
	bin                    string
	timeout                int
	cmd                    *exec.Cmd
	in                     *bufio.Writer
	inC                    io.WriteCloser
	out                    *bufio.Reader
	sent                   map[*Term]bool // defined in the current path scope
	order                  []map[*Term]bool
	queries                int
	lines, used            int // sent since the last reset, since the start
	nsat, nunsat, nunknown int
	time                   time.Duration
	errs                   int
	log                    io.Writer
}

func NewSolver(bin string, timeoutMs int) *Solver {
	s := &Solver{bin: bin, timeout: timeoutMs}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2", "-memory:3000")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inC = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.sent = map[*Term]bool{}
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n(set-option :produce-models true)\n", s.timeout)
	s.raw("(push 1)")
}

func (s *Solver) Close() {
	s.inC.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Solver) raw(x string) {
	s.in.WriteString(x)
	s.lines++
	s.in.WriteByte('\n')
	if s.log != nil {
		io.WriteString(s.log, x+"\n")
	}
}

// Reset forgets everything asserted for the previous path.
func (s *Solver) Reset() {
	if len(s.sent) == 0 && s.lines < 20 {
		return
	}
	// a solver that has seen much gets slow: start another one now and then
	s.used += s.lines
	s.lines = 0
	if s.used > resetLines {
		s.used = 0
		s.restart()
		return
	}
	s.raw("(pop 1)")
	s.raw("(push 1)")
	s.sent = map[*Term]bool{}
}

var resetLines = envInt("VERIF_RESET", 5000)

func envInt(name string, d int) int {
	if n, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return n
	}
	return d
}

func (s *Solver) name(t *Term) string {
	if t.op == OpConst || t.op == OpVar {
		return t.expr(nil)
	}
	return "t" + strconv.Itoa(int(t.id))
}

// define makes sure t and everything under it has a name.  It must be called outside a query scope.
func (s *Solver) define(t *Term) {
	if t.op == OpConst || s.sent[t] {
		return
	}
	s.sent[t] = true
	if t.op == OpVar {
		s.raw("(declare-fun |" + t.name + "| () " + sortStr(t) + ")")
		return
	}
	for _, a := range t.args {
		s.define(a)
	}
	s.raw("(define-fun t" + strconv.Itoa(int(t.id)) + " () " + sortStr(t) + " " + t.expr(s.name) + ")")
}

func (s *Solver) Assert(t *Term) {
	s.define(t)
	s.raw("(assert " + s.name(t) + ")")
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// Check asks whether the assertions so far together with extra are satisfiable.
// When vals is non-nil and the answer is sat, the listed variables are read into it.
func (s *Solver) Check(extra []*Term, vars []*Term) (SatResult, Env) {
	for _, t := range extra {
		s.define(t)
	}
	for _, v := range vars {
		s.define(v)
	}
	if len(extra) > 0 {
		s.raw("(push 1)")
		for _, t := range extra {
			s.raw("(assert " + s.name(t) + ")")
		}
	}
	s.raw("(check-sat)")
	t0 := time.Now()
	s.in.Flush()
	s.queries++
	res := Unknown
	var env Env
	for {
		l, err := s.readLine()
		if err != nil {
			s.errs++
			s.restart()
			s.nunknown++
			return Unknown, nil
		}
		if l == "sat" {
			res = Sat
			break
		}
		if l == "unsat" {
			res = Unsat
			break
		}
		if l == "unknown" || l == "timeout" {
			break
		}
		if strings.HasPrefix(l, "(error") {
			s.errs++
			lastSolverError = l
			// an error anywhere makes the answer worthless
			s.drain()
			res = Unknown
			break
		}
	}
	if res == Sat && vars != nil {
		env = Env{}
		if len(vars) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range vars {
				sb.WriteString("|" + v.name + "| ")
			}
			sb.WriteString("))")
			s.raw(sb.String())
			s.in.Flush()
			txt := s.readSexp()
			parseValues(txt, vars, env)
		}
	}
	if len(extra) > 0 {
		s.raw("(pop 1)")
	}
	s.time += time.Since(t0)
	switch res {
	case Sat:
		s.nsat++
	case Unsat:
		s.nunsat++
	default:
		s.nunknown++
	}
	return res, env
}

var lastSolverError string

func (s *Solver) drain() {
	s.raw("(echo \"verif-sync\")")
	s.in.Flush()
	for {
		l, err := s.readLine()
		if err != nil || strings.Contains(l, "verif-sync") {
			return
		}
	}
}

func (s *Solver) restart() {
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.start()
}

func (s *Solver) readSexp() string {
	var sb strings.Builder
	depth := 0
	bar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return sb.String()
		}
		sb.WriteByte(c)
		if c == '|' {
			bar = !bar
		}
		if bar {
			continue
		}
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
			if depth == 0 {
				s.out.ReadString('\n')
				return sb.String()
			}
		}
	}
}

func parseValues(txt string, vars []*Term, env Env) {
	byName := map[string]*Term{}
	for _, v := range vars {
		byName[v.name] = v
	}
	// ((|a| #x00) (b true) ...) ; names may or may not be quoted
	i := 1
	for i < len(txt) {
		j := strings.IndexByte(txt[i:], '(')
		if j < 0 {
			return
		}
		i += j + 1
		var name string
		if txt[i] == '|' {
			e := strings.IndexByte(txt[i+1:], '|')
			name = txt[i+1 : i+1+e]
			i += e + 2
		} else {
			e := strings.IndexAny(txt[i:], " \n")
			name = txt[i : i+e]
			i += e
		}
		e := strings.IndexByte(txt[i:], ')')
		val := strings.TrimSpace(txt[i : i+e])
		i += e + 1
		if strings.HasPrefix(val, "(_ bv") {
			val = strings.Fields(val[5:])[0]
			k, _ := strconv.ParseUint(val, 10, 64)
			env[byName[name]] = k
			continue
		}
		v := byName[name]
		if v == nil {
			continue
		}
		switch {
		case val == "true":
			env[v] = 1
		case val == "false":
			env[v] = 0
		case strings.HasPrefix(val, "#x"):
			k, _ := strconv.ParseUint(val[2:], 16, 64)
			env[v] = k
		case strings.HasPrefix(val, "#b"):
			k, _ := strconv.ParseUint(val[2:], 2, 64)
			env[v] = k
		}
	}
}
