package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives one z3 process over SMT-LIB2 text. The assertion stack mirrors the
// path condition of the state being executed.

type conNode struct {
	t    *Term
	prev *conNode
	n    int // length of the list ending here
}

type Solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.WriteCloser
	out     *bufio.Reader
	ctx     *Ctx
	emitted map[*Term]bool
	stack   []*conNode // asserted constraints, one push level each
	queries int
	sat     int
	unsat   int
	unknown int
	dur     time.Duration
	log     io.Writer
	scratch []string
	dead    bool
	bin     string
}

const solverTimeoutMs = 20000

func NewSolver(bin string) (*Solver, error) {
	s := &Solver{bin: bin}
	return s, s.start()
}

func (s *Solver) start() error {
	args := []string{"-in", "-smt2"}
	s.cmd = exec.Command(s.bin, args...)
	w, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inc = w
	var ww io.Writer = w
	if f := os.Getenv("SYMGO_SOLVERLOG"); f != "" {
		lf, _ := os.Create(f)
		ww = io.MultiWriter(w, lf)
	}
	s.in = bufio.NewWriterSize(ww, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.dead = false
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Begin resets the process for a new job.
func (s *Solver) Begin(ctx *Ctx) {
	if s.dead {
		s.Close()
		if err := s.start(); err != nil {
			panic(err)
		}
	}
	s.ctx = ctx
	s.emitted = map[*Term]bool{}
	s.stack = nil
	s.w("(reset)\n(set-option :global-declarations true)\n(set-option :timeout %d)\n", solverTimeoutMs)
}

func (s *Solver) w(f string, a ...interface{}) {
	if len(a) == 0 {
		s.in.WriteString(f)
	} else {
		fmt.Fprintf(s.in, f, a...)
	}
}

func bvc(w uint8, v uint64) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w/4), v)
	}
	return fmt.Sprintf("#b%0*b", int(w), v)
}

func (s *Solver) name(t *Term) string {
	switch t.op {
	case OConst:
		return bvc(t.w, t.val)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OVar:
		return "v" + strconv.Itoa(int(t.val))
	}
	return "t" + strconv.Itoa(int(t.id))
}

var opNames = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem",
	OSDiv: "bvsdiv", OSRem: "bvsrem", OAnd: "bvand", OOr: "bvor", OXor: "bvxor", ONot: "bvnot", OShl: "bvshl",
	OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat", OIte: "ite", OEq: "=", OUlt: "bvult", OSlt: "bvslt",
	OBNot: "not", OBAnd: "and", OBOr: "or"}

func (s *Solver) emit(t *Term) {
	if s.emitted[t] {
		return
	}
	switch t.op {
	case OConst, OTrue, OFalse:
		return
	case OVar:
		s.emitted[t] = true
		if t.w == 0 {
			s.w("(declare-const v%d Bool)\n", t.val)
		} else {
			s.w("(declare-const v%d (_ BitVec %d))\n", t.val, t.w)
		}
		return
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s.emit(x)
		}
	}
	s.emitted[t] = true
	sort := "Bool"
	if t.w > 0 {
		sort = "(_ BitVec " + strconv.Itoa(int(t.w)) + ")"
	}
	s.in.WriteString("(define-fun t" + strconv.Itoa(int(t.id)) + " () " + sort + " (")
	if t.op == OExtract {
		s.w("(_ extract %d %d)", t.val>>8, t.val&0xff)
	} else {
		s.in.WriteString(opNames[t.op])
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s.in.WriteByte(' ')
			s.in.WriteString(s.name(x))
		}
	}
	s.in.WriteString("))\n")
}

// sync makes the assertion stack equal to the list ending at n.
func (s *Solver) sync(n *conNode) {
	want := 0
	if n != nil {
		want = n.n
	}
	nodes := s.nodesFrom(n, want)
	common := 0
	for common < len(s.stack) && common < want && s.stack[common] == nodes[common] {
		common++
	}
	if d := len(s.stack) - common; d > 0 {
		s.w("(pop %d)\n", d)
		s.stack = s.stack[:common]
	}
	for ; common < want; common++ {
		s.emit(nodes[common].t)
		s.w("(push 1)\n(assert %s)\n", s.name(nodes[common].t))
		s.stack = append(s.stack, nodes[common])
	}
}

func (s *Solver) nodesFrom(n *conNode, want int) []*conNode {
	out := make([]*conNode, want)
	for i := want - 1; i >= 0; i-- {
		out[i] = n
		n = n.prev
	}
	return out
}

type Verdict int

const (
	Unsat Verdict = iota
	Sat
	Unknown
)

// Check decides pc /\ extra. On Sat the assignment of vars is returned.
func (s *Solver) Check(pc *conNode, extra *Term, vars []*Term) (Verdict, Model) {
	t0 := time.Now()
	defer func() { s.dur += time.Since(t0) }()
	s.queries++
	s.sync(pc)
	if extra != nil {
		s.emit(extra)
		s.w("(push 1)\n(assert %s)\n", s.name(extra))
	}
	for _, v := range vars {
		s.emit(v)
	}
	s.w("(check-sat)\n")
	s.in.Flush()
	ans := s.line()
	res := Unknown
	var m Model
	switch ans {
	case "sat":
		res = Sat
		s.sat++
		m = s.values(vars)
	case "unsat":
		res = Unsat
		s.unsat++
	default:
		s.unknown++
		if s.dead || strings.HasPrefix(ans, "(error") {
			s.dead = true
			panic(engineError("solver: " + ans))
		}
	}
	if extra != nil {
		s.w("(pop 1)\n")
	}
	return res, m
}

type engineError string

func (s *Solver) line() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		s.dead = true
		return "eof: " + err.Error()
	}
	return strings.TrimSpace(l)
}

func (s *Solver) values(vars []*Term) Model {
	m := make(Model, len(vars))
	if len(vars) == 0 {
		return m
	}
	s.in.WriteString("(get-value (")
	for _, v := range vars {
		s.in.WriteString(s.name(v))
		s.in.WriteByte(' ')
	}
	s.in.WriteString("))\n")
	s.in.Flush()
	depth := 0
	var sb strings.Builder
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			s.dead = true
			panic(engineError("solver eof"))
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
		} else if b == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	s.out.ReadString('\n')
	txt := sb.String()
	if strings.HasPrefix(txt, "(error") {
		s.dead = true
		panic(engineError("solver: " + txt))
	}
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
	for i := 0; i+1 < len(f); i += 2 {
		vi, err := strconv.Atoi(f[i][1:])
		if err != nil {
			panic(engineError("bad value " + f[i]))
		}
		m[s.ctx.vars[vi]] = parseVal(f[i+1])
	}
	return m
}

func parseVal(x string) uint64 {
	switch {
	case x == "true":
		return 1
	case x == "false":
		return 0
	case strings.HasPrefix(x, "#x"):
		v, _ := strconv.ParseUint(x[2:], 16, 64)
		return v
	case strings.HasPrefix(x, "#b"):
		v, _ := strconv.ParseUint(x[2:], 2, 64)
		return v
	}
	panic(engineError("bad value " + x))
}
