package main

import (
	"bufio"
	"fmt"
	"io"
	"math/bits"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// One incremental SMT solver process per worker. The assertion stack mirrors the path condition.

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

type Solver struct {
	tm      *TM
	bin     string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	stack   []*Term // asserted path condition, one push level each
	sb      strings.Builder
	Queries int
	NSat    int
	NUnsat  int
	NUnk    int
	Time    time.Duration
	timeout int
	defs    int
	dead    bool
	vars    []*Term  // declared variables in this generation
	defd    []uint64 // defined terms
	// Long parities (CRC bits) are opaque booleans first: unsat is then sound, and a model is completed by
	// linear algebra over the bits nothing else constrains; where that fails, the full encoding is asked.
	opaque    bool
	anyOpaque bool
	full      *Solver
	Repaired  int
	Fulls     int
}

const opaqueAtoms = 8

func NewSolver(tm *TM, bin string, timeoutMs int) *Solver {
	s := &Solver{tm: tm, bin: bin, timeout: timeoutMs, opaque: true}
	s.start()
	return s
}

func (s *Solver) start() {
	args := []string{"-in", "-smt2"}
	s.cmd = exec.Command(s.bin, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start solver %s: %v", s.bin, err))
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.stack = nil
	s.defs = 0
	s.vars = nil
	s.defd = nil
	s.anyOpaque = false
	s.sb.Reset()
	s.sb.WriteString("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	fmt.Fprintf(&s.sb, "(set-option :timeout %d)\n", s.timeout)
	s.dead = false
}

func (s *Solver) Close() {
	if s.full != nil {
		s.full.Close()
		s.full = nil
	}
	if s.in != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.in = nil
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.v == 1 {
				return "true"
			}
			return "false"
		}
		if t.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", t.w/4, t.v)
		}
		return fmt.Sprintf("(_ bv%d %d)", t.v, t.w)
	}
	return "t" + strconv.Itoa(int(t.id))
}

func fpRef(t *Term) string {
	if t.w == 32 {
		return "((_ to_fp 8 24) " + ref(t) + ")"
	}
	return "((_ to_fp 11 53) " + ref(t) + ")"
}

func (s *Solver) isDef(t *Term) bool {
	i := int(t.id) / 64
	return i < len(s.defd) && s.defd[i]>>(uint(t.id)%64)&1 == 1
}

func (s *Solver) setDef(t *Term) {
	i := int(t.id) / 64
	for i >= len(s.defd) {
		s.defd = append(s.defd, make([]uint64, 1024)...)
	}
	s.defd[i] |= 1 << (uint(t.id) % 64)
}

// define emits declarations/definitions for t and everything below it.
func (s *Solver) define(t *Term) {
	if t.op == OConst || s.isDef(t) {
		return
	}
	// iterative post-order
	type item struct {
		t    *Term
		done bool
	}
	st := []item{{t, false}}
	for len(st) > 0 {
		it := st[len(st)-1]
		st = st[:len(st)-1]
		x := it.t
		if x == nil || x.op == OConst || s.isDef(x) {
			continue
		}
		if s.opaque && len(s.tm.rows[x.id]) > opaqueAtoms {
			s.setDef(x)
			s.defs++
			s.anyOpaque = true
			fmt.Fprintf(&s.sb, "(declare-const t%d Bool)\n", x.id)
			continue
		}
		if !it.done {
			st = append(st, item{x, true}, item{x.a, false}, item{x.b, false}, item{x.c, false})
			continue
		}
		s.setDef(x)
		s.defs++
		b := &s.sb
		if x.op == OVar {
			fmt.Fprintf(b, "(declare-const t%d %s)\n", x.id, sortName(x.w))
			s.vars = append(s.vars, x)
			continue
		}
		fmt.Fprintf(b, "(define-fun t%d () %s ", x.id, sortName(x.w))
		switch x.op {
		case OExtract:
			fmt.Fprintf(b, "((_ extract %d %d) %s)", int(x.v)+int(x.w)-1, x.v, ref(x.a))
		case OZExt:
			fmt.Fprintf(b, "((_ zero_extend %d) %s)", x.w-x.a.w, ref(x.a))
		case OSExt:
			fmt.Fprintf(b, "((_ sign_extend %d) %s)", x.w-x.a.w, ref(x.a))
		case ONot, OBNot:
			fmt.Fprintf(b, "(%s %s)", opNames[x.op], ref(x.a))
		case OIte:
			fmt.Fprintf(b, "(ite %s %s %s)", ref(x.a), ref(x.b), ref(x.c))
		case OFAdd, OFSub, OFMul, OFDiv:
			n := map[Op]string{OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div"}[x.op]
			// the bit pattern of a fresh fp result: via an auxiliary constant
			fmt.Fprintf(b, "t%daux)\n", x.id)
			str := b.String()
			cut := strings.LastIndex(str, "(define-fun t")
			head := str[:cut]
			b.Reset()
			b.WriteString(head)
			fmt.Fprintf(b, "(declare-const t%d %s)\n(assert (= %s (%s RNE %s %s)))\n", x.id, sortName(x.w), fpRef(x), n, fpRef(x.a), fpRef(x.b))
			continue
		case OFLt:
			fmt.Fprintf(b, "(fp.lt %s %s)", fpRef(x.a), fpRef(x.b))
		case OFLe:
			fmt.Fprintf(b, "(fp.leq %s %s)", fpRef(x.a), fpRef(x.b))
		case OFEq:
			fmt.Fprintf(b, "(fp.eq %s %s)", fpRef(x.a), fpRef(x.b))
		case OFNeg:
			fmt.Fprintf(b, "(bvxor %s %s)", ref(x.a), ref(s.tm.Const(x.w, 1<<(x.w-1))))
		case OFToSI:
			fmt.Fprintf(b, "((_ fp.to_sbv %d) RTZ %s)", x.w, fpRef(x.a))
		case OFToUI:
			fmt.Fprintf(b, "((_ fp.to_ubv %d) RTZ %s)", x.w, fpRef(x.a))
		case OF32to64, OF64to32, OSIToF, OUIToF:
			str := b.String()
			cut := strings.LastIndex(str, "(define-fun t")
			head := str[:cut]
			b.Reset()
			b.WriteString(head)
			var conv string
			eb, sb := 11, 53
			if x.w == 32 {
				eb, sb = 8, 24
			}
			switch x.op {
			case OSIToF:
				conv = fmt.Sprintf("((_ to_fp %d %d) RNE %s)", eb, sb, ref(x.a))
			case OUIToF:
				conv = fmt.Sprintf("((_ to_fp_unsigned %d %d) RNE %s)", eb, sb, ref(x.a))
			default:
				conv = fmt.Sprintf("((_ to_fp %d %d) RNE %s)", eb, sb, fpRef(x.a))
			}
			fmt.Fprintf(b, "(declare-const t%d %s)\n(assert (= %s %s))\n", x.id, sortName(x.w), fpRef(x), conv)
			continue
		default:
			fmt.Fprintf(b, "(%s %s %s)", opNames[x.op], ref(x.a), ref(x.b))
		}
		b.WriteString(")\n")
	}
}

func (s *Solver) flush() error {
	_, err := io.WriteString(s.in, s.sb.String())
	s.sb.Reset()
	return err
}

func (s *Solver) syncStack(pc []*Term) {
	k := 0
	for k < len(s.stack) && k < len(pc) && s.stack[k] == pc[k] {
		k++
	}
	if n := len(s.stack) - k; n > 0 {
		fmt.Fprintf(&s.sb, "(pop %d)\n", n)
		s.stack = s.stack[:k]
	}
	for _, t := range pc[k:] {
		s.define(t)
		fmt.Fprintf(&s.sb, "(push 1)\n(assert %s)\n", ref(t))
		s.stack = append(s.stack, t)
	}
}

// Check decides pc ∧ extra. On Sat and wantModel a model over all relevant variables is returned.
func (s *Solver) Check(pc []*Term, extra *Term, wantModel bool) (SatRes, *Model) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if slowQuery > 0 && d > slowQuery {
			fmt.Fprintf(os.Stderr, "slow query %v (pc %d): %s\n", d, len(pc), tail(extra.show(14), 2500))
		}
	}()
	if s.dead || s.defs > maxDefs {
		s.restart()
	}
	s.Queries++
	s.syncStack(pc)
	if extra != nil {
		s.define(extra)
		fmt.Fprintf(&s.sb, "(push 1)\n(assert %s)\n", ref(extra))
	}
	s.sb.WriteString("(check-sat)\n")
	if s.flush() != nil {
		s.dead = true
		s.NUnk++
		return Unknown, nil
	}
	line, err := s.readLine()
	if err != nil || strings.HasPrefix(line, "(error") {
		s.dead = true
		s.NUnk++
		lastSolverError = line
		return Unknown, nil
	}
	var res SatRes
	var m *Model
	switch line {
	case "sat":
		res = Sat
		s.NSat++
		if wantModel || s.anyOpaque {
			var ok bool
			m, ok = s.getModel(pc, extra)
			if m == nil {
				s.dead = true
				return Unknown, nil
			}
			if !ok {
				s.NSat--
				s.Queries--
				if extra != nil {
					s.sb.WriteString("(pop 1)\n")
				}
				if s.full == nil {
					s.full = &Solver{tm: s.tm, bin: s.bin, timeout: s.timeout}
					s.full.start()
				}
				s.Fulls++
				f := s.full
				q := [4]int{f.Queries, f.NSat, f.NUnsat, f.NUnk}
				r, m := f.Check(pc, extra, wantModel)
				s.Queries += f.Queries - q[0]
				s.NSat += f.NSat - q[1]
				s.NUnsat += f.NUnsat - q[2]
				s.NUnk += f.NUnk - q[3]
				return r, m
			}
		}
	case "unsat":
		res = Unsat
		s.NUnsat++
	default:
		res = Unknown
		s.NUnk++
	}
	if extra != nil && !s.dead {
		s.sb.WriteString("(pop 1)\n")
	}
	return res, m
}

var lastSolverError string

var slowQuery = func() time.Duration {
	v, _ := strconv.Atoi(os.Getenv("SYMGO_SLOW"))
	return time.Duration(v) * time.Millisecond
}()

var maxDefs = func() int {
	if v, err := strconv.Atoi(os.Getenv("SYMGO_DEFS")); err == nil {
		return v
	}
	return 1500
}()

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// getModel reads the model; ok is false when the opaque parities could not be made to agree with it.
func (s *Solver) getModel(pc []*Term, extra *Term) (*Model, bool) {
	// variables below pc and extra
	seen := map[int32]bool{}
	var vs, rows []*Term
	var walk func(*Term)
	walk = func(t *Term) {
		if t == nil || t.op == OConst || seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == OVar {
			vs = append(vs, t)
			return
		}
		if s.opaque && len(s.tm.rows[t.id]) > opaqueAtoms {
			rows = append(rows, t)
			return
		}
		walk(t.a)
		walk(t.b)
		walk(t.c)
	}
	for _, t := range pc {
		walk(t)
	}
	walk(extra)
	m := newModel()
	all := append(append([]*Term{}, vs...), rows...)
	if len(all) == 0 {
		return m, true
	}
	vals := s.values(all)
	if vals == nil {
		return nil, false
	}
	for _, v := range vs {
		m.vals[v.id] = vals[v.id]
	}
	if len(rows) == 0 {
		return m, true
	}
	cons := pc
	if extra != nil {
		cons = append(append([]*Term{}, pc...), extra)
	}
	return m, s.repair(m, vs, rows, vals, cons)
}

// repair completes a model in which the parities were opaque: by linear algebra it gives inputs values that make
// the parities as assigned. Inputs that occur elsewhere keep their values if possible; if not, those bound by more
// than disequalities do, and the outcome is evaluated.
func (s *Solver) repair(m *Model, vs, rows []*Term, vals map[int32]uint64, cons []*Term) bool {
	s.Repaired++
	inner := map[int32]bool{} // inputs inside atoms that are not inputs themselves stay as they are
	seen := map[int32]bool{}
	var walk func(*Term, map[int32]bool)
	walk = func(t *Term, into map[int32]bool) {
		if t == nil || seen[t.id] || len(s.tm.rows[t.id]) > opaqueAtoms {
			return
		}
		seen[t.id] = true
		if t.op == OVar {
			into[t.id] = true
		}
		walk(t.a, into)
		walk(t.b, into)
		walk(t.c, into)
	}
	for _, r := range rows {
		for _, a := range s.tm.rows[r.id] {
			if t := s.tm.byID[int32(a>>8)]; t.op != OVar {
				walk(t, inner)
			}
		}
	}
	fixed := map[int32]bool{}
	for id := range inner {
		fixed[id] = true
	}
	for _, v := range vs {
		fixed[v.id] = true
	}
	if s.solveRows(m, rows, vals, fixed) {
		return true
	}
	hard := map[int32]bool{}
	for id := range inner {
		hard[id] = true
	}
	seen = map[int32]bool{}
	for _, c := range cons {
		var lit func(t *Term)
		lit = func(t *Term) {
			switch {
			case t.op == OAnd:
				lit(t.a)
				lit(t.b)
			case t.op == ONot && t.a.op == OOr:
				lit(s.tm.Not(t.a.a))
				lit(s.tm.Not(t.a.b))
			case t.op == ONot && t.a.op == OEq:
			default:
				walk(t, hard)
			}
		}
		lit(c)
	}
	for try := 0; try < 6; try++ {
		x := newModel()
		for id, v := range m.vals {
			x.vals[id] = v
		}
		if try > 0 {
			for _, v := range vs {
				if !hard[v.id] && (try > 2 || s.tm.rnd()&1 == 0) {
					x.vals[v.id] = s.tm.rnd() & mask(max(v.w, 1))
				}
			}
		}
		if !s.solveRows(x, rows, vals, hard) {
			continue
		}
		ok := true
		for _, c := range cons {
			if x.eval(c) == 0 {
				ok = false
				break
			}
		}
		if ok {
			m.vals = x.vals
			m.memo = x.memo
			return true
		}
	}
	return false
}

// solveRows changes inputs that are not fixed so that the rows have their assigned values.
func (s *Solver) solveRows(m *Model, rows []*Term, vals map[int32]uint64, fixed map[int32]bool) bool {
	idx := map[uint64]int{}
	var atoms []uint64
	var mat [][]uint64
	var rhs []bool
	for _, r := range rows {
		p := vals[r.id] == 0 // the term says: the parity is zero
		var bs []uint64
		for _, a := range s.tm.rows[r.id] {
			t := s.tm.byID[int32(a>>8)]
			if t.op == OVar && !fixed[t.id] {
				i, ok := idx[a]
				if !ok {
					i = len(atoms)
					idx[a] = i
					atoms = append(atoms, a)
				}
				for i/64 >= len(bs) {
					bs = append(bs, 0)
				}
				bs[i/64] ^= 1 << (i % 64)
			}
			if m.eval(t)>>(a&0xff)&1 == 1 {
				p = !p
			}
		}
		// what is left is the difference to the current values
		mat = append(mat, bs)
		rhs = append(rhs, p)
	}
	pivot := make([]int, len(mat))
	for i := range mat {
		pivot[i] = -1
		for w, x := range mat[i] {
			if x != 0 {
				pivot[i] = w*64 + bits.TrailingZeros64(x)
				break
			}
		}
		if pivot[i] < 0 {
			if !rhs[i] {
				continue
			}
			return false
		}
		w, bit := pivot[i]/64, uint(pivot[i]%64)
		for j := range mat {
			if j == i || w >= len(mat[j]) || mat[j][w]>>bit&1 == 0 {
				continue
			}
			for len(mat[j]) < len(mat[i]) {
				mat[j] = append(mat[j], 0)
			}
			for k := range mat[i] {
				mat[j][k] ^= mat[i][k]
			}
			rhs[j] = rhs[j] != rhs[i]
		}
	}
	for i := range mat {
		if pivot[i] >= 0 && rhs[i] {
			a := atoms[pivot[i]]
			m.vals[int32(a>>8)] ^= 1 << (a & 0xff)
		}
	}
	m.memo = map[int32]uint64{}
	for _, r := range rows {
		if m.eval(r) != vals[r.id] {
			return false
		}
	}
	return true
}

// values asks for the values of terms.
func (s *Solver) values(vs []*Term) map[int32]uint64 {
	vals := map[int32]uint64{}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range vs {
		sb.WriteString(" t")
		sb.WriteString(strconv.Itoa(int(v.id)))
	}
	sb.WriteString("))\n")
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		return nil
	}
	depth := 0
	var txt strings.Builder
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			return nil
		}
		txt.WriteString(line)
		depth += strings.Count(line, "(") - strings.Count(line, ")")
		if depth <= 0 {
			break
		}
	}
	str := txt.String()
	if strings.HasPrefix(strings.TrimSpace(str), "(error") {
		return nil
	}
	r := strings.NewReplacer("(", " ", ")", " ")
	f := strings.Fields(r.Replace(str))
	byID := map[string]*Term{}
	for _, v := range vs {
		byID["t"+strconv.Itoa(int(v.id))] = v
	}
	for i := 0; i+1 < len(f); i++ {
		v := byID[f[i]]
		if v == nil {
			continue
		}
		val := f[i+1]
		var x uint64
		switch {
		case val == "true":
			x = 1
		case val == "false":
			x = 0
		case strings.HasPrefix(val, "#x"):
			x, _ = strconv.ParseUint(val[2:], 16, 64)
		case strings.HasPrefix(val, "#b"):
			x, _ = strconv.ParseUint(val[2:], 2, 64)
		default:
			return nil
		}
		vals[v.id] = x
		i++
	}
	return vals
}

// show renders a term for diagnostics.
func (t *Term) show(d int) string {
	switch {
	case t == nil:
		return ""
	case t.op == OConst:
		return fmt.Sprintf("%d:%d", t.v, t.w)
	case t.op == OVar:
		return fmt.Sprintf("%s:%d", t.name, t.w)
	case d == 0:
		return fmt.Sprintf("t%d", t.id)
	}
	r := fmt.Sprintf("(op%d.%d", t.op, t.w)
	if t.op == OExtract {
		r += fmt.Sprintf("@%d", t.v)
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			r += " " + x.show(d-1)
		}
	}
	return r + ")"
}
