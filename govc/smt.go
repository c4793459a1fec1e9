package main

// The SMT back end: one persistent z3 process per engine.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	cache   map[string]string
	Queries int
	Unsat   int
	Retries int
	Time    time.Duration
	Timeout int // ms
	lastQ   string
	linear  bool
	trace   io.Writer
	rules   func(app *Term) []*Term
}

func NewSolver() *Solver {
	s := &Solver{cache: map[string]string{}, Timeout: 4000}
	if f := os.Getenv("GOVC_TRACE"); f != "" {
		s.trace, _ = os.OpenFile(f, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	}
	return s
}

func (s *Solver) start() {
	bin := "z3"
	c := exec.Command(bin, "-in", "-smt2")
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	if err := c.Start(); err != nil {
		panic("cannot start z3: " + err.Error())
	}
	s.cmd, s.in, s.out = c, in, bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n", wallLimit.Milliseconds())
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func smtName(n string) string { return "|" + strings.ReplaceAll(n, "|", "!") + "|" }

func sortName(s Sort) string {
	switch s {
	case SBool:
		return "Bool"
	case SReal:
		return "Real"
	}
	return "Int"
}

type smtCtx struct {
	linear    bool // products and symbolic quotients are functions with lemmas
	prods     [][2]*Term
	everBound map[string]bool
	words     map[string]string
	decl      map[string]string
	sb        strings.Builder
	bound     map[string]bool
	extra     []*Term
	seenX     map[string]bool
	rules     func(app *Term) []*Term
}

func ratSMT(t *Term) string {
	n := t.Num
	neg := n.Sign() < 0
	a := n.Num().String()
	if neg {
		a = a[1:]
	}
	if t.Sort == SReal {
		r := a + ".0"
		if !n.IsInt() {
			r = "(/ " + a + ".0 " + n.Denom().String() + ".0)"
		}
		if neg {
			return "(- " + r + ")"
		}
		return r
	}
	if neg {
		return "(- " + a + ")"
	}
	return a
}

func (c *smtCtx) emit(t *Term) string {
	switch t.Op {
	case OpNum:
		return ratSMT(t)
	case OpTrue:
		return "true"
	case OpFalse:
		return "false"
	case OpSym:
		if !c.bound[t.Name] {
			c.decl[t.Name] = "(declare-const " + smtName(t.Name) + " " + sortName(t.Sort) + ")"
		}
		return smtName(t.Name)
	case OpApp:
		c.appLemma(t)
		if isWordFn(t.Name) {
			var bv, bs []string
			for v, on := range c.bound {
				if on && t.Has(v) {
					bv = append(bv, v)
				}
			}
			sort.Strings(bv)
			n, ok := c.words[t.key]
			if !ok {
				n = fmt.Sprintf("w#%s%d", t.Name, len(c.words))
				if c.words == nil {
					c.words = map[string]string{}
				}
				c.words[t.key] = n
				for range bv {
					bs = append(bs, "Int")
				}
				c.decl[n] = "(declare-fun " + smtName(n) + " (" + strings.Join(bs, " ") + ") " + sortName(t.Sort) + ")"
			}
			if len(bv) > 0 {
				for i := range bv {
					bv[i] = smtName(bv[i])
				}
				return "(" + smtName(n) + " " + strings.Join(bv, " ") + ")"
			}
			return smtName(n)
		}
		if len(t.Args) == 0 {
			c.decl[t.Name] = "(declare-const " + smtName(t.Name) + " " + sortName(t.Sort) + ")"
			return smtName(t.Name)
		}
		name := fmt.Sprintf("%s/%d", t.Name, len(t.Args))
		var as, ss []string
		for _, a := range t.Args {
			as = append(as, c.emit(a))
			ss = append(ss, sortName(a.Sort))
			name += sortName(a.Sort)[:1]
		}
		c.decl[name] = "(declare-fun " + smtName(name) + " (" + strings.Join(ss, " ") + ") " + sortName(t.Sort) + ")"
		return "(" + smtName(name) + " " + strings.Join(as, " ") + ")"
	case OpPoly:
		if c.linear && t.Sort == SInt {
			return c.emitLinear(t)
		}
		var parts []string
		for _, m := range t.Mon {
			var fs []string
			if m.C.Cmp(ratOne) != 0 || len(m.F) == 0 {
				fs = append(fs, ratSMT(NumR(m.C, t.Sort)))
			}
			for _, f := range m.F {
				x := c.emit(f.T)
				e := f.E
				if e < 0 {
					for ; e < 0; e++ {
						fs = append(fs, "(/ 1.0 "+x+")")
					}
				} else {
					for ; e > 0; e-- {
						fs = append(fs, x)
					}
				}
			}
			if len(fs) == 1 {
				parts = append(parts, fs[0])
			} else {
				parts = append(parts, "(* "+strings.Join(fs, " ")+")")
			}
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(+ " + strings.Join(parts, " ") + ")"
	case OpIte:
		return "(ite " + c.emit(t.Args[0]) + " " + c.emit(t.Args[1]) + " " + c.emit(t.Args[2]) + ")"
	case OpDiv:
		c.divLemma(t)
		if c.linear && !t.Args[1].IsNum() {
			c.decl["div#"] = "(declare-fun |div#| (Int Int) Int)"
			return "(|div#| " + c.emit(t.Args[0]) + " " + c.emit(t.Args[1]) + ")"
		}
		return "(div " + c.emit(t.Args[0]) + " " + c.emit(t.Args[1]) + ")"
	case OpMod:
		return "(mod " + c.emit(t.Args[0]) + " " + c.emit(t.Args[1]) + ")"
	case OpToReal:
		return "(to_real " + c.emit(t.Args[0]) + ")"
	case OpFloor:
		return "(to_int " + c.emit(t.Args[0]) + ")"
	case OpGe0:
		z := "0"
		if t.Args[0].Sort == SReal {
			z = "0.0"
		}
		return "(>= " + c.emit(t.Args[0]) + " " + z + ")"
	case OpEq0:
		z := "0"
		if t.Args[0].Sort == SReal {
			z = "0.0"
		}
		return "(= " + c.emit(t.Args[0]) + " " + z + ")"
	case OpNot:
		return "(not " + c.emit(t.Args[0]) + ")"
	case OpAnd, OpOr:
		op := "and"
		if t.Op == OpOr {
			op = "or"
		}
		var as []string
		for _, a := range t.Args {
			as = append(as, c.emit(a))
		}
		return "(" + op + " " + strings.Join(as, " ") + ")"
	case OpForall:
		n := len(t.Args) - 1
		old := map[string]bool{}
		var vs []string
		for _, v := range t.Args[:n] {
			old[v.Name] = c.bound[v.Name]
			c.bound[v.Name] = true
			c.everBound[v.Name] = true
			vs = append(vs, "("+smtName(v.Name)+" "+sortName(v.Sort)+")")
		}
		b := c.emit(t.Args[n])
		for k, v := range old {
			c.bound[k] = v
		}
		return "(forall (" + strings.Join(vs, " ") + ") " + b + ")"
	}
	panic("emit")
}

// emitLinear: products of unknowns are an uninterpreted function
func (c *smtCtx) emitLinear(t *Term) string {
	var parts []string
	for _, m := range t.Mon {
		var p *Term
		s := ""
		for _, f := range m.F {
			for e := f.E; e > 0; e-- {
				if p == nil {
					p, s = f.T, c.emit(f.T)
					continue
				}
				c.decl["mul#"] = "(declare-fun |mul#| (Int Int) Int)"
				c.prods = append(c.prods, [2]*Term{p, f.T})
				s = "(|mul#| " + s + " " + c.emit(f.T) + ")"
				p = Mul(p, f.T)
			}
		}
		switch {
		case s == "":
			s = ratSMT(NumR(m.C, t.Sort))
		case m.C.Cmp(ratOne) != 0:
			s = "(* " + ratSMT(NumR(m.C, t.Sort)) + " " + s + ")"
		}
		parts = append(parts, s)
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(+ " + strings.Join(parts, " ") + ")"
}

// prodLemmas: monotonicity of products with a common factor
func (c *smtCtx) prodLemmas() (out []*Term) {
	seen := map[string]bool{}
	type pr struct{ x, z *Term }
	var ps []pr
	for _, p := range c.prods {
		k := p[0].key + "*" + p[1].key
		free := true
		for v, on := range c.everBound {
			if on && (p[0].Has(v) || p[1].Has(v)) {
				free = false
			}
		}
		if seen[k] || !free {
			continue
		}
		seen[k] = true
		ps = append(ps, pr{p[0], p[1]}, pr{p[1], p[0]})
	}
	for i, a := range ps {
		xz := Mul(a.x, a.z)
		pos := Ge(a.z, Num(0))
		out = append(out, Implies(And(pos, Ge(a.x, Num(1))), Ge(xz, a.z)), Implies(And(pos, Ge(a.x, Num(0))), Ge(xz, Num(0))), Implies(Eq(a.x, Num(0)), Eq(xz, Num(0))), Implies(And(pos, Le(a.x, Num(-1))), Le(xz, Neg(a.z))), Implies(Eq(a.x, Num(1)), Eq(xz, a.z)), Implies(And(pos, Ge(a.x, Num(2))), Ge(xz, MulC(2, a.z))))
		for _, b := range ps[i+1:] {
			if a.z.key != b.z.key || a.x.key == b.x.key {
				continue
			}
			yz := Mul(b.x, a.z)
			out = append(out, Implies(And(pos, Lt(a.x, b.x)), Le(Add(xz, a.z), yz)), Implies(And(pos, Lt(b.x, a.x)), Le(Add(yz, a.z), xz)), Implies(Eq(a.x, b.x), Eq(xz, yz)))
		}
	}
	return
}

func (c *smtCtx) appLemma(t *Term) {
	if c.rules == nil || c.seenX[t.key] {
		return
	}
	for v, on := range c.bound {
		if on && t.Has(v) {
			return
		}
	}
	c.seenX[t.key] = true
	c.extra = append(c.extra, c.rules(t)...)
	// the constant component is always there
	if strings.HasPrefix(t.Name, "has0|") && len(t.Args) > 0 {
		as := append([]*Term{}, t.Args...)
		as[len(as)-1] = Num(0)
		if z := App(t.Name, SBool, as...); !c.seenX[z.key] {
			c.seenX[z.key] = true
			c.extra = append(c.extra, z)
		}
	}
}

// instances of the division lemma for symbolic divisors
func (c *smtCtx) divLemma(t *Term) {
	if t.Args[1].IsNum() || len(c.bound) > 0 {
		for v, on := range c.bound {
			if on && t.Has(v) {
				return
			}
		}
	}
	if t.Args[1].IsNum() || c.seenX[t.key] {
		return
	}
	c.seenX[t.key] = true
	a, b := t.Args[0], t.Args[1]
	d := t
	// b>0 => b*d <= a < b*d+b
	c.extra = append(c.extra, Implies(Gt(b, Num(0)), And(Le(Mul(b, d), a), Lt(a, Add(Mul(b, d), b)))))
}

var freshNum = regexp.MustCompile(`!\d+`)

func (s *Solver) query(as []*Term) string {
	// deterministic, deduplicated text
	c := &smtCtx{decl: map[string]string{}, bound: map[string]bool{}, seenX: map[string]bool{}, rules: s.rules, linear: s.linear, everBound: map[string]bool{}}
	var lines []string
	seen := map[string]bool{}
	emit := func(t *Term) {
		if seen[t.key] {
			return
		}
		seen[t.key] = true
		lines = append(lines, "(assert "+c.emit(t)+")")
	}
	for _, a := range as {
		if a.Op == OpFalse {
			return "unsat"
		}
		if a.Op == OpTrue {
			continue
		}
		emit(a)
	}
	for i := 0; i < len(c.extra); i++ {
		emit(c.extra[i])
	}
	if s.linear {
		for _, l := range c.prodLemmas() {
			emit(l)
		}
	}
	// number the fresh names by order of appearance: the text does not depend on what other goals do
	num := map[string]string{}
	ren := func(s string) string {
		return freshNum.ReplaceAllStringFunc(s, func(m string) string {
			n, ok := num[m]
			if !ok {
				n = fmt.Sprintf("!%d", len(num))
				num[m] = n
			}
			return n
		})
	}
	body := ren(strings.Join(lines, "\n"))
	var ds []string
	for _, d := range c.decl {
		ds = append(ds, ren(d))
	}
	sort.Strings(ds)
	q := strings.Join(ds, "\n") + "\n" + body + "\n(check-sat)\n"
	if r, ok := s.cache[q]; ok {
		return r
	}
	if s.cmd == nil {
		s.start()
	}
	t0 := time.Now()
	s.lastQ = q
	fmt.Fprintf(s.in, "(push)\n%s(pop)\n(echo \"@done\")\n", q)
	res := ""
	done := make(chan string, 1)
	go func() {
		r := "unknown"
		for {
			l, err := s.out.ReadString('\n')
			if err != nil {
				done <- "dead"
				return
			}
			l = strings.TrimSpace(l)
			if l == "@done" || l == "\"@done\"" {
				done <- r
				return
			}
			if l == "sat" || l == "unsat" || l == "unknown" {
				r = l
			} else if strings.Contains(l, "error") {
				r = "error " + l
			}
		}
	}()
	// The limit is on processor time, so that the verdict does not depend on what else the machine is doing.
	pid, c0 := s.cmd.Process.Pid, procCPU(s.cmd.Process.Pid)
	tick := time.NewTicker(100 * time.Millisecond)
	for res == "" {
		select {
		case res = <-done:
		case <-tick.C:
			if procCPU(pid)-c0 > time.Duration(s.Timeout)*time.Millisecond || time.Since(t0) > wallLimit {
				s.cmd.Process.Kill()
				<-done
				res = "dead"
			}
		}
	}
	tick.Stop()
	if res == "dead" {
		s.cmd.Wait()
		s.cmd = nil
		res = "unknown"
	}
	s.Time += time.Since(t0)
	s.Queries++
	if res == "unknown" && s.Retries < 6 {
		// another process, another seed, more time
		s.Retries++
		if r := onceZ3(q, 20, s.Retries); r == "sat" || r == "unsat" {
			res = r
		}
		s.Time += time.Since(t0)
	}
	if strings.HasPrefix(res, "error") {
		panic("smt error: " + res + "\n" + q)
	}
	if res == "unsat" {
		s.Unsat++
	}
	if s.trace != nil && time.Since(t0) > 300*time.Millisecond {
		fmt.Fprintf(s.trace, "; %s %v\n%s\n", res, time.Since(t0), q)
	}
	s.cache[q] = res
	return res
}

// wallLimit bounds one query on a machine that is too busy to give the solver its processor time.
const wallLimit = 90 * time.Second

// procCPU is the processor time a process has used.
func procCPU(pid int) time.Duration {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b[strings.LastIndexByte(string(b), ')')+1:]))
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.Atoi(f[11])
	k, _ := strconv.Atoi(f[12])
	return time.Duration(u+k) * 10 * time.Millisecond
}

func onceZ3(q string, secs, seed int) string {
	c := exec.Command("prlimit", fmt.Sprintf("--cpu=%d", secs), "z3", "-in", "-smt2", fmt.Sprintf("-T:%d", 6*secs), fmt.Sprintf("smt.random_seed=%d", seed), fmt.Sprintf("sat.random_seed=%d", seed))
	c.Stdin = strings.NewReader(q)
	b, _ := c.Output()
	for _, l := range strings.Split(string(b), "\n") {
		if l = strings.TrimSpace(l); l == "sat" || l == "unsat" {
			return l
		}
	}
	return "unknown"
}
