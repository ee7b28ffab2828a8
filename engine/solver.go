package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

// Solver drives one z3 process over SMT-LIB2 text.
type Solver struct {
	ctx     *Ctx
	bin     string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	cache   map[string]cached
	Queries int
	Cached  int
	Time    time.Duration
	NSat    int
	NUnsat  int
	NUnk    int
	MaxQ    time.Duration
}

type cached struct {
	r SatRes
	m map[*Expr]uint64
}

func NewSolver(ctx *Ctx) *Solver {
	return &Solver{ctx: ctx, cache: map[string]cached{}, bin: "z3"}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		return err
	}
	_, err = io.WriteString(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :timeout 30000)\n")
	return err
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Check decides pc ∧ q. Only the part of pc connected with q through shared
// variables is sent: pc alone is known to be satisfiable, so the rest cannot
// change the verdict. The returned model covers just those variables.
func (s *Solver) Check(pc []*Expr, q *Expr) (SatRes, map[*Expr]uint64) {
	if q.IsFalse() {
		return Unsat, nil
	}
	need := map[uint32]bool{}
	for _, v := range q.vars {
		need[v] = true
	}
	used := make([]bool, len(pc))
	rel := []*Expr{q}
	for changed := true; changed; {
		changed = false
		for i, p := range pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range p.vars {
				if need[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				rel = append(rel, p)
				for _, v := range p.vars {
					need[v] = true
				}
			}
		}
	}
	sortExprs(rel)
	var kb strings.Builder
	for i, e := range rel {
		if i > 0 && e == rel[i-1] {
			continue
		}
		fmt.Fprintf(&kb, "%d,", e.id)
	}
	key := kb.String()
	if c, ok := s.cache[key]; ok {
		s.Cached++
		return c.r, c.m
	}
	r, m := s.solve(rel)
	s.cache[key] = cached{r, m}
	return r, m
}

func (s *Solver) solve(rel []*Expr) (SatRes, map[*Expr]uint64) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if d > s.MaxQ {
			s.MaxQ = d
		}
	}()
	s.Queries++
	if s.cmd == nil {
		if err := s.start(); err != nil {
			s.NUnk++
			return Unknown, nil
		}
	}
	var sb strings.Builder
	sb.WriteString("(push)\n")
	done := map[*Expr]string{}
	for _, e := range rel {
		n := e.smt(&sb, done)
		fmt.Fprintf(&sb, "(assert %s)\n", n)
	}
	sb.WriteString("(check-sat)\n(echo \"--\")\n")
	io.WriteString(s.in, sb.String())
	lines := s.readTo("--")
	res := Unknown
	for _, l := range lines {
		switch {
		case strings.HasPrefix(l, "(error"):
			res = Unknown
			s.Close()
			s.NUnk++
			return Unknown, nil
		case l == "sat":
			res = Sat
		case l == "unsat":
			res = Unsat
		}
	}
	var m map[*Expr]uint64
	if res == Sat {
		s.NSat++
		m = map[*Expr]uint64{}
		var vars []*Expr
		for e := range done {
			if e.Op == OpVar {
				vars = append(vars, e)
			}
		}
		if len(vars) > 0 {
			var gb strings.Builder
			gb.WriteString("(get-value (")
			for _, v := range vars {
				gb.WriteString("|" + v.Name + "| ")
			}
			gb.WriteString("))\n(echo \"--\")\n")
			io.WriteString(s.in, gb.String())
			txt := strings.Join(s.readTo("--"), " ")
			for _, v := range vars {
				i := strings.Index(txt, "|"+v.Name+"| ")
				k := len(v.Name) + 3
				if i < 0 {
					i = strings.Index(txt, "("+v.Name+" ")
					k = len(v.Name) + 2
				}
				if i < 0 {
					continue
				}
				t := txt[i+k:]
				j := strings.IndexAny(t, ")")
				t = strings.TrimSpace(t[:j])
				switch {
				case t == "true":
					m[v] = 1
				case t == "false":
					m[v] = 0
				case strings.HasPrefix(t, "#x"):
					u, _ := strconv.ParseUint(t[2:], 16, 64)
					m[v] = u
				case strings.HasPrefix(t, "#b"):
					u, _ := strconv.ParseUint(t[2:], 2, 64)
					m[v] = u
				}
			}
		}
	} else if res == Unsat {
		s.NUnsat++
	} else {
		s.NUnk++
	}
	if s.cmd != nil {
		io.WriteString(s.in, "(pop)\n")
	}
	return res, m
}

func (s *Solver) readTo(mark string) []string {
	var out []string
	for {
		l, err := s.out.ReadString('\n')
		l = strings.TrimSpace(l)
		if l == mark {
			return out
		}
		if l != "" {
			out = append(out, l)
		}
		if err != nil {
			return append(out, "(error eof)")
		}
	}
}
