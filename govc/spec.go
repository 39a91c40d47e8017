package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// ---- abstract syntax of the contract language

type Expr struct {
	Op   string // id num str call sel idx un bin forall exists ite let old meta slice
	Name string
	Num  uint64
	A    []*Expr
	Bind []Binder
	Pos  string
}

type Binder struct{ Name, Sort string }

type Clause struct {
	Kind  string // requires ensures exsures nopanic panicsiff panicsif modifies cand implements
	Label string
	Tags  map[string]bool
	E     *Expr
	Raw   string
	Pos   string
	Names []string // modifies
}

type Contract struct {
	Key     string
	Params  []string
	Results []string
	Clauses []*Clause
	Trusted string
	Configs map[string]bool
	Shape   string          // the Go type of the function values a funcspec is for
	Hide    map[string]bool // axioms that its verification does without
	Home    map[string]bool // the properties whose check verifies it; the others rely on it
	Opaque  []string        // recursive definitions its proof does not open
	Spec    bool            // funcspec: contract of function values
	Args    []Binder
	File    string
	Used    bool
}

type Define struct {
	Name   string
	Params []Binder
	Ret    string
	Body   *Expr
}

// Guard: a field that is accessed only while a lock is held, or only atomically.
type Guard struct{ Type, Field, By string }

type SpecSet struct {
	Funcs   map[string][]*Contract
	FSpecs  map[string]*Contract
	Defs    map[string]*Define
	Recs    map[string]*Define
	UFs     map[string]*Define
	Lemmas  []*Contract
	Axioms  []*Clause
	Order   []string
	Stable  []string
	Guarded []Guard
	NClause int
}

func (c *Contract) active(prop string) []*Clause {
	if c.Home != nil {
		return c.Clauses
	}
	var r []*Clause
	for _, cl := range c.Clauses {
		if len(cl.Tags) == 0 || cl.Tags[prop] {
			r = append(r, cl)
		}
	}
	return r
}

// checked is what the check of prop verifies of a contract: of one with a home,
// the clauses of prop, those of no property, and those of none of its homes.
func (c *Contract) checked(prop string) []*Clause {
	if c.Home == nil || prop == "" {
		return c.active(prop)
	}
	var r []*Clause
	for _, cl := range c.Clauses {
		elsewhere := false
		for t := range cl.Tags {
			elsewhere = elsewhere || c.Home[t]
		}
		if len(cl.Tags) == 0 || cl.Tags[prop] || !elsewhere || (cl.Kind != "ensures" && cl.Kind != "exsures" && cl.Kind != "panicsiff" && cl.Kind != "panicsif") {
			r = append(r, cl)
		}
	}
	return r
}

func LoadSpecs(dir string, cfg Config) (*SpecSet, error) {
	s := &SpecSet{Funcs: map[string][]*Contract{}, FSpecs: map[string]*Contract{}, Defs: map[string]*Define{}, Recs: map[string]*Define{}, UFs: map[string]*Define{}}
	fs, err := filepath.Glob(filepath.Join(dir, "*.gvc"))
	if err != nil {
		return nil, err
	}
	sort.Strings(fs)
	for _, f := range fs {
		if !fileInConfig(filepath.Base(f), cfg) {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := s.parseFile(filepath.Base(f), string(b)); err != nil {
			return nil, err
		}
	}
	return s, nil
}

var clauseKw = map[string]bool{"requires": true, "ensures": true, "exsures": true, "nopanic": true, "panicsiff": true, "panicsif": true, "modifies": true, "cand": true, "trusted": true, "config": true, "home": true, "opaque": true, "hide": true, "assert": true, "shape": true}
var topKw = map[string]bool{"func": true, "funcspec": true, "define": true, "rec": true, "uf": true, "axiom": true, "lemma": true, "stable": true, "guarded": true}

func (s *SpecSet) parseFile(name, text string) error {
	type chunk struct {
		kw, rest, pos string
	}
	var chunks []chunk
	for i, l := range strings.Split(text, "\n") {
		if j := strings.Index(l, "//"); j >= 0 && !strings.Contains(l[:j], "\"") {
			l = l[:j]
		}
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		w := t
		if j := strings.IndexAny(t, " \t"); j >= 0 {
			w = t[:j]
		}
		pos := fmt.Sprintf("%s:%d", name, i+1)
		top := l[0] != ' ' && l[0] != '\t'
		if top {
			if !topKw[w] {
				return fmt.Errorf("%s: unknown declaration %q", pos, w)
			}
			chunks = append(chunks, chunk{w, strings.TrimSpace(t[len(w):]), pos})
			continue
		}
		if clauseKw[w] {
			chunks = append(chunks, chunk{w, strings.TrimSpace(t[len(w):]), pos})
			continue
		}
		if len(chunks) == 0 {
			return fmt.Errorf("%s: text before the first declaration", pos)
		}
		chunks[len(chunks)-1].rest += "\n" + t
	}
	var cur *Contract
	for _, ch := range chunks {
		switch ch.kw {
		case "func":
			key, ps, rs, err := parseHeader(ch.rest)
			if err != nil {
				return fmt.Errorf("%s: %v", ch.pos, err)
			}
			cur = &Contract{Key: key, Params: names(ps), Results: names(rs), File: ch.pos}
			s.Funcs[key] = append(s.Funcs[key], cur)
			s.Order = append(s.Order, key)
		case "funcspec":
			// funcspec Name(c: T, ...) (a1, a2) (r1)
			key, groups, err := headerGroups(ch.rest)
			if err != nil {
				return fmt.Errorf("%s: %v", ch.pos, err)
			}
			for len(groups) < 3 {
				groups = append(groups, nil)
			}
			cur = &Contract{Key: key, Args: groups[0], Params: names(groups[1]), Results: names(groups[2]), File: ch.pos, Spec: true}
			s.FSpecs[key] = cur
		case "lemma":
			// lemma NAME(m0: Mem, ...) with requires and ensures
			key, groups, err := headerGroups(ch.rest)
			if err != nil {
				return fmt.Errorf("%s: %v", ch.pos, err)
			}
			cur = &Contract{Key: "lemma " + key, File: ch.pos, Spec: true}
			if len(groups) > 0 {
				cur.Args = groups[0]
			}
			s.Lemmas = append(s.Lemmas, cur)
		case "define", "rec", "uf":
			cur = nil
			i := strings.Index(ch.rest, "=")
			head, body := ch.rest, ""
			if ch.kw != "uf" {
				if i < 0 {
					return fmt.Errorf("%s: no body", ch.pos)
				}
				head, body = ch.rest[:i], ch.rest[i+1:]
			}
			ret := ""
			if j := strings.LastIndex(head, ")"); j >= 0 {
				ret = strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(head[j+1:]), ":"))
				head = head[:j+1]
			}
			nm, groups, err := headerGroups(strings.TrimSpace(head))
			if err != nil {
				return fmt.Errorf("%s: %v", ch.pos, err)
			}
			if s.Defs[nm] != nil || s.Recs[nm] != nil || s.UFs[nm] != nil {
				return fmt.Errorf("%s: %s is defined twice", ch.pos, nm)
			}
			d := &Define{Name: nm, Ret: ret}
			if len(groups) > 0 {
				d.Params = groups[0]
			}
			if body != "" {
				d.Body, err = parseExpr(body, ch.pos)
				if err != nil {
					return err
				}
			}
			switch ch.kw {
			case "define":
				s.Defs[nm] = d
			case "rec":
				s.Recs[nm] = d
			default:
				s.UFs[nm] = d
			}
		case "stable":
			// stable mockey.T.f, elems `T`, global p.v: what stays as it is
			// between the making of a function value and its calls
			for _, w := range splitTop(ch.rest) {
				w = strings.ReplaceAll(strings.TrimSpace(w), "`", "")
				switch {
				case strings.HasPrefix(w, "elems "):
					w = "E:" + strings.TrimSpace(w[6:])
				case strings.HasPrefix(w, "global "):
					w = "G:" + strings.TrimSpace(w[7:])
				default:
					w = "H:" + w
				}
				s.Stable = append(s.Stable, w)
			}
		case "guarded":
			// guarded mockey.sequence.curV by readLock
			w := strings.Fields(ch.rest)
			if len(w) != 3 || w[1] != "by" {
				return fmt.Errorf("%s: guarded T.field by lock", ch.pos)
			}
			i := strings.LastIndex(w[0], ".")
			s.Guarded = append(s.Guarded, Guard{w[0][:i], w[0][i+1:], w[2]})
		case "axiom":
			cur = nil
			cl, err := parseClause("axiom", ch.rest, ch.pos)
			if err != nil {
				return err
			}
			s.Axioms = append(s.Axioms, cl)
		default:
			if cur == nil {
				return fmt.Errorf("%s: clause outside a contract", ch.pos)
			}
			switch ch.kw {
			case "trusted":
				cur.Trusted = strings.Trim(ch.rest, "\" ")
			case "shape":
				cur.Shape = strings.Trim(ch.rest, "`\" ")
			case "opaque":
				cur.Opaque = strings.Fields(strings.ReplaceAll(ch.rest, ",", " "))
			case "hide":
				if cur.Hide == nil {
					cur.Hide = map[string]bool{}
				}
				cur.Hide[strings.Trim(ch.rest, "\" ")] = true
			case "home":
				cur.Home = map[string]bool{}
				for _, w := range strings.Fields(strings.ReplaceAll(ch.rest, ",", " ")) {
					cur.Home[w] = true
				}
			case "config":
				cur.Configs = map[string]bool{}
				for _, w := range strings.Fields(strings.ReplaceAll(ch.rest, ",", " ")) {
					cur.Configs[w] = true
				}
			default:
				cl, err := parseClause(ch.kw, ch.rest, ch.pos)
				if err != nil {
					return err
				}
				cur.Clauses = append(cur.Clauses, cl)
				s.NClause++
			}
		}
	}
	return nil
}

func names(bs []Binder) []string {
	var r []string
	for _, b := range bs {
		r = append(r, b.Name)
	}
	return r
}

func parseClause(kind, rest, pos string) (*Clause, error) {
	cl := &Clause{Kind: kind, Pos: pos, Tags: map[string]bool{}}
	if strings.HasPrefix(rest, "\"") {
		j := strings.Index(rest[1:], "\"")
		cl.Label = rest[1 : 1+j]
		rest = strings.TrimSpace(rest[j+2:])
	}
	if strings.HasPrefix(rest, "[") {
		j := strings.Index(rest, "]")
		in := rest[1:j]
		isTag := len(in) > 0 && in[0] == 'C'
		if isTag {
			for _, t := range strings.Split(in, ",") {
				cl.Tags[strings.TrimSpace(t)] = true
			}
			rest = strings.TrimSpace(rest[j+1:])
		}
	}
	cl.Raw = rest
	if cl.Label == "" {
		cl.Label = strings.Join(strings.Fields(rest), " ")
		if len(cl.Label) > 100 {
			cl.Label = cl.Label[:100]
		}
		if kind == "nopanic" {
			cl.Label = "does not panic"
		}
	}
	if kind == "modifies" {
		for _, p := range splitTop(rest) {
			p = strings.TrimSpace(p)
			if p == "" {
				continue
			}
			cl.Names = append(cl.Names, p)
		}
		return cl, nil
	}
	if rest == "" {
		return cl, nil
	}
	e, err := parseExpr(rest, pos)
	if err != nil {
		return nil, err
	}
	cl.E = e
	return cl, nil
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i, r := range s {
		switch r {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, s[st:i])
				st = i + 1
			}
		}
	}
	return append(out, s[st:])
}

func headerGroups(s string) (string, [][]Binder, error) {
	i := strings.Index(s, "(")
	if i < 0 {
		return strings.TrimSpace(s), nil, nil
	}
	key := strings.TrimSpace(s[:i])
	var gs [][]Binder
	rest := s[i:]
	for {
		rest = strings.TrimSpace(rest)
		if !strings.HasPrefix(rest, "(") {
			break
		}
		j := strings.Index(rest, ")")
		if j < 0 {
			return "", nil, fmt.Errorf("unbalanced header %q", s)
		}
		var g []Binder
		for _, p := range strings.Split(rest[1:j], ",") {
			p = strings.TrimSpace(p)
			if p == "" {
				continue
			}
			b := Binder{Name: p}
			if k := strings.IndexAny(p, ": "); k >= 0 {
				b.Name, b.Sort = strings.TrimSpace(p[:k]), strings.Trim(strings.TrimLeft(p[k:], ": "), "` ")
			}
			g = append(g, b)
		}
		gs = append(gs, g)
		rest = rest[j+1:]
	}
	return key, gs, nil
}

// parseHeader: "mockey.(*Mocker).Patch(m) (r)"
func parseHeader(s string) (string, []Binder, []Binder, error) {
	// the key may contain a parenthesised receiver
	start := 0
	if i := strings.Index(s, ".(*"); i >= 0 && !strings.Contains(s[:i], " ") {
		start = i + strings.Index(s[i:], ")") + 1
	} else if strings.HasPrefix(s, "(") {
		start = strings.Index(s, ")") + 1
	}
	k, gs, err := headerGroups(s[start:])
	if err != nil {
		return "", nil, nil, err
	}
	key := s[:start] + k
	for len(gs) < 2 {
		gs = append(gs, nil)
	}
	return strings.TrimSpace(key), gs[0], gs[1], nil
}

// ---- expression parser

type tok struct {
	k string // id num str op eof
	s string
}

type parser struct {
	ts  []tok
	i   int
	pos string
}

var ops = []string{"<==>", "==>", "::", ":=", "==", "!=", "<=", ">=", "&&", "||", "<<", ">>", "&^", "+", "-", "*", "/", "%", "&", "|", "^", "!", "<", ">", "(", ")", "[", "]", ",", ".", "?", ":", ";", "~"}

func lex(s, pos string) ([]tok, error) {
	var out []tok
	i := 0
outer:
	for i < len(s) {
		ch := s[i]
		switch {
		case ch == ' ' || ch == '\t' || ch == '\n':
			i++
			continue
		case ch == '_' || ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch == '#':
			j := i + 1
			for j < len(s) && (s[j] == '_' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= '0' && s[j] <= '9' || s[j] == '#') {
				j++
			}
			out = append(out, tok{"id", s[i:j]})
			i = j
			continue
		case ch >= '0' && ch <= '9':
			j := i + 1
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'f' || s[j] >= 'A' && s[j] <= 'F' || s[j] == 'x') {
				j++
			}
			out = append(out, tok{"num", s[i:j]})
			i = j
			continue
		case ch == '"':
			j := strings.IndexByte(s[i+1:], '"')
			if j < 0 {
				return nil, fmt.Errorf("%s: unterminated string", pos)
			}
			out = append(out, tok{"str", s[i+1 : i+1+j]})
			i += j + 2
			continue
		case ch == '`':
			j := strings.IndexByte(s[i+1:], '`')
			out = append(out, tok{"type", s[i+1 : i+1+j]})
			i += j + 2
			continue
		}
		for _, o := range ops {
			if strings.HasPrefix(s[i:], o) {
				out = append(out, tok{"op", o})
				i += len(o)
				continue outer
			}
		}
		return nil, fmt.Errorf("%s: bad character %q", pos, ch)
	}
	return append(out, tok{"eof", ""}), nil
}

func parseExpr(s, pos string) (e *Expr, err error) {
	ts, err := lex(s, pos)
	if err != nil {
		return nil, err
	}
	p := &parser{ts: ts, pos: pos}
	defer func() {
		if r := recover(); r != nil {
			if m, ok := r.(perr); ok {
				err = fmt.Errorf("%s: %s in %q", pos, string(m), s)
				return
			}
			panic(r)
		}
	}()
	e = p.expr(0)
	if p.peek().k != "eof" {
		p.fail("unexpected " + p.peek().s)
	}
	return e, nil
}

type perr string

func (p *parser) fail(m string) { panic(perr(m)) }
func (p *parser) peek() tok     { return p.ts[p.i] }
func (p *parser) next() tok     { t := p.ts[p.i]; p.i++; return t }
func (p *parser) isOp(o string) bool {
	t := p.peek()
	return t.k == "op" && t.s == o
}
func (p *parser) accept(o string) bool {
	if p.isOp(o) {
		p.i++
		return true
	}
	return false
}
func (p *parser) want(o string) {
	if !p.accept(o) {
		p.fail("expected " + o + ", found " + p.peek().s)
	}
}

var prec = map[string]int{"<==>": 1, "==>": 2, "?": 3, "||": 4, "&&": 5, "==": 6, "!=": 6, "<": 6, "<=": 6, ">": 6, ">=": 6, "+": 7, "-": 7, "|": 7, "^": 7, "*": 8, "/": 8, "%": 8, "<<": 8, ">>": 8, "&": 8, "&^": 8}

func (p *parser) sortText() string {
	// a sort: backquoted, or [*]id[.id]
	if p.peek().k == "type" {
		return p.next().s
	}
	s := ""
	for p.accept("*") {
		s += "*"
	}
	if p.accept("[") {
		p.want("]")
		return s + "[]" + p.sortText()
	}
	t := p.next()
	if t.k != "id" {
		p.fail("sort expected")
	}
	s += t.s
	for p.isOp(".") {
		p.next()
		s += "." + p.next().s
	}
	return s
}

func (p *parser) expr(min int) *Expr {
	t := p.peek()
	if t.k == "id" && (t.s == "forall" || t.s == "exists") {
		p.next()
		e := &Expr{Op: t.s, Pos: p.pos}
		for {
			b := Binder{Name: p.next().s}
			p.want(":")
			b.Sort = p.sortText()
			e.Bind = append(e.Bind, b)
			if !p.accept(",") {
				break
			}
		}
		p.want("::")
		e.A = []*Expr{p.expr(0)}
		return e
	}
	if t.k == "id" && t.s == "let" {
		p.next()
		nm := p.next().s
		p.want(":=")
		v := p.expr(0)
		p.want(";")
		b := p.expr(0)
		return &Expr{Op: "let", Name: nm, A: []*Expr{v, b}, Pos: p.pos}
	}
	l := p.unary()
	for {
		t := p.peek()
		if t.k != "op" {
			return l
		}
		pr, ok := prec[t.s]
		if !ok || pr < min {
			return l
		}
		switch t.s {
		case "?":
			p.next()
			a := p.expr(3)
			p.want(":")
			b := p.expr(3)
			l = &Expr{Op: "ite", A: []*Expr{l, a, b}, Pos: p.pos}
		case "==>":
			p.next()
			r := p.expr(pr)
			l = &Expr{Op: "bin", Name: t.s, A: []*Expr{l, r}, Pos: p.pos}
		default:
			p.next()
			r := p.expr(pr + 1)
			l = &Expr{Op: "bin", Name: t.s, A: []*Expr{l, r}, Pos: p.pos}
		}
	}
}

func (p *parser) unary() *Expr {
	t := p.peek()
	if t.k == "op" {
		switch t.s {
		case "!", "-", "*", "~":
			p.next()
			return &Expr{Op: "un", Name: t.s, A: []*Expr{p.unary()}, Pos: p.pos}
		}
	}
	return p.postfix()
}

func (p *parser) postfix() *Expr {
	var e *Expr
	t := p.next()
	switch t.k {
	case "num":
		v, err := strconv.ParseUint(t.s, 0, 64)
		if err != nil {
			p.fail("number " + t.s)
		}
		e = &Expr{Op: "num", Num: v}
	case "str":
		e = &Expr{Op: "str", Name: t.s}
	case "type":
		e = &Expr{Op: "type", Name: t.s}
	case "id":
		if (t.s == "forall" || t.s == "exists" || t.s == "let") && p.peek().k == "id" {
			p.i--
			return p.expr(0)
		}
		e = &Expr{Op: "id", Name: t.s}
	case "op":
		switch t.s {
		case "(":
			e = p.expr(0)
			p.want(")")
		case "?":
			n := p.next()
			e = &Expr{Op: "meta", Name: n.s}
			if p.accept(":") {
				e.Bind = []Binder{{n.s, p.sortText()}}
			}
		default:
			p.fail("unexpected " + t.s)
		}
	default:
		p.fail("unexpected end")
	}
	e.Pos = p.pos
	for {
		switch {
		case p.accept("."):
			n := p.next()
			if n.k == "op" && n.s == "(" {
				p.fail("type assertion in a contract")
			}
			e = &Expr{Op: "sel", Name: n.s, A: []*Expr{e}, Pos: p.pos}
		case p.accept("["):
			if p.accept(":") {
				h := p.expr(0)
				p.want("]")
				e = &Expr{Op: "slice", A: []*Expr{e, nil, h}, Pos: p.pos}
				continue
			}
			i := p.expr(4)
			if p.accept(":") {
				var h *Expr
				if !p.isOp("]") {
					h = p.expr(0)
				}
				p.want("]")
				e = &Expr{Op: "slice", A: []*Expr{e, i, h}, Pos: p.pos}
				continue
			}
			p.want("]")
			e = &Expr{Op: "idx", A: []*Expr{e, i}, Pos: p.pos}
		case p.isOp("(") && (e.Op == "id" || e.Op == "sel"):
			p.next()
			c := &Expr{Op: "call", A: []*Expr{e}, Pos: p.pos}
			for !p.isOp(")") {
				c.A = append(c.A, p.expr(0))
				if !p.accept(",") {
					break
				}
			}
			p.want(")")
			e = c
		default:
			return e
		}
	}
}

// fileInConfig follows the naming convention of Go files: name_os_arch.gvc.
func fileInConfig(n string, cfg Config) bool {
	ps := strings.Split(strings.TrimSuffix(n, ".gvc"), "_")
	for _, p := range ps[1:] {
		switch p {
		case "amd64", "arm64":
			if p != cfg.Arch {
				return false
			}
		case "linux", "darwin", "windows":
			if p != cfg.OS {
				return false
			}
		}
	}
	return true
}
