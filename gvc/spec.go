package main

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// ---------- lexer ----------

type tok struct {
	k    string // id, int, str, op, eof
	s    string
	n    *big.Int
	line int
}

func lex(file, src string) []tok {
	var out []tok
	line := 1
	rs := []rune(src)
	i := 0
	ops := []string{"<=>", "==>", "<=", ">=", "==", "!=", "&&", "||", "++", "::", "<", ">", "+", "-", "*", "/", "%", "^", "!", "(", ")", "[", "]", "{", "}", ",", ":", ";", ".", "=", "#", "?"}
	for i < len(rs) {
		c := rs[i]
		switch {
		case c == '\n':
			line++
			i++
		case unicode.IsSpace(c):
			i++
		case c == '/' && i+1 < len(rs) && rs[i+1] == '/':
			for i < len(rs) && rs[i] != '\n' {
				i++
			}
		case c == '"':
			j := i + 1
			for rs[j] != '"' {
				if rs[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(string(rs[i : j+1]))
			if err != nil {
				panic(fmt.Sprintf("%s:%d: bad string", file, line))
			}
			out = append(out, tok{k: "str", s: s, line: line})
			i = j + 1
		case unicode.IsDigit(c):
			j := i
			for j < len(rs) && (unicode.IsDigit(rs[j]) || unicode.IsLetter(rs[j])) {
				j++
			}
			n, ok := new(big.Int).SetString(string(rs[i:j]), 0)
			if !ok {
				panic(fmt.Sprintf("%s:%d: bad number %s", file, line, string(rs[i:j])))
			}
			out = append(out, tok{k: "int", n: n, s: string(rs[i:j]), line: line})
			i = j
		case unicode.IsLetter(c) || c == '_' || c == '$':
			j := i
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '_' || rs[j] == '$') {
				j++
			}
			out = append(out, tok{k: "id", s: string(rs[i:j]), line: line})
			i = j
		default:
			found := false
			for _, o := range ops {
				if strings.HasPrefix(string(rs[i:min(i+3, len(rs))]), o) {
					out = append(out, tok{k: "op", s: o, line: line})
					i += len(o)
					found = true
					break
				}
			}
			if !found {
				panic(fmt.Sprintf("%s:%d: unexpected %q", file, line, c))
			}
		}
	}
	return append(out, tok{k: "eof", line: line})
}

// ---------- expressions ----------

type Ex struct {
	op   string // int str id call field index slice un bin ite let forall exists old
	s    string
	n    *big.Int
	a    []*Ex
	vars []param
	line int
}

type param struct {
	name string
	sort string // Int Bool Seq Fe Fs or a Go type name; Seq may have #n
	n    int
}

func (e *Ex) String() string {
	if e == nil {
		return "_"
	}
	var as []string
	for _, a := range e.a {
		as = append(as, a.String())
	}
	switch e.op {
	case "int":
		return e.n.String()
	case "str":
		return strconv.Quote(e.s)
	case "id":
		return e.s
	case "call":
		return e.s + "(" + strings.Join(as, ", ") + ")"
	case "field":
		return as[0] + "." + e.s
	case "index":
		return as[0] + "[" + as[1] + "]"
	case "slice":
		return as[0] + "[" + as[1] + ":" + as[2] + "]"
	case "un":
		return e.s + as[0]
	case "bin":
		return "(" + as[0] + " " + e.s + " " + as[1] + ")"
	}
	return e.op + "(" + strings.Join(as, ", ") + ")"
}

type parser struct {
	file string
	ts   []tok
	p    int
}

func (p *parser) peek() tok { return p.ts[p.p] }
func (p *parser) next() tok { t := p.ts[p.p]; p.p++; return t }
func (p *parser) fail(f string, a ...interface{}) {
	panic(fmt.Sprintf("%s:%d: %s", p.file, p.peek().line, fmt.Sprintf(f, a...)))
}
func (p *parser) isOp(s string) bool { t := p.peek(); return t.k == "op" && t.s == s }
func (p *parser) isId(s string) bool { t := p.peek(); return t.k == "id" && t.s == s }
func (p *parser) acc(s string) bool {
	if p.isOp(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.acc(s) {
		p.fail("expected %q, have %q", s, p.peek().s)
	}
}
func (p *parser) id() string {
	t := p.next()
	if t.k != "id" {
		p.p--
		p.fail("expected identifier, have %q", t.s)
	}
	return t.s
}

var prec = map[string]int{"<=>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "++": 6, "+": 7, "-": 7, "^": 7, "*": 8, "/": 8, "%": 8}

func (p *parser) expr() *Ex { return p.bin(1) }

func (p *parser) bin(min int) *Ex {
	l := p.unary()
	for {
		t := p.peek()
		pr, ok := prec[t.s]
		if t.k != "op" || !ok || pr < min {
			return l
		}
		p.next()
		var r *Ex
		if t.s == "==>" { // right associative
			r = p.bin(pr)
		} else {
			r = p.bin(pr + 1)
		}
		l = &Ex{op: "bin", s: t.s, a: []*Ex{l, r}, line: t.line}
	}
}

func (p *parser) unary() *Ex {
	t := p.peek()
	if t.k == "op" && (t.s == "!" || t.s == "-") {
		p.next()
		return &Ex{op: "un", s: t.s, a: []*Ex{p.unary()}, line: t.line}
	}
	return p.postfix()
}

func (p *parser) postfix() *Ex {
	e := p.prim()
	for {
		line := p.peek().line
		switch {
		case p.acc("."):
			e = &Ex{op: "field", s: p.id(), a: []*Ex{e}, line: line}
		case p.acc("["):
			if p.acc(":") {
				hi := p.expr()
				p.expect("]")
				e = &Ex{op: "slice", a: []*Ex{e, nil, hi}, line: line}
				continue
			}
			lo := p.expr()
			if p.acc(":") {
				if p.acc("]") {
					e = &Ex{op: "slice", a: []*Ex{e, lo, nil}, line: line}
					continue
				}
				hi := p.expr()
				p.expect("]")
				e = &Ex{op: "slice", a: []*Ex{e, lo, hi}, line: line}
				continue
			}
			p.expect("]")
			e = &Ex{op: "index", a: []*Ex{e, lo}, line: line}
		default:
			return e
		}
	}
}

func (p *parser) params() []param {
	var out []param
	p.expect("(")
	for !p.acc(")") {
		pr := param{name: p.id(), n: -1}
		if p.peek().k == "id" {
			pr.sort = p.id()
			if p.acc("#") {
				pr.n = int(p.next().n.Int64())
			}
		}
		out = append(out, pr)
		p.acc(",")
	}
	return out
}

func (p *parser) prim() *Ex {
	t := p.next()
	switch t.k {
	case "int":
		return &Ex{op: "int", n: t.n, line: t.line}
	case "str":
		return &Ex{op: "str", s: t.s, line: t.line}
	case "op":
		if t.s == "(" {
			e := p.expr()
			p.expect(")")
			return e
		}
		if t.s == "[" { // byte literal
			e := &Ex{op: "lit", line: t.line}
			for !p.acc("]") {
				e.a = append(e.a, p.expr())
				p.acc(",")
			}
			return e
		}
	case "id":
		switch t.s {
		case "if":
			c := p.expr()
			if p.id() != "then" {
				p.fail("expected then")
			}
			a := p.expr()
			if p.id() != "else" {
				p.fail("expected else")
			}
			b := p.expr()
			return &Ex{op: "ite", a: []*Ex{c, a, b}, line: t.line}
		case "let":
			n := p.id()
			p.expect("=")
			v := p.expr()
			if p.id() != "in" {
				p.fail("expected in")
			}
			b := p.expr()
			return &Ex{op: "let", s: n, a: []*Ex{v, b}, line: t.line}
		case "forall":
			vs := p.params()
			var tr []*Ex
			if p.acc("{") {
				for !p.acc("}") {
					tr = append(tr, p.expr())
					p.acc(",")
				}
			}
			p.expect("::")
			return &Ex{op: "forall", vars: vs, a: append([]*Ex{p.expr()}, tr...), line: t.line}
		case "draws": // draws(seed 32, salt 16) :: body
			vs := p.drawParams()
			p.expect("::")
			return &Ex{op: "draws", vars: vs, a: []*Ex{p.expr()}, line: t.line}
		}
		if p.acc("(") {
			e := &Ex{op: "call", s: t.s, line: t.line}
			for !p.acc(")") {
				e.a = append(e.a, p.expr())
				p.acc(",")
			}
			return e
		}
		return &Ex{op: "id", s: t.s, line: t.line}
	}
	p.p--
	p.fail("unexpected %q", t.s)
	return nil
}

func (p *parser) drawParams() []param {
	var out []param
	p.expect("(")
	for !p.acc(")") {
		pr := param{name: p.id(), sort: "Seq"}
		t := p.next()
		if t.k != "int" {
			p.fail("draw length")
		}
		pr.n = int(t.n.Int64())
		out = append(out, pr)
		p.acc(",")
	}
	return out
}

// ---------- declarations ----------

type Clause struct {
	label string
	props []string
	after []string // earlier clauses that may be used to prove this one
	e     *Ex
	file  string
	line  int
	ghost *Ex // for ghost assignments: target
}

type LoopInv struct {
	vars  []param
	e     *Ex
	owner string
	file  string
	line  int
}

type Contract struct {
	name     string
	params   []string
	results  []string
	requires []*Clause
	ensures  []*Clause
	ghosts   []*Clause
	modifies []*Ex
	extern   bool    // assumed, not verified
	why      string  // reason for an assumed contract
	draws    []param // random values the contract speaks about
	cases    []*Ex   // unit is verified once per case
	noerr    bool
	fork     []*Ex // callers split on these
	opaque   []string
	alias    bool
	slow     bool
	inline   bool     // never used at calls
	open     []string // hidden definitions that the proof looks into
	closed   []string // recursive definitions that it does not unfold
	file     string
	line     int
}

type SpecDef struct {
	name   string
	params []param
	ret    param
	body   *Ex
	rec    bool
	hidden bool // opened only in lemmas and in contracts that say so
}

type SpecAxiom struct {
	name     string
	vars     []param
	trigs    []*Ex
	body     *Ex
	lemma    bool
	induct   string // induction variable
	requires []*Ex
	props    []string
	hints    []*Ex
	open     []string
	apply    []*Ex        // instances of earlier lemmas
	rewrite  map[int]bool // those whose equations are used to rewrite the goal
	using    []string     // the inner lemmas its proof uses (all if none is named)
	inner    bool         // used in proofs of lemmas only
	why      string
	file     string
	line     int
}

type Specs struct {
	contracts map[string]*Contract
	order     []string
	defs      map[string]*SpecDef
	ufs       map[string]*SpecDef
	axioms    []*SpecAxiom
	loopinvs  []*LoopInv
	objInv    map[string]*Contract // ghost fields per type: ghostinit
	fields    map[string][]string
}

func (p *parser) props() []string {
	var out []string
	if p.acc("[") {
		for !p.acc("]") {
			out = append(out, p.id())
			p.acc(",")
		}
	}
	return out
}

func (p *parser) clause() *Clause {
	c := &Clause{file: filepath.Base(p.file), line: p.peek().line}
	c.props = p.props()
	next := p.ts[p.p+1]
	if p.peek().k == "id" && (next.k == "op" && next.s == ":" || next.k == "id" && next.s == "after") {
		c.label = p.id()
		for p.isId("after") {
			p.next()
			c.after = append(c.after, p.id())
		}
		p.expect(":")
	} else {
		c.label = fmt.Sprintf("line%d", c.line)
	}
	c.e = p.expr()
	p.acc(";")
	return c
}

// after checks that wherever clause cl is claimed, so is the clause it builds on.
func (p *parser) after(c *Contract, cl *Clause, name string) {
	for _, d := range c.ensures {
		if d.label != name {
			continue
		}
		for _, q := range cl.props {
			if len(d.props) > 0 && !hasProp(d.props, q) {
				p.fail("clause %s builds on %s, which is not labelled %s", cl.label, name, q)
			}
		}
		if len(cl.props) == 0 && len(d.props) > 0 {
			p.fail("clause %s builds on %s, which is not always proved", cl.label, name)
		}
		return
	}
	p.fail("no earlier clause %s", name)
}

func (p *parser) names() []string {
	var out []string
	p.expect("(")
	for !p.acc(")") {
		out = append(out, p.id())
		p.acc(",")
	}
	return out
}

func (p *parser) file_(sp *Specs) {
	for p.peek().k != "eof" {
		line := p.peek().line
		kw := p.id()
		switch kw {
		case "uf":
			d := &SpecDef{name: p.id(), params: p.params()}
			d.ret = p.sortOf()
			if p.acc("[") { // integer range
				lo := p.expr()
				p.expect(",")
				hi := p.expr()
				p.expect("]")
				varRange[d.name] = ivl{constEx(lo), constEx(hi)}
			}
			sp.ufs[d.name] = d
		case "def", "rec", "hidden":
			d := &SpecDef{rec: kw == "rec", hidden: kw == "hidden"}
			if d.hidden && p.isId("rec") {
				p.next()
				d.rec = true
			}
			d.name, d.params = p.id(), p.params()
			d.ret = p.sortOf()
			p.expect("=")
			d.body = p.expr()
			p.acc(";")
			sp.defs[d.name] = d
		case "axiom", "lemma":
			a := &SpecAxiom{name: p.id(), lemma: kw == "lemma", file: filepath.Base(p.file), line: line}
			a.props = p.props()
			if p.isOp("(") {
				a.vars = p.params()
			}
			if p.acc("{") {
				for !p.acc("}") {
					a.trigs = append(a.trigs, p.expr())
					p.acc(",")
				}
			}
			for {
				if p.isId("induction") {
					p.next()
					a.induct = p.id()
				} else if p.isId("hint") {
					p.next()
					a.hints = append(a.hints, p.expr())
				} else if p.isId("open") {
					p.next()
					a.open = append(a.open, p.id())
				} else if p.isId("apply") || p.isId("rewrite") {
					if p.next().s == "rewrite" {
						if a.rewrite == nil {
							a.rewrite = map[int]bool{}
						}
						a.rewrite[len(a.apply)] = true
					}
					a.apply = append(a.apply, p.expr())
				} else if p.isId("using") {
					p.next()
					a.using = append(a.using, p.id())
				} else if p.isId("inner") {
					p.next()
					a.inner = true
				} else if p.isId("why") {
					p.next()
					a.why = p.next().s
				} else {
					break
				}
			}
			p.expect("=")
			a.body = p.expr()
			p.acc(";")
			sp.axioms = append(sp.axioms, a)
		case "loopinv":
			l := &LoopInv{line: line, file: filepath.Base(p.file)}
			l.owner = l.file
			if p.isOp("(") {
				l.vars = p.params()
			}
			l.e = p.expr()
			p.acc(";")
			sp.loopinvs = append(sp.loopinvs, l)
		case "ghostinit":
			c := &Contract{name: p.next().s, file: filepath.Base(p.file), line: line}
			c.params = p.names()
			p.expect("{")
			for !p.acc("}") {
				t := p.postfix()
				p.expect("=")
				c.ghosts = append(c.ghosts, &Clause{ghost: t, e: p.expr()})
				p.acc(";")
			}
			sp.objInv[c.name] = c
		case "func", "extern":
			t := p.next()
			if t.k != "str" {
				p.fail("function name must be a string")
			}
			c := &Contract{name: t.s, extern: kw == "extern", file: filepath.Base(p.file), line: line}
			c.params = p.names()
			if p.isOp("(") {
				c.results = p.names()
			}
			p.expect("{")
			for !p.acc("}") {
				w := p.id()
				switch w {
				case "requires":
					c.requires = append(c.requires, p.clause())
				case "ensures":
					cl := p.clause()
					for _, a := range cl.after {
						p.after(c, cl, a)
					}
					c.ensures = append(c.ensures, cl)
				case "modifies":
					for {
						c.modifies = append(c.modifies, p.postfix())
						if !p.acc(",") {
							break
						}
					}
					p.acc(";")
				case "draws":
					c.draws = p.drawParams()
				case "ghost":
					cl := &Clause{ghost: p.postfix(), line: p.peek().line}
					p.expect("=")
					cl.e = p.expr()
					p.acc(";")
					c.ghosts = append(c.ghosts, cl)
				case "case":
					c.cases = append(c.cases, p.expr())
					p.acc(";")
				case "fork":
					c.fork = append(c.fork, p.expr())
					p.acc(";")
				case "why":
					c.why = p.next().s
				case "noerr":
					c.noerr = true
				case "alias":
					c.alias = true
				case "slow":
					c.slow = true
				case "inline":
					c.inline = true
				case "open":
					c.open = append(c.open, p.id())
				case "close":
					c.closed = append(c.closed, p.id())
				case "opaque":
					c.opaque = append(c.opaque, p.next().s)
				default:
					p.fail("unknown clause %s", w)
				}
			}
			if _, dup := sp.contracts[c.name]; dup {
				p.fail("duplicate contract %s", c.name)
			}
			sp.contracts[c.name] = c
			sp.order = append(sp.order, c.name)
		default:
			p.fail("unknown declaration %s", kw)
		}
	}
}

func (p *parser) sortOf() param {
	pr := param{sort: p.id(), n: -1}
	if p.acc("#") {
		pr.n = int(p.next().n.Int64())
	}
	return pr
}

func constEx(e *Ex) *big.Int {
	switch e.op {
	case "int":
		return e.n
	case "un":
		return new(big.Int).Neg(constEx(e.a[0]))
	}
	panic("constant expected")
}

func loadSpecs(dir string) (sp *Specs, err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(string); ok {
				err = fmt.Errorf("%s", s)
				return
			}
			panic(r)
		}
	}()
	sp = &Specs{contracts: map[string]*Contract{}, defs: map[string]*SpecDef{}, ufs: map[string]*SpecDef{}, objInv: map[string]*Contract{}, fields: map[string][]string{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(fs)
	if len(fs) == 0 {
		return nil, fmt.Errorf("no contracts in %s", dir)
	}
	for _, f := range fs {
		b, e := os.ReadFile(f)
		if e != nil {
			return nil, e
		}
		p := &parser{file: f, ts: lex(f, string(b))}
		p.file_(sp)
	}
	return sp, nil
}

func sortByName(s string) Sort {
	switch s {
	case "Int":
		return SInt
	case "Bool":
		return SBool
	case "Seq":
		return SSeq
	case "Fe":
		return SFe
	case "Fs":
		return SMap
	}
	panic("unknown sort " + s)
}
