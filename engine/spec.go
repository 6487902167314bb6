package main

// Specification language: lexer, parser.

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"strings"
	"unicode"
)

type Node struct {
	k   string // int str id op call field index slice forall exists ite old
	s   string
	n   *big.Int
	a   []*Node
	vs  []specVar
	pos string
}

type specVar struct{ name, typ string }

func (n *Node) String() string {
	if n == nil {
		return "<nil>"
	}
	switch n.k {
	case "int":
		return n.n.String()
	case "str":
		return fmt.Sprintf("%q", n.s)
	case "id":
		return n.s
	case "un":
		return n.s + n.a[0].String()
	case "bin":
		return "(" + n.a[0].String() + " " + n.s + " " + n.a[1].String() + ")"
	case "field":
		return n.a[0].String() + "." + n.s
	case "index":
		return n.a[0].String() + "[" + n.a[1].String() + "]"
	case "slice":
		return n.a[0].String() + "[" + n.a[1].String() + ":" + n.a[2].String() + "]"
	case "call":
		var p []string
		for _, x := range n.a {
			p = append(p, x.String())
		}
		return n.s + "(" + strings.Join(p, ", ") + ")"
	case "forall", "exists":
		var p []string
		for _, v := range n.vs {
			p = append(p, strings.TrimSpace(v.name+" "+v.typ))
		}
		return "(" + n.k + " " + strings.Join(p, ", ") + " :: " + n.a[0].String() + ")"
	case "ite":
		return "(" + n.a[0].String() + " ? " + n.a[1].String() + " : " + n.a[2].String() + ")"
	}
	return "?" + n.k
}

type Clause struct {
	label string
	e     *Node
}

type setC struct {
	loc  *Node
	val  *Node
	cond *Node
}

type Contract struct {
	name       string
	params     []string
	results    []string
	req        []Clause
	ens        []Clause
	mods       []*Node
	modStar    bool
	fresh      []string
	mayPanic   bool
	panics     []*Node
	onpanic    []Clause
	sets       []setC
	loopinv    []*Node
	verifyOnly bool
	extern     bool
	from       string
	ghosts     []specVar
	noReturn   bool
	optional   bool
	pos        string
	file       string
	assumeSafe bool
	frameOff   bool
	native     bool
	merge      bool
	goExplore  bool
	trusted    string
	inlines    []string
	splits     []*Node
	maxPaths   int
	deadOK     bool
	locals     map[string]*ghostDecl // definitional functions of the arguments, one instance per call
	defines    []*Node
}

type Stmt struct {
	k     string // assert assume set snap havoc if
	label string
	e     *Node
	loc   *Node
	args  []*Node
	body  []*Stmt
	els   []*Stmt
	pos   string
}

type Hook struct {
	event  string
	params []string
	body   []*Stmt
	pos    string
}

type ghostDecl struct {
	name   string
	params []string
	kind   string
}

type defDecl struct {
	name   string
	params []string
	body   *Node
}

type SpecSet struct {
	ghosts    map[string]*ghostDecl
	ufuncs    map[string]*ghostDecl
	defs      map[string]*defDecl
	axioms    []*Node
	contracts map[string]*Contract
	order     []string
	hooks     map[string][]*Hook
	stable    map[string]bool
	globalInv []Clause
	loopinv   []*Node
	goMode    map[string]bool
	files     map[string]bool
	assume    []string
	accesses  []string
	loaded    []string
	immut     []string
	consts    map[string]bool
	required  []string
}

func newSpecSet() *SpecSet {
	return &SpecSet{ghosts: map[string]*ghostDecl{}, ufuncs: map[string]*ghostDecl{}, defs: map[string]*defDecl{}, contracts: map[string]*Contract{},
		hooks: map[string][]*Hook{}, stable: map[string]bool{}, goMode: map[string]bool{}, files: map[string]bool{}, consts: map[string]bool{}}
}

type tok struct {
	k   string // id int str op eof
	s   string
	pos string
}

type parser struct {
	toks []tok
	i    int
	file string
	dir  string
	set  *SpecSet
	main bool
}

func lexSpec(src, file string) []tok {
	var r []tok
	line := 1
	i := 0
	for i < len(src) {
		c := src[i]
		p := fmt.Sprintf("%s:%d", file, line)
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "//"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case unicode.IsLetter(rune(c)) || c == '_' || c == '$':
			j := i + 1
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_') {
				j++
			}
			r = append(r, tok{"id", src[i:j], p})
			i = j
		case unicode.IsDigit(rune(c)):
			j := i
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j]))) {
				j++
			}
			r = append(r, tok{"int", src[i:j], p})
			i = j
		case c == '"':
			j := i + 1
			for src[j] != '"' {
				j++
			}
			r = append(r, tok{"str", src[i+1 : j], p})
			i = j + 1
		default:
			ops := []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", "->", "++"}
			m := ""
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					m = o
					break
				}
			}
			if m == "" {
				m = string(c)
			}
			r = append(r, tok{"op", m, p})
			i += len(m)
		}
	}
	return append(r, tok{"eof", "", file})
}

func (p *parser) peek() tok { return p.toks[p.i] }
func (p *parser) next() tok { t := p.toks[p.i]; p.i++; return t }
func (p *parser) is(s string) bool {
	t := p.peek()
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) fail(f string, a ...interface{}) {
	panic(fmt.Sprintf("%s: %s (at %q)", p.peek().pos, fmt.Sprintf(f, a...), p.peek().s))
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q", s)
	}
}
func (p *parser) ident() string {
	t := p.next()
	if t.k != "id" {
		p.i--
		p.fail("identifier expected")
	}
	return t.s
}
func (p *parser) label() string {
	r := ""
	for !p.is("]") {
		if p.peek().k == "eof" {
			p.fail("label not closed")
		}
		if r != "" {
			r += " "
		}
		r += p.next().s
	}
	p.next()
	return r
}
func (p *parser) str() string {
	t := p.next()
	if t.k != "str" {
		p.i--
		p.fail("string expected")
	}
	return t.s
}

var binPrec = map[string]int{"<==>": 2, "==>": 3, "||": 4, "&&": 5, "==": 6, "!=": 6, "<": 6, "<=": 6, ">": 6, ">=": 6, "in": 6, "is": 6, "as": 9, "+": 7, "-": 7, "*": 8, "/": 8, "%": 8, "++": 7}

func (p *parser) expr() *Node { return p.tern() }
func (p *parser) tern() *Node {
	c := p.bin(1)
	if p.is("?") {
		pos := p.next().pos
		x := p.tern()
		p.expect(":")
		y := p.tern()
		return &Node{k: "ite", a: []*Node{c, x, y}, pos: pos}
	}
	return c
}
func (p *parser) bin(min int) *Node {
	l := p.unary()
	for {
		t := p.peek()
		if t.k != "op" && t.k != "id" {
			return l
		}
		pr, ok := binPrec[t.s]
		if !ok || pr < min {
			return l
		}
		p.next()
		if t.s == "is" || t.s == "as" {
			l = &Node{k: t.s, s: p.str(), a: []*Node{l}, pos: t.pos}
			continue
		}
		var r *Node
		if t.s == "==>" {
			r = p.bin(pr)
		} else {
			r = p.bin(pr + 1)
		}
		l = &Node{k: "bin", s: t.s, a: []*Node{l, r}, pos: t.pos}
	}
}
func (p *parser) unary() *Node {
	t := p.peek()
	if t.k == "op" && (t.s == "!" || t.s == "-" || t.s == "*") {
		p.next()
		return &Node{k: "un", s: t.s, a: []*Node{p.unary()}, pos: t.pos}
	}
	return p.postfix()
}
func (p *parser) postfix() *Node {
	t := p.next()
	var x *Node
	switch {
	case t.k == "int":
		n, ok := new(big.Int).SetString(t.s, 0)
		if !ok {
			p.fail("bad number %s", t.s)
		}
		x = &Node{k: "int", n: n, pos: t.pos}
	case t.k == "str":
		x = &Node{k: "str", s: t.s, pos: t.pos}
	case t.k == "op" && t.s == "(":
		x = p.expr()
		p.expect(")")
	case t.k == "id" && (t.s == "forall" || t.s == "exists"):
		x = &Node{k: t.s, pos: t.pos}
		for {
			v := specVar{name: p.ident()}
			if p.peek().k == "str" {
				v.typ = p.str()
			} else if p.peek().k == "id" {
				v.typ = p.ident()
			}
			x.vs = append(x.vs, v)
			if !p.accept(",") {
				break
			}
		}
		p.expect("::")
		x.a = []*Node{p.tern()}
		return x
	case t.k == "id":
		if p.is("(") {
			p.next()
			x = &Node{k: "call", s: t.s, pos: t.pos}
			for !p.is(")") {
				x.a = append(x.a, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
		} else {
			x = &Node{k: "id", s: t.s, pos: t.pos}
		}
	default:
		p.i--
		p.fail("expression expected")
	}
	for {
		switch {
		case p.is("."):
			p.next()
			if p.accept("*") {
				x = &Node{k: "field", s: "*", a: []*Node{x}, pos: t.pos}
			} else {
				x = &Node{k: "field", s: p.ident(), a: []*Node{x}, pos: t.pos}
			}
		case p.is("["):
			p.next()
			i := p.expr()
			if p.accept(":") {
				j := p.expr()
				p.expect("]")
				x = &Node{k: "slice", a: []*Node{x, i, j}, pos: t.pos}
			} else {
				p.expect("]")
				x = &Node{k: "index", a: []*Node{x, i}, pos: t.pos}
			}
		default:
			return x
		}
	}
}

func (p *parser) params() []string {
	var r []string
	p.expect("(")
	for !p.is(")") {
		r = append(r, p.ident())
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	return r
}

func (p *parser) kind() string {
	if p.accept(":") {
		if p.peek().k == "str" {
			return p.str()
		}
		return p.ident()
	}
	return "int"
}

func (p *parser) stmts() []*Stmt {
	p.expect("{")
	var r []*Stmt
	for !p.accept("}") {
		r = append(r, p.stmt())
	}
	return r
}
func (p *parser) stmt() *Stmt {
	t := p.next()
	s := &Stmt{k: t.s, pos: t.pos}
	switch t.s {
	case "assert", "assume":
		if p.accept("[") {
			s.label = p.label()
		}
		s.e = p.expr()
	case "set":
		s.loc = p.postfix()
		p.expect("=")
		s.e = p.expr()
	case "snap":
		s.label = p.ident()
	case "havoc":
		s.loc = p.expr()
	case "stop":
	case "run":
		s.e = p.expr()
		for p.accept(",") {
			s.args = append(s.args, p.expr())
		}
	case "if":
		s.e = p.expr()
		s.body = p.stmts()
		if p.accept("else") {
			if p.is("if") {
				s.els = []*Stmt{p.stmt()}
			} else {
				s.els = p.stmts()
			}
		}
		return s
	default:
		p.i--
		p.fail("statement expected")
	}
	p.expect(";")
	return s
}

func (p *parser) contract(c *Contract) {
	p.expect("{")
	for !p.accept("}") {
		t := p.next()
		switch t.s {
		case "requires":
			c.req = append(c.req, p.clause())
		case "ensures":
			c.ens = append(c.ens, p.clause())
		case "onpanic":
			c.onpanic = append(c.onpanic, p.clause())
			c.mayPanic = true
		case "modifies":
			for {
				if n := p.toks[p.i+1]; p.is("*") && n.k == "op" && (n.s == ";" || n.s == ",") {
					p.next()
					c.modStar = true
				} else {
					c.mods = append(c.mods, p.expr())
				}
				if !p.accept(",") {
					break
				}
			}
		case "fresh":
			for {
				c.fresh = append(c.fresh, p.ident())
				if !p.accept(",") {
					break
				}
			}
		case "maypanic":
			c.mayPanic = true
		case "panics":
			c.panics = append(c.panics, p.expr())
		case "sets":
			s := setC{loc: p.postfix()}
			p.expect("=")
			s.val = p.expr()
			if p.accept("if") {
				s.cond = p.expr()
			}
			c.sets = append(c.sets, s)
		case "loopinv":
			c.loopinv = append(c.loopinv, p.expr())
		case "loopinv2":
			// candidates for loops the code does not have today: only tried with -late
			if x := p.expr(); lateInv {
				c.loopinv = append(c.loopinv, x)
			}
		case "split":
			c.splits = append(c.splits, p.expr())
		case "verifyonly":
			c.verifyOnly = true
		case "noreturn":
			c.noReturn = true
		case "optional":
			c.optional = true
		case "native":
			c.native = true
		case "merge":
			c.merge = true
		case "frameoff":
			c.frameOff = true
		case "diverges":
			c.deadOK = true
		case "goroutines":
			c.goExplore = true
		case "local":
			g := &ghostDecl{name: p.ident(), params: p.params()}
			g.kind = p.kind()
			if c.locals == nil {
				c.locals = map[string]*ghostDecl{}
			}
			c.locals[g.name] = g
		case "define":
			c.defines = append(c.defines, p.expr())
		case "ghost":
			v := specVar{name: p.ident()}
			v.typ = p.kind()
			c.ghosts = append(c.ghosts, v)
		default:
			p.i--
			p.fail("contract clause expected")
		}
		p.expect(";")
	}
}
func (p *parser) clause() Clause {
	var c Clause
	if p.accept("[") {
		c.label = p.label()
	}
	c.e = p.expr()
	return c
}

func (set *SpecSet) load(path string, mainFile bool) {
	abs, _ := filepath.Abs(path)
	if set.files[abs] {
		return
	}
	set.files[abs] = true
	src, err := os.ReadFile(path)
	if err != nil {
		panic(err.Error())
	}
	set.loaded = append(set.loaded, filepath.Base(path))
	p := &parser{toks: lexSpec(string(src), filepath.Base(path)), file: filepath.Base(path), dir: filepath.Dir(path), set: set, main: mainFile}
	for p.peek().k != "eof" {
		p.item()
	}
}

func (p *parser) item() {
	set := p.set
	t := p.next()
	switch t.s {
	case "use":
		set.load(filepath.Join(p.dir, p.str()), false)
		p.expect(";")
	case "ghost":
		g := &ghostDecl{name: p.ident()}
		if p.is("(") {
			g.params = p.params()
		}
		g.kind = p.kind()
		set.ghosts[g.name] = g
		p.expect(";")
	case "ufunc":
		g := &ghostDecl{name: p.ident()}
		if p.is("(") {
			g.params = p.params()
		}
		g.kind = p.kind()
		set.ufuncs[g.name] = g
		p.expect(";")
	case "def":
		d := &defDecl{name: p.ident()}
		if p.is("(") {
			d.params = p.params()
		}
		p.expect("=")
		d.body = p.expr()
		set.defs[d.name] = d
		p.expect(";")
	case "axiom":
		set.axioms = append(set.axioms, p.expr())
		p.expect(";")
	case "globalinv":
		set.globalInv = append(set.globalInv, p.clause())
		p.expect(";")
	case "loopinv":
		set.loopinv = append(set.loopinv, p.expr())
		p.expect(";")
	case "assumption":
		set.assume = append(set.assume, p.str())
		p.expect(";")
	case "accesses":
		// every function of the package that touches this field is executed by some function under contract
		for {
			set.accesses = append(set.accesses, p.str())
			if !p.accept(",") {
				break
			}
		}
		p.expect(";")
	case "stable":
		for {
			if p.accept("ghost") {
				set.stable["gh:"+p.ident()] = true
			} else {
				set.stable[p.str()] = true
			}
			if !p.accept(",") {
				break
			}
		}
		p.expect(";")
	case "extern", "func", "from", "trusted":
		c := &Contract{pos: t.pos, file: p.file}
		switch t.s {
		case "extern":
			c.extern = true
		case "from":
			c.from = p.ident()
		case "trusted":
			c.trusted = p.str()
		}
		c.name = p.str()
		c.params = p.params()
		if p.accept("->") {
			c.results = p.params()
		}
		p.contract(c)
		if o, dup := set.contracts[c.name]; dup && !(o.file != c.file) {
			panic(t.pos + ": duplicate contract for " + c.name)
		}
		if _, ok := set.contracts[c.name]; !ok {
			set.order = append(set.order, c.name)
		} else if !p.main {
			return // the main file overrides
		}
		set.contracts[c.name] = c
	case "inline":
		delete(set.contracts, p.str())
		p.expect(";")
	case "on":
		var hs []*Hook
		for {
			h := &Hook{pos: t.pos, event: p.str()}
			h.params = p.params()
			hs = append(hs, h)
			if !p.accept(",") {
				break
			}
		}
		body := p.stmts()
		for _, h := range hs {
			h.body = body
			set.hooks[h.event] = append(set.hooks[h.event], h)
		}
	default:
		p.i--
		p.fail("declaration expected")
	}
}

var lateInv bool
