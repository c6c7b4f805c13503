package main

import (
	"strings"
)

// tok is a token of a generated program.
type tok struct {
	s    string
	kind byte // i(dentifier or keyword), n(umber), s(tring), r(egexp), p(unctuator)

	// need is set when a program that ends with this token is incomplete;
	// needIn when one that ends within it is.
	need, needIn bool

	// nonl is set when no line terminator may precede the token; asi when a
	// line terminator has to, since it stands for a semicolon.
	nonl, asi bool
}

// gen makes up programs of the subset of the language that is supported.
type gen struct {
	r      *rng
	t      []tok
	left   int // budget of tokens
	must   int // > 0: everything is required
	fn     int
	loop   int
	noin   int
	nobare int
	stmts  []int // index of the token behind each top-level statement
	mod    bool
	uni    bool // identifiers and strings with characters beyond ASCII
	wide   bool // long lists
}

// cnt is how long a list becomes.
func (g *gen) cnt(max int) int {
	if g.wide && g.left > 0 && g.r.p(2) {
		if g.r.p(12) {
			return g.r.n(45)
		}
		return g.r.n(11)
	}
	return g.r.size(max)
}

func (g *gen) emit(t tok) {
	if g.must > 0 {
		t.need, t.needIn = true, true
	}
	g.left--
	g.t = append(g.t, t)
}

func (g *gen) id(s string)   { g.emit(tok{s: s, kind: 'i'}) }
func (g *gen) idn(s string)  { g.emit(tok{s: s, kind: 'i', need: true}) }
func (g *gen) idnn(s string) { g.emit(tok{s: s, kind: 'i', need: true, needIn: true}) }
func (g *gen) p(s string)    { g.emit(tok{s: s, kind: 'p', needIn: true}) }
func (g *gen) pn(s string)   { g.emit(tok{s: s, kind: 'p', need: true, needIn: true}) }

// within emits tokens all of which need what follows.
func (g *gen) within(f func()) {
	g.must++
	f()
	g.must--
}

// inner resets restrictions inside of brackets.
func (g *gen) inner(f func()) {
	noin, nobare := g.noin, g.nobare
	g.noin, g.nobare = 0, 0
	f()
	g.noin, g.nobare = noin, nobare
}

var names = []string{"a", "b", "c", "x", "y", "foo", "bar", "baz", "qux", "$", "_", "$1", "_x", "value", "index", "Foo", "i", "j", "k", "getter", "ofs", "lets", "iff", "inn", "newer", "e", "n"}

// Some of the names are those of other characters when cut down to 16 or 8 bits.
var uninames = []string{"\u0120", "a\u013b", "\u0128b", "\U00020020", "b\U0002003b", "\U0002000a", "\U00020028x", "\U0002007b", "\u0222q", "\u4e2f", "é", "ñandú", "変数", "ключ", "αβγ", "ªb", "a̐b", "x\u200cy", "x\u200dy", "𐐷x", "𝒜", "Ꞌ", "_é", "a٠"}

func (g *gen) name() string {
	if g.uni && g.r.p(3) {
		return uninames[g.r.n(len(uninames))]
	}
	if g.r.p(60) {
		return strings.Repeat(g.r.str("a", "x1", "_", "Zq"), g.r.in(10, 200))
	}
	return names[g.r.n(len(names))]
}

var strChars = []string{"a", "b", " ", "x", "0", "\\n", "\\\\", "\\'", "\\\"", "\\x41", "\\u0041", "/", "*", "//", "/*", "*/", "{", "}", "(", ")", "[", "]", ";", "\\0", "\\t", "+", "use strict", "<", ">", "&", "\t", "\u2028"}
var uniChars = []string{"é", "€", "日本", "𝄞", "😀", "\u00a0", "\ufffd", "\ufeff", "\u2029", "\ue000", "\U0010ffff", "\u0080", "\u07ff", "\u0800", "\uffff"}

func (g *gen) str() string {
	q := g.r.str("'", "\"")
	b := &strings.Builder{}
	b.WriteString(q)
	n := g.r.size(14)
	if g.r.p(80) {
		n = g.r.in(100, 3000)
	}
	for i := 0; i < n; i++ {
		if g.uni && g.r.p(3) {
			b.WriteString(uniChars[g.r.n(len(uniChars))])
			continue
		}
		b.WriteString(strChars[g.r.n(len(strChars))])
	}
	if g.r.p(8) {
		if q == "'" {
			b.WriteString("\"")
		} else {
			b.WriteString("'")
		}
	}
	b.WriteString(q)
	return b.String()
}

var numbers = []string{"0", "1", "2", "42", "1234567890", "3.14", ".5", ".25", "1.5e10", "2.5e-3", "1.0e+2", "0x1F", "0Xff", "0b101", "0o17", "0B1", "0O7", "1_000", "1_2.5", "9007199254740993", "0x1_F", "1.7976931348623157"}

var regexps = []string{"/a/", "/[a-z]+/gi", "/\\//", "/[/\\]]/", "/(?:x|y)*?$/m", "/=a/", "/\\d{1,3}/u", "/[^\\\\/]/y", "/a'b\"c/", "/[[]/", "/\\u0041/s"}

func (g *gen) regexp() string {
	if g.uni && g.r.p(3) {
		return g.r.str("/é[日本]/u", "/€+/", "/[\U0001f600]/")
	}
	return regexps[g.r.n(len(regexps))]
}

// expr makes up an expression. The levels are those of assignment (0),
// conditional (1), binary (2), unary (3), postfix (4), call (5) and member (6)
// expressions. first is set when it is the beginning of a statement.
func (g *gen) assign(first bool) {
	switch {
	case g.left < 0:
		g.primary(first)
	case g.r.p(9):
		g.lvalue()
		g.pn(g.r.str("=", "=", "=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", ">>>=", "&=", "|=", "^=", "**=", "&&=", "||=", "??="))
		g.assign(false)
	case !first && g.r.p(11):
		g.arrow()
	default:
		g.cond(first)
	}
}

func (g *gen) comma(first bool) {
	n := 0
	for g.r.p(12) {
		n++
	}
	for i := 0; i <= n; i++ {
		if i > 0 {
			g.pn(",")
		}
		// An arrow function without parentheses has to be the last one.
		if i < n {
			g.nobare++
		}
		g.assign(first && i == 0)
		if i < n {
			g.nobare--
		}
	}
}

func (g *gen) lvalue() {
	g.id(g.name())
	for g.r.p(3) {
		if g.r.p(2) {
			g.pn(".")
			g.id(g.name())
		} else {
			g.pn("[")
			g.inner(func() { g.assign(false) })
			g.p("]")
		}
	}
}

func (g *gen) cond(first bool) {
	g.binary(first)
	if g.left > 0 && g.r.p(14) {
		g.pn("?")
		g.within(func() { g.assign(false) })
		g.pn(":")
		g.inner(g.simple)
	}
}

// simple makes up an expression that does not contain the in operator outside
// of brackets.
func (g *gen) simple() {
	g.noin++
	g.assign(false)
	g.noin--
}

var binops = []string{"+", "+", "-", "*", "/", "%", "<<", ">>", ">>>", "<", ">", "<=", ">=", "==", "!=", "===", "!==", "&", "^", "|", "&&", "&&", "instanceof", "in"}

func (g *gen) binary(first bool) {
	if g.r.p(40) && g.left > 0 {
		g.post(first)
		g.pn("**")
		g.unary(false)
		return
	}
	g.unary(first)
	or := g.r.str("||", "??")
	for g.left > 0 && g.r.pc(28) {
		op := binops[g.r.n(len(binops))]
		if g.r.p(12) {
			op = or
		}
		if op == "in" && g.noin > 0 {
			op = "<"
		}
		if op == "in" || op == "instanceof" {
			g.idn(op)
		} else {
			g.pn(op)
		}
		g.unary(false)
	}
}

func (g *gen) unary(first bool) {
	if g.left > 0 && g.r.p(9) {
		switch g.r.n(8) {
		case 0:
			g.idn("typeof")
		case 1:
			g.idn("void")
		case 2:
			g.idn("delete")
		case 3, 4:
			g.pn(g.r.str("++", "--"))
			g.lvalue()
			return
		default:
			g.pn(g.r.str("+", "-", "!", "~"))
		}
		g.unary(false)
		return
	}
	g.post(first)
}

func (g *gen) post(first bool) {
	if g.r.p(16) {
		g.lvalue()
		g.emit(tok{s: g.r.str("++", "--"), kind: 'p', needIn: true, nonl: true})
		return
	}
	g.call(first)
}

func (g *gen) call(first bool) {
	g.primary(first)
	for g.left > 0 && g.r.pc(25) {
		switch g.r.n(3) {
		case 0:
			g.pn(".")
			if g.r.p(5) {
				g.id(g.r.str("new", "class", "default", "in", "typeof", "if", "static", "let", "catch"))
			} else {
				g.id(g.name())
			}
		case 1:
			g.pn("[")
			g.inner(func() { g.assign(false) })
			g.p("]")
		default:
			g.args()
		}
	}
}

func (g *gen) args() {
	g.pn("(")
	g.inner(func() {
		for i, n := 0, g.cnt(4); i < n; i++ {
			if i > 0 {
				g.pn(",")
			}
			if g.r.p(8) {
				g.pn("...")
			}
			g.assign(false)
		}
	})
	g.p(")")
}

func (g *gen) primary(first bool) {
	n := 15
	if g.left < 0 {
		n = 7
	}
	k := g.r.n(n)
	if first && k >= 11 {
		k = g.r.n(11)
	}
	switch k {
	case 0, 1, 2:
		g.id(g.name())
	case 3:
		g.emit(tok{s: numbers[g.r.n(len(numbers))], kind: 'n'})
	case 4:
		g.emit(tok{s: g.str(), kind: 's', needIn: true})
	case 5:
		g.id(g.r.str("this", "null", "true", "false"))
	case 6:
		g.emit(tok{s: g.regexp(), kind: 'r', needIn: true})
	case 7:
		g.pn("(")
		g.inner(func() { g.comma(false) })
		g.p(")")
	case 8:
		g.array()
	case 9:
		g.idn("new")
		g.id(g.name())
		for g.r.p(4) {
			g.pn(".")
			g.id(g.name())
		}
		if g.r.pc(80) {
			g.args()
		}
	case 10:
		if g.r.p(3) {
			// A call of a function that is named like a keyword.
			g.id("async")
			g.pn("(")
			g.inner(func() {
				if g.r.p(2) {
					g.comma(false)
				}
			})
			g.p(")")
			return
		}
		g.id(g.name())
	case 11, 12:
		g.object()
	case 13:
		g.idn("function")
		if g.r.p(2) {
			g.idnn(g.name())
		}
		if g.r.p(8) {
			g.pn("*")
		}
		g.params(true)
		g.body()
	case 14:
		g.idn("class")
		if g.r.p(2) {
			g.idnn(g.name())
		}
		g.classTail()
	}
}

func (g *gen) array() {
	g.pn("[")
	g.inner(func() {
		for i, n := 0, g.cnt(5); i < n; i++ {
			if g.r.p(10) {
				g.pn(",")
				continue
			}
			g.assign(false)
			g.pn(",")
		}
		if g.r.p(2) {
			g.assign(false)
		}
	})
	g.p("]")
}

func (g *gen) propName() {
	switch g.r.n(8) {
	case 0:
		g.emit(tok{s: g.str(), kind: 's', needIn: true})
	case 1:
		g.emit(tok{s: numbers[g.r.n(len(numbers))], kind: 'n'})
	case 2:
		g.pn("[")
		g.inner(func() { g.assign(false) })
		g.p("]")
	case 3:
		g.id(g.r.str("if", "new", "default", "class", "in", "get", "set", "async", "static", "of", "let"))
	default:
		g.id(g.name())
	}
}

func (g *gen) object() {
	g.pn("{")
	g.inner(func() {
		n := g.cnt(4)
		for i := 0; i < n; i++ {
			switch g.r.n(9) {
			case 0:
				g.id(g.name())
			case 1:
				g.propName()
				g.params(true)
				g.body()
			case 2:
				g.id("get")
				g.propName()
				g.pn("(")
				g.pn(")")
				g.body()
			case 3:
				g.id("set")
				g.propName()
				g.pn("(")
				g.id(g.name())
				g.pn(")")
				g.body()
			case 4:
				switch g.r.n(3) {
				case 0:
					g.id("async")
				case 1:
					g.pn("*")
				default:
					g.id("async")
					g.pn("*")
				}
				g.propName()
				g.params(true)
				g.body()
			default:
				g.propName()
				g.pn(":")
				g.assign(false)
			}
			if i < n-1 || g.r.p(3) {
				g.pn(",")
			}
		}
	})
	g.p("}")
}

// pattern makes up a binding. If required is set, it needs what follows.
func (g *gen) binding(depth int) {
	switch {
	case depth > 0 && g.r.p(6):
		g.pn("[")
		for i, n := 0, g.cnt(3); i < n; i++ {
			if g.r.p(8) {
				g.pn(",")
				continue
			}
			g.binding(depth - 1)
			g.deflt()
			g.pn(",")
		}
		switch g.r.n(3) {
		case 0:
			g.pn("...")
			g.binding(depth - 1)
		case 1:
			g.binding(depth - 1)
		}
		g.p("]")
	case depth > 0 && g.r.p(6):
		g.pn("{")
		n := g.cnt(3)
		for i := 0; i < n; i++ {
			g.id(g.name())
			if g.r.p(3) {
				g.pn(":")
				g.binding(depth - 1)
			}
			g.deflt()
			if i < n-1 || g.r.p(3) {
				g.pn(",")
			}
		}
		if n == 0 && g.r.p(3) {
			g.pn("...")
			g.id(g.name())
		}
		g.p("}")
	default:
		g.id(g.name())
	}
}

func (g *gen) deflt() {
	if g.r.p(5) {
		g.pn("=")
		g.inner(func() { g.assign(false) })
	}
}

func (g *gen) params(body bool) {
	g.pn("(")
	g.inner(func() {
		n := g.cnt(3)
		for i := 0; i < n; i++ {
			if i == n-1 && (g.r.p(6) || g.wide && g.r.p(3)) {
				g.pn("...")
				g.id(g.name())
				break
			}
			g.binding(2)
			g.deflt()
			if i < n-1 || g.r.p(6) {
				g.pn(",")
			}
		}
	})
	if body {
		g.pn(")")
	} else {
		g.p(")")
	}
}

func (g *gen) body() {
	fn, loop := g.fn, g.loop
	g.fn, g.loop = 1, 0
	g.block()
	g.fn, g.loop = fn, loop
}

func (g *gen) block() {
	g.pn("{")
	g.inner(func() { g.list() })
	g.p("}")
}

// list makes up the statements of a block.
func (g *gen) list() {
	n := g.cnt(4)
	if g.left < 0 {
		n = g.r.n(2)
	}
	for i := 0; i < n; i++ {
		g.stmt(i == n-1)
	}
}

func (g *gen) arrow() {
	async := g.r.p(5)
	if async {
		g.id("async")
	}
	arrow := func() { g.emit(tok{s: "=>", kind: 'p', need: true, needIn: true, nonl: true}) }
	kind := g.r.n(3)
	if g.nobare > 0 {
		kind = 1
	}
	switch kind {
	case 0:
		if async {
			g.emit(tok{s: g.name(), kind: 'i', need: true, needIn: true, nonl: true})
		} else {
			g.id(g.name())
		}
		arrow()
	default:
		g.emit(tok{s: "(", kind: 'p', need: true, nonl: async})
		only := true
		plain := 0
		g.inner(func() {
			n := g.cnt(3)
			if g.r.p(6) {
				n = 0
			}
			for i := 0; i < n; i++ {
				if i > 0 {
					g.pn(",")
				}
				switch {
				case i == n-1 && (g.r.p(5) || g.wide && g.r.p(3)):
					g.pn("...")
					g.id(g.name())
				case g.r.p(5):
					g.pn("{")
					for j, m := 0, g.r.in(1, 3); j < m; j++ {
						g.id(g.name())
						if g.r.p(3) {
							g.pn(":")
							g.id(g.name())
						}
						g.deflt()
						if j < m-1 {
							g.pn(",")
						}
					}
					g.p("}")
				case g.r.p(5):
					g.pn("[")
					for j, m := 0, g.r.in(1, 3); j < m; j++ {
						g.id(g.name())
						if j < m-1 {
							g.pn(",")
						}
					}
					if g.r.p(3) {
						g.pn(",")
						g.pn("...")
						g.id(g.name())
					}
					g.p("]")
				default:
					g.id(g.name())
					g.deflt()
					plain++
				}
			}
			only = n == 0
		})
		// Whether the list is also an expression is not always clear here;
		// only an empty one certainly is not (but it may be a call).
		if only && !async {
			g.pn(")")
		} else {
			g.p(")")
		}
		arrow()
	}
	if g.r.p(2) {
		g.body()
	} else {
		g.cond(true)
	}
}

func (g *gen) classTail() {
	if g.r.p(3) {
		g.within(func() {
			g.idn("extends")
			g.id(g.name())
			if g.r.p(4) {
				g.pn(".")
				g.id(g.name())
			}
		})
	}
	g.pn("{")
	g.inner(func() {
		for i, n := 0, g.cnt(3); i < n; i++ {
			if g.r.p(5) {
				g.id("static")
			}
			switch g.r.n(6) {
			case 0:
				g.id("get")
			case 1:
				g.id("set")
			}
			if g.r.p(6) {
				g.pn("[")
				g.inner(func() { g.assign(false) })
				g.p("]")
			} else {
				g.id(g.name())
			}
			g.params(true)
			g.body()
		}
	})
	g.p("}")
}

// end ends a statement with a semicolon, or leaves that to the end of the block
// if it is the last one, or to a line terminator.
func (g *gen) end(last bool) {
	switch {
	case last && g.r.p(3):
	default:
		g.p(";")
	}
}

func (g *gen) declarators(needInit bool) {
	for i := 0; ; i++ {
		if !needInit && g.r.pc(80) {
			g.id(g.name())
			if g.r.pc(70) {
				g.pn("=")
				g.assign(false)
			}
		} else {
			if needInit {
				g.within(func() { g.binding(2) })
			} else {
				from := len(g.t)
				g.binding(2)
				if len(g.t) > from+1 {
					// A pattern needs an initializer.
					g.t[len(g.t)-1].need = true
				}
			}
			g.pn("=")
			g.assign(false)
		}
		if !g.r.p(4) {
			break
		}
		g.pn(",")
	}
}

// sub makes up a statement that is part of another one.
func (g *gen) sub() {
	switch g.r.n(4) {
	case 0, 1:
		g.block()
	case 2:
		g.comma(true)
		g.p(";")
	default:
		if g.left < 0 {
			g.p(";")
			return
		}
		g.stmtOf(g.r.n(9), false)
	}
}

// stmt makes up a statement or declaration.
func (g *gen) stmt(last bool) {
	if g.left < 0 {
		g.stmtOf(0, last)
		return
	}
	g.stmtOf(g.r.n(24), last)
}

func (g *gen) stmtOf(k int, last bool) {
	switch k {
	case 0, 1:
		g.comma(true)
		g.end(last)
	case 2:
		g.idn("if")
		g.pn("(")
		g.inner(func() { g.comma(false) })
		g.pn(")")
		if g.r.p(2) {
			g.block()
		} else {
			g.comma(true)
			g.p(";")
		}
		if g.r.p(2) {
			g.idn("else")
			g.sub()
		}
	case 3:
		g.idn("for")
		g.pn("(")
		switch g.r.n(3) {
		case 0:
			if g.r.p(2) {
				if g.r.p(2) {
					g.idn("var")
					g.id(g.name())
					g.pn("=")
					g.noin++
					g.assign(false)
					g.noin--
				} else {
					g.noin++
					g.comma(false)
					g.noin--
				}
			}
			g.pn(";")
			if g.r.p(2) {
				g.comma(false)
			}
			g.pn(";")
			if g.r.p(2) {
				g.comma(false)
			}
		default:
			if g.r.p(2) {
				g.idn("var")
			}
			g.id(g.name())
			g.idn(g.r.str("in", "of"))
			g.assign(false)
		}
		g.pn(")")
		g.loop++
		g.sub()
		g.loop--
	case 4:
		g.idn("while")
		g.pn("(")
		g.inner(func() { g.comma(false) })
		g.pn(")")
		g.loop++
		g.sub()
		g.loop--
	case 5:
		g.emit(tok{s: "do", kind: 'i', need: true})
		g.loop++
		g.within(func() { g.sub(); g.id("while") })
		g.loop--
		g.pn("(")
		g.inner(func() { g.comma(false) })
		g.p(")")
		g.p(";")
	case 6:
		g.block()
	case 7:
		g.p(";")
	case 8:
		switch {
		case g.fn > 0:
			g.id("return")
			if g.r.pc(80) {
				from := len(g.t)
				g.comma(false)
				g.t[from].nonl = true
			}
			g.end(last)
		case g.loop > 0:
			g.id(g.r.str("break", "continue"))
			g.p(";")
		default:
			g.emit(tok{s: "throw", kind: 'i', need: true})
			from := len(g.t)
			g.comma(false)
			g.t[from].nonl = true
			g.end(last)
		}
	case 9, 10:
		g.idn("var")
		g.declarators(false)
		g.end(last)
	case 11, 12:
		g.id("let")
		g.declarators(false)
		g.end(last)
	case 13:
		g.idn("const")
		g.declarators(true)
		g.end(last)
	case 14, 15:
		g.idn("function")
		g.idnn(g.name())
		g.params(true)
		g.body()
	case 16:
		g.idn("class")
		g.idnn(g.name())
		g.classTail()
	case 17:
		g.idn("try")
		if g.r.p(2) {
			g.within(func() {
				g.block()
				g.id("finally")
			})
			g.block()
			return
		}
		g.within(func() {
			g.block()
			g.id("catch")
			if g.r.pc(70) {
				g.pn("(")
				g.binding(2)
				g.pn(")")
			}
		})
		g.block()
		if g.r.p(3) {
			g.idn("finally")
			g.block()
		}
	case 18:
		g.idn("switch")
		g.pn("(")
		g.inner(func() { g.comma(false) })
		g.pn(")")
		g.pn("{")
		g.loop++
		dflt := false
		for i, n := 0, g.cnt(4); i < n; i++ {
			if !dflt && g.r.p(4) {
				dflt = true
				g.id("default")
			} else {
				g.id("case")
				g.inner(func() { g.simple() })
			}
			g.pn(":")
			for g.r.p(2) && g.left > 0 {
				g.stmt(false)
			}
			if g.r.p(2) {
				g.id("break")
				g.p(";")
			}
		}
		g.loop--
		g.p("}")
	case 19:
		g.id(g.name())
		g.pn(":")
		g.sub()
	case 20:
		g.emit(tok{s: "throw", kind: 'i', need: true})
		from := len(g.t)
		g.comma(false)
		g.t[from].nonl = true
		g.end(last)
	case 21:
		if g.mod && g.fn == 0 && g.loop == 0 {
			g.comma(true)
			g.end(last)
			return
		}
		g.emit(tok{s: g.r.str("'use strict'", "\"use strict\"", "'use asm'"), kind: 's', needIn: true})
		g.p(";")
	default:
		g.comma(true)
		g.end(last)
	}
}

func (g *gen) importDecl() {
	g.idn("import")
	g.within(func() {
		switch g.r.n(5) {
		case 0:
		case 1:
			g.id(g.name())
			g.id("from")
		case 2:
			g.p("*")
			g.id("as")
			g.id(g.name())
			g.id("from")
		default:
			if g.r.p(3) {
				g.id(g.name())
				g.p(",")
			}
			g.p("{")
			n := g.cnt(3)
			for i := 0; i < n; i++ {
				g.id(g.name())
				if g.r.p(3) {
					g.id("as")
					g.id(g.name())
				}
				if i < n-1 || g.r.p(3) {
					g.p(",")
				}
			}
			g.p("}")
			g.id("from")
		}
	})
	g.emit(tok{s: g.r.str("\"mod\"", "'./a.js'", "\"é\""), kind: 's', needIn: true})
	g.p(";")
}

// Prog is a generated program.
type Prog struct {
	Mode string
	Text []byte
	toks []tok
	at   []span // of the tokens
	triv []trivia
	ends []int // index of the last token of each top-level statement
}

type span struct{ from, to int }

type trivia struct {
	span
	kind byte // w(hite space), b(lock comment), l(ine comment)
}

// program makes up a program with about the given number of tokens.
func program(r *rng, mode string, size int) *Prog {
	g := &gen{r: r, left: size, mod: mode == "module", uni: r.p(2), wide: r.p(5)}
	p := &Prog{Mode: mode}
	if mode == "expression" {
		g.comma(false)
		p.ends = []int{len(g.t) - 1}
	} else {
		for len(g.t) == 0 || g.left > 0 {
			from := len(g.t)
			asi := from > 0 && p.asiable(g.t) && r.p(6)
			if g.mod && r.p(4) {
				g.importDecl()
			} else {
				g.stmt(false)
			}
			if asi && g.t[from].kind == 'i' && g.t[from].s != "in" && g.t[from].s != "instanceof" && g.t[from].s != "async" {
				// The line terminator takes the place of the semicolon.
				copy(g.t[from-1:], g.t[from:])
				g.t = g.t[:len(g.t)-1]
				p.ends[len(p.ends)-1]--
				g.t[from-1].asi = true
			}
			p.ends = append(p.ends, len(g.t)-1)
		}
		if last := len(g.t) - 1; last > 0 && p.asiable(g.t) && r.p(4) {
			g.t = g.t[:last]
			p.ends[len(p.ends)-1]--
		}
	}
	p.toks = g.t
	p.layout(r, g.uni)
	return p
}

// asiable reports whether the last token is a semicolon that may be left to
// automatic insertion.
func (p *Prog) asiable(t []tok) bool {
	n := len(t)
	if n < 2 || t[n-1].s != ";" || t[n-1].kind != 'p' {
		return false
	}
	q := t[n-2]
	// Not where the semicolon is a statement of its own, or the header of one.
	if q.need || q.s == ";" || q.s == "}" || q.s == "{" || q.s == ":" || q.s == "else" || q.s == "async" || q.s == "let" || q.s == "break" || q.s == "continue" || q.s == "return" {
		return false
	}
	if q.s == ")" {
		// It may belong to the head of a statement, whose body the semicolon
		// is, or to do/while.
		return false
	}
	return true
}

func joins(a, b tok) bool {
	word := func(k byte) bool { return k == 'i' || k == 'n' || k == 'r' }
	switch {
	case word(a.kind) && word(b.kind):
		return b.kind != 'r' || a.kind == 'n'
	case a.kind == 'n' && b.kind == 'p' && b.s[0] == '.':
		return true
	case a.kind == 'p' && b.kind == 'n' && b.s[0] == '.':
		return true
	case a.kind == 'p' && b.kind == 'r', a.kind == 'r' && b.kind == 'p':
		return strings.ContainsAny(a.s[:1]+b.s[:1], "/<*")
	case a.kind == 'p' && b.kind == 'p':
		closed := "(){}[];,~:"
		if strings.Contains(closed, a.s) || strings.Contains(closed, b.s) {
			return false
		}
		return true
	}
	return false
}

var spaces = []string{" ", " ", " ", " ", "\t", "\v", "\f", "\u00a0", "\ufeff", "\u2003", "\u3000"}
var newlines = []string{"\n", "\n", "\n", "\r\n", "\r\n", "\r", "\u2028", "\u2029"}
var comments = []string{"", " comment ", "x", " ' ", " \" ", " // ", " { ( [ ", " é € 😀 ", " } ", " \u00a0 ", " ; ", " \ufffd "}

// layout writes the tokens down, with trivia between them.
func (p *Prog) layout(r *rng, uni bool) {
	style := r.n(4) // 0: minimal, 1: spaces, 2: lines, 3: wild
	var b []byte
	add := func(kind byte, s string) {
		p.triv = append(p.triv, trivia{span{len(b), len(b) + len(s)}, kind})
		b = append(b, s...)
	}
	slash := false // the last token ends with a slash
	sep := func(force, nonl, asi bool) {
		if asi {
			for r.p(4) {
				add('w', " ")
			}
			add('w', newlines[r.n(len(newlines))])
			for r.p(4) {
				add('w', spaces[r.n(len(spaces))])
			}
			return
		}
		n := 0
		switch style {
		case 0:
			if force {
				n = 1
			}
		case 1:
			n = 1
		case 2:
			n = 1 + r.n(2)
		default:
			n = r.n(4)
			if force {
				n++
			}
		}
		for i := 0; i < n; i++ {
			k := 0
			if style >= 2 {
				k = r.n(8)
			}
			if style == 3 && r.p(6) {
				k = 8 + r.n(2)
			}
			if i == 0 && slash && k >= 8 {
				add('w', " ")
			}
			switch {
			case k == 9 && !nonl:
				add('l', "//"+strings.ReplaceAll(comments[r.n(len(comments))], "*", "")+newlines[r.n(len(newlines))])
			case k == 8 || k == 9:
				c := comments[r.n(len(comments))]
				if !nonl && r.p(3) {
					c += newlines[r.n(len(newlines))] + " "
				}
				add('b', "/*"+c+"*/")
			case k >= 5 && !nonl:
				add('w', newlines[r.n(len(newlines))])
			default:
				if style == 3 {
					add('w', spaces[r.n(len(spaces))])
				} else {
					add('w', " ")
				}
			}
		}
	}
	if r.p(8) {
		sep(false, false, false)
	}
	for i, t := range p.toks {
		if i > 0 {
			sep(joins(p.toks[i-1], t), t.nonl, t.asi)
		}
		p.at = append(p.at, span{len(b), len(b) + len(t.s)})
		b = append(b, t.s...)
		slash = strings.HasSuffix(t.s, "/")
	}
	if r.p(2) {
		sep(false, false, false)
	}
	p.Text = b
}

// Cut classes.
const (
	cutUnknown  = ""
	cutBracket  = "inside brackets"
	cutString   = "inside a string"
	cutRegExp   = "inside a regular expression"
	cutComment  = "inside a comment"
	cutOperator = "inside an operator"
	cutNumber   = "inside a number"
	cutNeed     = "where a part is missing"
	cutBoundary = "between statements"
)

// tornNumber reports whether what is left of a number is none.
func tornNumber(s string) bool {
	switch l := s[len(s)-1]; l {
	case '_':
		return true
	case 'x', 'X', 'b', 'B', 'o', 'O':
		return len(s) == 2
	case '+', '-', 'e', 'E':
		return strings.Contains(s, ".")
	}
	return false
}

// cut says what is cut off when the program is cut at a byte offset. For
// boundaries it returns the number of statements before the cut.
func (p *Prog) cut(off int) (string, int) {
	depth := 0
	inComment := false
	for _, tr := range p.triv {
		if tr.kind != 'w' && off > tr.from && off < tr.to {
			if tr.kind == 'b' || off == tr.from+1 {
				inComment = true
			}
		}
	}
	last := -1
	for i, a := range p.at {
		if a.from >= off {
			break
		}
		t := p.toks[i]
		if a.to > off {
			// Within this token.
			switch {
			case depth > 0:
				return cutBracket, 0
			case t.kind == 's':
				return cutString, 0
			case t.kind == 'r':
				end := strings.LastIndexByte(t.s, '/')
				if off <= a.from+end {
					return cutRegExp, 0
				}
				return cutUnknown, 0
			case t.kind == 'p':
				return cutOperator, 0
			case t.needIn:
				return cutNeed, 0
			case t.kind == 'n' && tornNumber(t.s[:off-a.from]):
				return cutNumber, 0
			}
			return cutUnknown, 0
		}
		if t.kind == 'p' {
			switch t.s {
			case "(", "[", "{":
				depth++
			case ")", "]", "}":
				depth--
			}
		}
		last = i
	}
	if inComment && (p.Mode != "expression" || depth > 0 || last < 0 || p.toks[last].need) {
		return cutComment, 0
	}
	if inComment {
		// The comment may be behind an expression that is complete.
		return cutUnknown, 0
	}
	if depth > 0 {
		return cutBracket, 0
	}
	if last < 0 {
		return cutBoundary, 0
	}
	if p.toks[last].need {
		return cutNeed, 0
	}
	for k, e := range p.ends {
		if e == last && p.Mode != "expression" {
			return cutBoundary, k + 1
		}
	}
	return cutUnknown, 0
}
