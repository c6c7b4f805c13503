package main

// wild makes up sources that keep to the shape of the grammar but not to its
// rules: any expression may stand where a name, a pattern, a parameter or a
// key belongs, and some tokens are missing or doubled.
type wild struct {
	r    *rng
	b    []byte
	left int
	odd  int // one in odd tokens is disturbed; 0 for none
}

func wildText(r *rng, size int) []byte {
	w := &wild{r: r, left: size}
	if r.p(3) {
		w.odd = r.in(5, 60)
	}
	for n := 0; n == 0 || n < 4 && w.left > 0 && r.p(2); n++ {
		w.stmt()
		if r.p(2) {
			w.t(r.str("\n", ";"))
		}
	}
	return w.b
}

func (w *wild) t(s ...string) {
	for _, s := range s {
		w.left--
		if w.odd > 0 && w.r.p(w.odd) {
			switch w.r.n(3) {
			case 0:
				continue
			case 1:
				w.put(s)
			case 2:
				s = soupTokens[w.r.n(len(soupTokens))]
			}
		}
		w.put(s)
	}
}

func (w *wild) put(s string) {
	if len(w.b) > 0 && (s != "(" || w.r.p(4)) {
		w.b = append(w.b, ' ')
	}
	w.b = append(w.b, s...)
}

func (w *wild) name() string {
	if w.r.p(8) {
		return w.r.str("await", "yield", "async", "let", "of", "get", "set", "static", "arguments", "eval", "as", "from", "new", "this", "super", "null", "if", "function")
	}
	return w.r.str("a", "b", "c", "d")
}

// commas makes up a list with commas between its elements.
func (w *wild) commas(max int, f func()) {
	n := w.r.size(max)
	for i := 0; i < n; i++ {
		if i > 0 {
			w.t(",")
		}
		f()
	}
	if n > 0 && w.r.p(6) {
		w.t(",")
	}
}

// item is what may stand in a list: an element, an argument, a parameter.
func (w *wild) item() {
	if w.r.p(7) {
		w.t("...")
	}
	w.expr()
	if w.r.p(3) {
		w.t("=")
		w.expr()
	}
}

func (w *wild) key() {
	switch w.r.n(9) {
	case 0:
		w.t("'k'")
	case 1:
		w.t("1")
	case 2:
		w.t("[")
		w.expr()
		w.t("]")
	case 3:
		w.t("#p")
	default:
		w.t(w.name())
	}
}

func (w *wild) property() {
	for w.r.p(5) {
		w.t(w.r.str("get", "set", "async", "*", "static"))
	}
	if w.r.p(7) {
		w.t("...")
		w.expr()
		return
	}
	w.key()
	switch w.r.n(7) {
	case 0:
		w.params()
		w.block()
	case 1:
	case 2:
		w.t("=")
		w.expr()
	default:
		w.t(":")
		w.expr()
		if w.r.p(3) {
			w.t("=")
			w.expr()
		}
	}
}

func (w *wild) object() {
	w.t("{")
	w.commas(4, w.property)
	w.t("}")
}

func (w *wild) array() {
	w.t("[")
	w.commas(4, func() {
		if !w.r.p(8) {
			w.item()
		}
	})
	w.t("]")
}

func (w *wild) params() {
	w.t("(")
	w.commas(4, w.item)
	w.t(")")
}

func (w *wild) block() {
	w.t("{")
	for w.left > 0 && w.r.p(2) {
		w.stmt()
		if w.r.p(2) {
			w.t(";")
		}
	}
	w.t("}")
}

var wildBinary = []string{"+", "-", "*", "/", "**", "<", ">=", "==", "!==", "<<", ">>>", "&", "|", "^", "&&", "||", "??", "in", "instanceof", ",", "%"}

func (w *wild) expr() {
	if w.left <= 0 {
		w.t(w.r.str("a", "b", "1", "this", "'s'"))
		return
	}
	switch w.r.n(26) {
	default:
		w.t(w.name())
	case 1:
		w.t(w.r.str("0", "1", "'s'", "\"t\"", "null", "true", "/r/g", "`t`", "1n", "1.5", "0x1f"))
	case 2, 3:
		w.object()
	case 4, 5:
		w.array()
	case 6, 7:
		w.t("(")
		w.commas(3, w.item)
		w.t(")")
	case 8, 9, 10:
		if w.r.p(4) {
			w.t("async")
		}
		if w.r.p(5) {
			w.expr()
		} else {
			w.params()
		}
		w.t("=>")
		if w.r.p(2) {
			w.block()
		} else {
			w.expr()
		}
	case 11, 12:
		w.expr()
		w.t(".")
		w.t(w.r.str("a", "b", "if", "#p", "target", "1"))
	case 13:
		w.expr()
		w.t("[")
		w.expr()
		w.t("]")
	case 14, 15:
		w.expr()
		w.params()
	case 16, 17:
		w.expr()
		w.t(w.r.str("=", "=", "=", "+=", "&&=", "**=", ">>>="))
		w.expr()
	case 18:
		w.expr()
		w.t(wildBinary[w.r.n(len(wildBinary))])
		w.expr()
	case 19:
		w.t(w.r.str("!", "-", "+", "~", "typeof", "void", "delete", "++", "--", "await", "yield", "yield *", "...", "new"))
		w.expr()
	case 20:
		w.expr()
		w.t(w.r.str("++", "--", "?.", "!"))
	case 21:
		w.expr()
		w.t("?")
		w.expr()
		w.t(":")
		w.expr()
	case 22:
		w.function()
	case 23:
		w.class()
	case 24:
		w.t(w.r.str("new", "super", "import", "new . target", "import . meta", "this"))
		if w.r.p(2) {
			w.params()
		}
	}
}

func (w *wild) function() {
	if w.r.p(5) {
		w.t("async")
	}
	w.t("function")
	if w.r.p(5) {
		w.t("*")
	}
	if w.r.p(2) {
		w.t(w.name())
	}
	w.params()
	w.block()
}

func (w *wild) class() {
	w.t("class")
	if w.r.p(2) {
		w.t(w.name())
	}
	if w.r.p(3) {
		w.t("extends")
		w.expr()
	}
	w.t("{")
	for n := w.r.size(4); n > 0; n-- {
		w.property()
		if w.r.p(3) {
			w.t(";")
		}
	}
	w.t("}")
}

func (w *wild) declaration() {
	w.t(w.r.str("var", "let", "const"))
	w.commas(3, w.item)
}

// in makes up what stands in the parentheses of a statement.
func (w *wild) head() {
	w.t("(")
	if !w.r.p(10) {
		w.expr()
	}
	w.t(")")
}

func (w *wild) stmt() {
	if w.left <= 0 {
		w.t("a", ";")
		return
	}
	switch w.r.n(22) {
	default:
		w.expr()
	case 0:
		w.block()
	case 1, 2:
		w.declaration()
	case 3:
		w.t("if")
		w.head()
		w.stmt()
		if w.r.p(2) {
			w.t("else")
			w.stmt()
		}
	case 4, 5:
		w.t("for")
		if w.r.p(8) {
			w.t("await")
		}
		w.t("(")
		switch w.r.n(5) {
		case 0:
		case 1, 2:
			w.declaration()
		default:
			w.expr()
		}
		if w.r.p(2) {
			w.t(w.r.str("in", "of"))
			w.expr()
		} else {
			for i := 0; i < 2; i++ {
				w.t(";")
				if w.r.p(2) {
					w.expr()
				}
			}
		}
		w.t(")")
		w.stmt()
	case 6:
		w.t("while")
		w.head()
		w.stmt()
	case 7:
		w.t("do")
		w.stmt()
		w.t("while")
		w.head()
	case 8:
		w.t("switch")
		w.head()
		w.t("{")
		for w.left > 0 && w.r.p(2) {
			if w.r.p(3) {
				w.t("default", ":")
			} else {
				w.t("case")
				w.expr()
				w.t(":")
			}
			for w.r.p(2) {
				w.stmt()
			}
		}
		w.t("}")
	case 9, 10:
		w.t("try")
		w.block()
		if !w.r.p(4) {
			w.t("catch")
			if !w.r.p(4) {
				w.head()
			}
			w.block()
		}
		if w.r.p(3) {
			w.t("finally")
			w.block()
		}
	case 11:
		w.t(w.r.str("return", "throw", "break", "continue", "debugger"))
		if w.r.p(2) {
			w.expr()
		}
	case 12:
		w.function()
	case 13:
		w.class()
	case 14:
		w.t(w.name(), ":")
		w.stmt()
	case 15:
		w.t("import")
		switch w.r.n(5) {
		case 0:
			w.params()
		case 1:
			w.t("'m'")
		default:
			w.commas(2, func() {
				switch w.r.n(4) {
				case 0:
					w.t("*", "as")
					w.expr()
				case 1:
					w.t("{")
					w.commas(3, func() {
						w.expr()
						if w.r.p(2) {
							w.t("as")
							w.expr()
						}
					})
					w.t("}")
				default:
					w.expr()
				}
			})
			w.t("from", w.r.str("'m'", "a", "1"))
		}
	case 16:
		w.t("export")
		if w.r.p(3) {
			w.t(w.r.str("default", "*"))
		}
		w.stmt()
	}
}

// cover makes up a small source out of what is an expression or a pattern
// depending on what follows: literals and parentheses that may hold rest
// elements and default values, in arrow functions and in places where they are
// not patterns after all. Most of it is well-formed token by token.
func cover(r *rng) []byte {
	var b []byte
	t := func(s ...string) {
		for _, s := range s {
			b = append(b, s...)
		}
	}
	left := r.in(3, 14)
	var item func()
	value := func() { item() }
	list := func(elem func(), close string) {
		for n := r.size(3); n > 0; n-- {
			elem()
			if n > 1 || r.p(8) {
				t(",")
			}
		}
		if r.p(4) {
			if len(b) > 0 && b[len(b)-1] != ',' && b[len(b)-1] != '[' && b[len(b)-1] != '{' && b[len(b)-1] != '(' {
				t(",")
			}
			t("...")
			if r.p(6) {
				item()
			} else {
				t(r.str("a", "b", "c"))
			}
		}
		t(close)
	}
	paren := func() {
		if r.p(3) {
			t("async")
		}
		t("(")
		list(item, ")")
		switch r.n(10) {
		case 0, 1, 2, 3:
			t("=>0")
		case 4:
			t("=>{}")
		case 5:
			t("=>")
			item()
		}
	}
	property := func() {
		switch r.n(8) {
		case 0:
			t(r.str("a", "b"))
		case 1:
			t(r.str("a", "b"), "(){}")
		case 2:
			t("[")
			item()
			t("]:")
			item()
		case 3, 4:
			t(r.str("a", "b"), "=")
			value()
		default:
			t(r.str("a", "b"), ":")
			item()
		}
	}
	item = func() {
		left--
		if left <= 0 {
			t(r.str("a", "b", "1"))
			return
		}
		switch r.n(9) {
		case 0, 1:
			t(r.str("a", "b", "c", "async", "1"))
		case 2, 3, 4:
			t("[")
			list(item, "]")
		case 5, 6:
			t("{")
			list(property, "}")
		default:
			paren()
		}
		switch r.n(12) {
		case 0, 1, 2:
			t("=")
			value()
		case 3:
			t(".x")
		case 4:
			t("(")
			list(item, ")")
		case 5:
			t(r.str("+1", "=>0", "++", "[0]", "?1:2", "+=1", " in b"))
		}
	}
	t(r.str("", "", "", "x=", "f(", "[", "({k:", "(", "x=>", "for(", "var x=", "if(", "function f(", "var [x]=", "async x=>"))
	n := len(b)
	paren()
	switch r.n(8) {
	case 0:
		t(".x")
	case 1:
		t("=c")
	case 2:
		t(",")
		item()
	case 3:
		t("(")
		list(item, ")")
	}
	switch string(b[:n]) {
	case "f(", "(":
		t(")")
	case "[":
		t("]")
	case "({k:":
		t("})")
	case "for(":
		t(r.str(" of b);", " in b);", ";;);"))
	case "if(":
		t(");")
	case "function f(":
		t("){}")
	}
	return b
}
