package main

import (
	"bytes"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode/utf8"
)

var libs [][]byte
var libsLoaded bool

// corpus returns the libraries that the repository's own tests parse.
func corpus() [][]byte {
	if !libsLoaded {
		libsLoaded = true
		names, _ := filepath.Glob(filepath.Join(*flagRepo, "ecmascript", "parser", "testdata", "*.js"))
		sort.Strings(names)
		for _, n := range names {
			if b, err := os.ReadFile(n); err == nil && len(b) > 0 {
				libs = append(libs, b)
			}
		}
	}
	return libs
}

// window returns a part of a library, cut at characters.
func window(r *rng, max int) []byte {
	l := corpus()
	if len(l) == 0 {
		return program(r, "script", 200).Text
	}
	b := l[r.n(len(l))]
	n := r.in(1, max)
	if n > len(b) {
		n = len(b)
	}
	from := r.n(len(b) - n + 1)
	if r.p(3) {
		from = 0
	}
	to := from + n
	for from > 0 && from < len(b) && !utf8.RuneStart(b[from]) {
		from--
	}
	for to < len(b) && !utf8.RuneStart(b[to]) {
		to++
	}
	return append([]byte{}, b[from:to]...)
}

var soupTokens = []string{
	"await", "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "enum", "export", "extends", "finally", "for", "function", "if", "import", "in", "instanceof", "new", "return", "super", "switch", "this", "throw", "try", "typeof", "var", "void", "while", "with", "yield", "let", "static", "async", "of", "get", "set", "null", "true", "false", "implements", "package", "as", "from", "target", "meta", "constructor", "eval", "arguments", "undefined",
	"{", "}", "(", ")", "[", "]", ".", "...", ";", ",", "<", ">", "<=", ">=", "==", "!=", "===", "!==", "+", "-", "*", "/", "%", "**", "++", "--", "<<", ">>", ">>>", "&", "|", "^", "!", "~", "&&", "||", "??", "?", "?.", ":", "=", "+=", "-=", "*=", "%=", "/=", "**=", "<<=", ">>=", ">>>=", "&=", "|=", "^=", "&&=", "||=", "??=", "=>", "#", "@", "`", "\\", "#x", "`a`", "`${", "}`",
	"0", "1", "00", "01", "08", "0.", "0.5", ".5", "5.", "1e3", "1e", "1e+", "1e-5", "0x", "0xg", "0x1", "0b", "0b2", "0b1", "0o", "0o8", "0o7", "1n", "0x1n", "1_0", "1__0", "1_", "_1", "0_1", "1.e5", "1._5", "1.5_", "9e999", "0xffffffffffffffffffff", "1a",
	"'a'", "\"b\"", "'", "\"", "'\\", "'\\x'", "'\\u{1F600}'", "'\\u12'", "'\\\n'", "'use strict'", "/a/", "/", "/[/]/g", "/(/", "/\\", "/a/gg", "//", "/*", "*/", "/**/", "/***/", "<!--", "-->", "#!",
	"a", "b", "x", "$", "_", "é", "変数", "\u200c", "\ufeff", "\u2028", "\u2029", "\n", "\r", "\r\n", "\t", "\v", "\f", "\u00a0", "\u180e", "\x00", "\x01", "\x7f", "\ufffd", "😀", "\u0301", "a\u0301", "\\u0061", "\\u{61}", "\\u",
	"=>{}", "(a)=>", "async()=>", "async x=>", "async function", "function*", "new.target", "import.meta", "import(", "super.", "super(", "...a", "[a]", "{a}", "{a:1}", "({a=1})", "[...a]", "{...a}", "for(", "for await(", "for(let a of b)", "for(var a in b)", "if(a)", "while(a)", "do;while(0)", "switch(a){", "case 1:", "default:", "try{}", "catch(e){}", "finally{}", "class A{", "class A extends B{", "static{", "get a(){}", "set a(b){}", "constructor(){}", "a(){}", "*a(){}", "async a(){}", "a=1;", "#a;", "label:", "export default", "export *", "import a from 'b'", "import {a as b} from 'c'", "import * as a from 'b'", "var a=", "let [a]=", "const {a}=", "let a", "throw a", "return a", "yield a", "yield*a", "await a", "delete a", "typeof a", "void 0", "a?b:c", "a??b", "a?.b", "a?.[b]", "a?.()", "a**b", "-a**b", "a||b??c",
}

// soup strings tokens together.
func soup(r *rng, max int) []byte {
	var b []byte
	n := r.size(max)
	sep := r.n(4)
	sub := soupTokens
	if r.p(2) {
		// Only a few different ones.
		sub = nil
		for i, k := 0, r.in(2, 10); i < k; i++ {
			sub = append(sub, soupTokens[r.n(len(soupTokens))])
		}
	}
	for i := 0; i < n; i++ {
		b = append(b, sub[r.n(len(sub))]...)
		switch sep {
		case 0:
			b = append(b, ' ')
		case 1:
			if r.p(2) {
				b = append(b, ' ')
			}
		case 2:
			b = append(b, newlines[r.n(len(newlines))]...)
		}
	}
	return b
}

// mutate changes a program token by token.
func mutate(r *rng, p *Prog) []byte {
	type piece struct{ tok, after []byte }
	var l []piece
	for i, a := range p.at {
		end := len(p.Text)
		if i+1 < len(p.at) {
			end = p.at[i+1].from
		}
		l = append(l, piece{p.Text[a.from:a.to], p.Text[a.to:end]})
	}
	other := func() []byte {
		if r.p(2) && len(l) > 0 {
			return l[r.n(len(l))].tok
		}
		return []byte(soupTokens[r.n(len(soupTokens))])
	}
	for k := r.in(1, 4); k > 0 && len(l) > 0; k-- {
		i := r.n(len(l))
		switch r.n(7) {
		case 0:
			l = append(l[:i:i], l[i+1:]...)
		case 1:
			l[i].tok = other()
		case 2:
			l = append(l[:i:i], append([]piece{{other(), []byte(" ")}}, l[i:]...)...)
		case 3:
			j := r.n(len(l))
			l[i], l[j] = l[j], l[i]
		case 4:
			// Lose a block.
			j := i + r.in(1, 10)
			if j > len(l) {
				j = len(l)
			}
			l = append(l[:i:i], l[j:]...)
		case 5:
			// Repeat a block.
			j := i + r.in(1, 10)
			if j > len(l) {
				j = len(l)
			}
			l = append(l[:j:j], append(append([]piece{}, l[i:j]...), l[j:]...)...)
		case 6:
			// Move a block.
			j := i + r.in(1, 10)
			if j > len(l) {
				j = len(l)
			}
			b := append([]piece{}, l[i:j]...)
			l = append(l[:i:i], l[j:]...)
			at := r.n(len(l) + 1)
			l = append(l[:at:at], append(b, l[at:]...)...)
		}
	}
	var b []byte
	for _, q := range l {
		b = append(append(b, q.tok...), q.after...)
	}
	return b
}

var badBytes = []string{"\x80", "\xbf", "\xc0\x80", "\xc1\xbf", "\xc3", "\xe0\x80\x80", "\xe2\x82", "\xe2", "\xed\xa0\x80", "\xed\xbf\xbf", "\xf0\x9f\x98", "\xf0\x80\x80\x80", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xfe", "\xff", "\xff\xfe", "\xc3\x28", "\xa0\xa1", "\xf8\x88\x80\x80\x80"}

// damage does to a text what unreliable media do.
func damage(r *rng, text []byte) []byte {
	b := append([]byte{}, text...)
	for k := r.in(1, 3); k > 0; k-- {
		n := len(b)
		if n == 0 {
			return b
		}
		at := r.n(n)
		size := r.in(1, 1+n/4)
		if r.p(2) {
			size = r.in(1, 8)
		}
		end := at + size
		if end > n {
			end = n
		}
		switch r.n(9) {
		case 0: // torn
			b = b[:at]
		case 1: // flipped bits
			for i := r.in(1, 4); i > 0; i-- {
				b[r.n(n)] ^= 1 << uint(r.n(8))
			}
		case 2: // lost block
			b = append(b[:at:at], b[end:]...)
		case 3: // repeated block
			b = append(b[:end:end], b[at:]...)
		case 4: // reordered blocks
			at2 := r.n(n)
			c := append([]byte{}, b[at:end]...)
			b = append(b[:at:at], b[end:]...)
			if at2 > len(b) {
				at2 = len(b)
			}
			b = append(b[:at2:at2], append(c, b[at2:]...)...)
		case 5: // overwritten
			for i := at; i < end && i < at+16; i++ {
				b[i] = byte(r.n(128))
			}
		case 6: // a block of zeros
			for i := at; i < end; i++ {
				b[i] = 0
			}
		case 7: // undecodable bytes
			b = append(b[:at:at], append([]byte(badBytes[r.n(len(badBytes))]), b[at:]...)...)
		case 8: // text from elsewhere
			b = append(b[:at:at], append([]byte(soupTokens[r.n(len(soupTokens))]), b[at:]...)...)
		}
	}
	return b
}

// anyText makes up a text of any kind. valid is set when it has to be valid
// UTF-8.
func anyText(r *rng, mode string, size int, valid bool) ([]byte, string) {
	var b []byte
	kind := ""
	if r.p(60) {
		t := nests[nestNames[r.n(len(nestNames))]](r.in(2, 20+2*size))
		return []byte(t), "nested"
	}
	switch r.n(12) {
	case 0, 1, 2:
		b, kind = program(r, mode, r.in(1, size)).Text, "program"
	case 3, 4, 5:
		b, kind = mutate(r, program(r, mode, r.in(1, size))), "mutated program"
	case 6, 7, 8:
		b, kind = damage(r, program(r, mode, r.in(1, size)).Text), "damaged program"
	case 9:
		switch r.n(4) {
		case 0, 1:
			b, kind = wildText(r, r.in(1, size)), "wild"
		case 2:
			b, kind = cover(r), "cover"
		case 3:
			if r.p(2) {
				for n := r.in(1, 5); n > 0; n-- {
					b = append(append(b, menuItem(r)...), r.str("\n", "\n", " ", ";\n")...)
				}
				kind = "menu"
			}
		}
		if b != nil {
			break
		}
		b, kind = soup(r, size), "tokens"
	case 10:
		b, kind = window(r, size*20), "part of a library"
	case 11:
		b, kind = damage(r, window(r, size*20)), "damaged part of a library"
	}
	if r.p(60) {
		b = odd(r, b)
	}
	if valid && !utf8.Valid(b) {
		b = []byte(strings.ToValidUTF8(string(b), "?"))
	}
	return b, kind
}

func anyMode(r *rng) string {
	return r.str("script", "script", "script", "module", "expression")
}

// nests are sources whose depth is given.
var nests = map[string]func(n int) string{
	"sums":           func(n int) string { return "a" + strings.Repeat("+a", n) },
	"calls":          func(n int) string { return "a" + strings.Repeat("()", n) },
	"members":        func(n int) string { return "a" + strings.Repeat(".b", n) },
	"indexes":        func(n int) string { return "a" + strings.Repeat("[0]", n) },
	"nested indexes": func(n int) string { return strings.Repeat("a[", n) + "0" + strings.Repeat("]", n) },
	"parens":         func(n int) string { return strings.Repeat("(", n) + "a" + strings.Repeat(")", n) },
	"arrays":         func(n int) string { return strings.Repeat("[", n) + strings.Repeat("]", n) },
	"objects":        func(n int) string { return "a=" + strings.Repeat("{a:", n) + "1" + strings.Repeat("}", n) },
	"blocks":         func(n int) string { return strings.Repeat("{", n) + strings.Repeat("}", n) },
	"functions": func(n int) string {
		return "a=" + strings.Repeat("function(){return ", n) + "1" + strings.Repeat("}", n)
	},
	"declarations": func(n int) string { return strings.Repeat("function f(){", n) + strings.Repeat("}", n) },
	"unary":        func(n int) string { return strings.Repeat("!", n) + "a" },
	"typeofs":      func(n int) string { return strings.Repeat("typeof ", n) + "a" },
	"prefix":       func(n int) string { return strings.Repeat("- ", n) + "a" },
	"assignments":  func(n int) string { return strings.Repeat("a=", n) + "a" },
	"methods":      func(n int) string { return "a=" + strings.Repeat("{a(){return ", n) + "1" + strings.Repeat("}}", n) },
	"classes": func(n int) string {
		return "a=" + strings.Repeat("class{a(){return ", n) + "1" + strings.Repeat("}}", n)
	},
	"class decls": func(n int) string { return strings.Repeat("class A{a(){", n) + strings.Repeat("}}", n) },
	"heritage": func(n int) string {
		return "a=" + strings.Repeat("class extends (", n) + "b" + strings.Repeat("){}", n)
	},
	"ifs":              func(n int) string { return strings.Repeat("if(a)", n) + "a" },
	"elses":            func(n int) string { return strings.Repeat("if(a)a;else ", n) + "a" },
	"array patterns":   func(n int) string { return "var " + strings.Repeat("[", n) + "a" + strings.Repeat("]", n) + "=a" },
	"object patterns":  func(n int) string { return "var " + strings.Repeat("{a:", n) + "b" + strings.Repeat("}", n) + "=a" },
	"switches":         func(n int) string { return strings.Repeat("switch(a){case 1:", n) + strings.Repeat("}", n) },
	"arrows":           func(n int) string { return strings.Repeat("a=>", n) + "a" },
	"arrows in parens": func(n int) string { return strings.Repeat("(a)=>", n) + "a" },
	"arrow bodies":     func(n int) string { return strings.Repeat("a=>{", n) + strings.Repeat("}", n) },
	"async arrows":     func(n int) string { return strings.Repeat("async a=>", n) + "a" },
	"async calls":      func(n int) string { return strings.Repeat("async(", n) + strings.Repeat(")", n) },
	"conditionals":     func(n int) string { return strings.Repeat("a?b:", n) + "c" },
	"conditions":       func(n int) string { return strings.Repeat("a?", n) + "b" + strings.Repeat(":c", n) },
	"powers":           func(n int) string { return "a" + strings.Repeat("**a", n) },
	"ands":             func(n int) string { return "a" + strings.Repeat("&&a", n) },
	"coalescing":       func(n int) string { return "a" + strings.Repeat("??a", n) },
	"commas":           func(n int) string { return "a" + strings.Repeat(",a", n) },
	"arguments":        func(n int) string { return strings.Repeat("f(", n) + strings.Repeat(")", n) },
	"many arguments":   func(n int) string { return "f(" + strings.Repeat("a,", n) + "a)" },
	"news":             func(n int) string { return strings.Repeat("new ", n) + "a" },
	"new calls":        func(n int) string { return strings.Repeat("new a(", n) + strings.Repeat(")", n) },
	"tries":            func(n int) string { return strings.Repeat("try{", n) + strings.Repeat("}finally{}", n) },
	"catches":          func(n int) string { return strings.Repeat("try{}catch(e){", n) + strings.Repeat("}", n) },
	"defaults": func(n int) string {
		return "function f(" + strings.Repeat("a=(b=", n) + "1" + strings.Repeat(")", n) + "){}"
	},
	"parameters":        func(n int) string { return strings.Repeat("function f(a=function(){", n) + strings.Repeat("}){}", n) },
	"labels":            func(n int) string { return strings.Repeat("a:", n) + ";" },
	"keys":              func(n int) string { return "a=" + strings.Repeat("{[", n) + "1" + strings.Repeat("]:1}", n) },
	"fors":              func(n int) string { return strings.Repeat("for(;;)", n) + ";" },
	"for ins":           func(n int) string { return strings.Repeat("for(a in b)", n) + ";" },
	"whiles":            func(n int) string { return strings.Repeat("while(a)", n) + ";" },
	"dos":               func(n int) string { return strings.Repeat("do ", n) + ";" + strings.Repeat("while(a)", n) },
	"statements":        func(n int) string { return strings.Repeat("a;", n) },
	"empty statements":  func(n int) string { return strings.Repeat(";", n) },
	"lines":             func(n int) string { return strings.Repeat("a\n", n) },
	"blank lines":       func(n int) string { return strings.Repeat("\n", n) + "a" },
	"spaces":            func(n int) string { return strings.Repeat(" ", n) + "a" },
	"comments":          func(n int) string { return strings.Repeat("/**/", n) + "a" },
	"line comments":     func(n int) string { return strings.Repeat("//\n", n) + "a" },
	"long comment":      func(n int) string { return "/*" + strings.Repeat(" ", n) + "*/a" },
	"long identifier":   func(n int) string { return strings.Repeat("a", n+1) },
	"long string":       func(n int) string { return "'" + strings.Repeat("a", n) + "'" },
	"long number":       func(n int) string { return strings.Repeat("1", n+1) },
	"long hex":          func(n int) string { return "0x" + strings.Repeat("f", n+1) },
	"long regexp":       func(n int) string { return "/" + strings.Repeat("a", n+1) + "/" },
	"long line comment": func(n int) string { return "a//" + strings.Repeat("a", n) },
	"long flags":        func(n int) string { return "/a/" + strings.Repeat("g", n) },
	"long private name": func(n int) string { return "#" + strings.Repeat("a", n+1) },
	"long binary":       func(n int) string { return "0b" + strings.Repeat("10", n+1) },
	"long octal":        func(n int) string { return "0o" + strings.Repeat("1_7", n+1) },
	"long fraction":     func(n int) string { return "1." + strings.Repeat("5", n+1) },
	"long exponent":     func(n int) string { return "1.5e+" + strings.Repeat("0", n+1) },
	"long escapes":      func(n int) string { return "'" + strings.Repeat("\\n", n) + "'" },
	"long escapes 2":    func(n int) string { return "/" + strings.Repeat("\\/", n+1) + "[" + strings.Repeat("\\]", n) + "]/" },
	"stars":             func(n int) string { return "/*" + strings.Repeat("* ", n) + "*/a" },
	"long class":        func(n int) string { return "/[" + strings.Repeat("[", n+1) + "]/" },
	"declarators":       func(n int) string { return "var a" + strings.Repeat(",a", n) },
	"elements":          func(n int) string { return "[" + strings.Repeat(",", n) + "]" },
	"properties":        func(n int) string { return "a={" + strings.Repeat("a,", n) + "}" },
	"cases":             func(n int) string { return "switch(a){" + strings.Repeat("case 1:", n) + "}" },
	"class members":     func(n int) string { return "class A{" + strings.Repeat("a(){}", n) + "}" },
	"increments":        func(n int) string { return strings.Repeat("++", n) + "a" },
	"open parens":       func(n int) string { return strings.Repeat("(", n) },
	"open arrays":       func(n int) string { return strings.Repeat("[", n) },
	"open objects":      func(n int) string { return "a=" + strings.Repeat("{a:", n) },
	"open arrows":       func(n int) string { return strings.Repeat("(a=", n) },
	"open arrows 2":     func(n int) string { return strings.Repeat("({a:", n) },
	"open arrows 3":     func(n int) string { return strings.Repeat("(a,b,[", n) },
	"mixed":             func(n int) string { return strings.Repeat("([{a:", n) + "1" + strings.Repeat("}])", n) },
	"mixed statements": func(n int) string {
		return strings.Repeat("if(a){while(b){try{", n) + strings.Repeat("}finally{}}}", n)
	},
	"iife":         func(n int) string { return strings.Repeat("(function(){", n) + strings.Repeat("})()", n) },
	"spreads":      func(n int) string { return strings.Repeat("f(...", n) + "a" + strings.Repeat(")", n) },
	"deletes":      func(n int) string { return strings.Repeat("delete ", n) + "a" },
	"imports":      func(n int) string { return strings.Repeat("import 'a';", n) },
	"import names": func(n int) string { return "import {" + strings.Repeat("a,", n) + "} from 'b'" },
}

var nestNames = func() []string {
	var l []string
	for n := range nests {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}()

// layers are what expressions and statements can be put into.
var layers = [][2]string{
	{"(", ")"}, {"[", "]"}, {"[a,", ",b]"}, {"({a:", "})"}, {"({a,b:1,[c]:", ",d(){}})"}, {"f(", ")"}, {"f(a,...", ")"}, {"a[", "]"}, {"!", ""}, {"- ", ""}, {"typeof ", ""}, {"a=", ""}, {"a+", ""}, {"a**", ""}, {"a&&", ""}, {"a??", ""}, {"(a,", ")"}, {"(", ",a)"}, {"(a)=>", ""}, {"a=>", ""}, {"(a,{b},[c])=>", ""}, {"(a=", ")=>b"}, {"({a=", "})=>b"}, {"async a=>", ""}, {"async(a)=>", ""}, {"async(", ")"},
	{"a?", ":b"}, {"a?b:", ""}, {"new a(", ")"}, {"new (", ")"}, {"(", ").a"}, {"(", ")()"}, {"(", ")+a"}, {"a=function(){return ", "}"}, {"a=>{return ", "}"}, {"class{[", "](){}}"}, {"class{a(){return ", "}}"}, {"class extends (", "){}"}, {"(a=", ")"}, {"[...", "]"}, {"[[", "],a]"}, {"function(a=", "){}"}, {"function({a=", "}){}"}, {"/a/+", ""}, {"++", ""}, {"await ", ""}, {"yield ", ""}, {"(...", ")=>a"}, {"a,", ""}, {"a in ", ""}, {"{a:", "}"}, {"{", "}"},
}

var stmtLayers = [][2]string{
	{"{", "}"}, {"if(a)", ""}, {"if(a)b;else ", ""}, {"for(;;)", ""}, {"for(a in b)", ""}, {"while(a)", ""}, {"do ", " while(a)"}, {"switch(a){case 1:", "}"}, {"switch(a){case 1:b;default:", "}"}, {"try{", "}catch(e){}"}, {"try{}catch(e){", "}"}, {"try{}finally{", "}"}, {"a:", ""}, {"function f(){", "}"}, {"class A{a(){", "}}"}, {"a=>{", "}"}, {"(function(){", "})()"}, {"f(function(){", "})"}, {"a=[function(){", "}]"}, {"a={b(){", "}}"}, {"var a=function(){", "}"}, {"if(function(){", "}){}"}, {"{;", ";}"},
}

// mixture nests different things.
func mixture(r *rng, n int) []byte {
	var open, end []string
	pick := func(from [][2]string, n int) {
		var few [][2]string
		for k := r.in(1, 5); k > 0; k-- {
			few = append(few, from[r.n(len(from))])
		}
		for ; n > 0; n-- {
			l := few[r.n(len(few))]
			open = append(open, l[0])
			end = append(end, l[1])
		}
	}
	switch r.n(3) {
	case 0:
		pick(layers, n)
	case 1:
		pick(stmtLayers, n)
	case 2:
		k := r.n(n + 1)
		pick(stmtLayers, k)
		open = append(open, "a=")
		end = append(end, "")
		pick(layers, n-k)
	}
	var b []byte
	for _, s := range open {
		b = append(b, s...)
	}
	b = append(b, r.str("a", "1", "", "{}", "[]", "a;", "'s'")...)
	for i := len(end) - 1; i >= 0; i-- {
		b = append(b, end[i]...)
	}
	return b
}

// odd makes a text begin, end or end its lines with what tools that read
// sources have been known to see to.
func odd(r *rng, b []byte) []byte {
	switch r.n(3) {
	case 0:
		return append([]byte(r.str("#!/usr/bin/env node\n", "#!node\r\n", "#!", "\ufeff", "\ufeff\ufeff", "\ufeff#!node\n", "<!-- a\n", "\xff\xfe", "\x00", "// @flow\n", "'use strict';\n", "\n\n", "\r")), b...)
	case 1:
		return append(b, r.str("\x1a", "\x00", "\n-->", "\r", "\r\n", "\n\n", "\n//# sourceMappingURL=a.map", "\ufeff", "\u2028", "\\", "\xef\xbb")...)
	}
	return bytes.ReplaceAll(b, []byte("\n"), []byte(r.str("\r\n", "\r", "\n\r", "\u2029")))
}

// Words and the places that they can be in.
var (
	menuWords  = strings.Fields("as async await break case catch class const continue debugger default delete do else enum export extends false finally for from function get if implements import in instanceof interface let meta new null of package private protected public return set static super switch target this throw true try typeof var void while with yield eval arguments constructor undefined a")
	menuPlaces = strings.Split("@|a.@|a.@.b|({@: 1})|({@})|({@() {}})|({get @() { return a }})|({set @(b) {}})|({async @() {}})|({@ = 1}) => a|var @ = 1|let @ = 1|@: a|@ => a|(@) => a|(a, @) => a|async @ => a|(...@) => a|function @() {}|function f(@) {}|(function @() {})|class @ {}|class A extends @ {}|class A { @() {} }|class A { static @() {} }|class A { get @() {} }|import @ from 'a'|import {@} from 'a'|import {@ as b} from 'a'|import {b as @} from 'a'|import * as @ from 'a'|[@] = a|var {@} = a|var {b: @} = a|var [@, ...b] = a|try {} catch (@) {}|break @|continue @|typeof @|@++|@ in b|a ? @ : b|'use strict'; @|function f() { 'use strict'; @ }|async function f() { @ }|function* f() { @ }", "|")
)

// menuItem is one thing.
func menuItem(r *rng) string {
	if r.p(5) {
		return strings.Replace(menuPlaces[r.n(len(menuPlaces))], "@", menuWords[r.n(len(menuWords))], -1)
	}
	return menu[r.n(len(menu))]
}

// menu has one of everything.
var menu = []string{
	"a",
	"a1 = $b_",
	"class A { #p = 1 }",
	"class B extends A { static #q() {} }",
	"x in y",
	"0",
	"12",
	"1.25",
	"1.5e3",
	"2.5e-7",
	"0x1fF",
	"0b101",
	"0o17",
	"12n",
	"'text'",
	"\"text\"",
	"'\\n\\t\\\\'",
	"'\\x41\\u0041\\u{1F600}'",
	"\"\\\n\"",
	"/a[b/]c\\/d/gi",
	"a / b / c",
	"/=x/",
	"// comment",
	"/* comment */",
	"/* a\nb */",
	"a/* c */+b",
	"a = b ? c : d",
	"a ?? b",
	"a?.b",
	"a?.[0]",
	"a ** b",
	"a >>>= 1",
	"a === b !== c",
	"a << 1 >> 2 >>> 3",
	"a && b || c",
	"a &&= b",
	"f(a, ...b)",
	"new A(1).b[c]",
	"new.target",
	"(a, b)",
	"a => b",
	"(a, {b, c: [d]}, ...e) => { return a }",
	"async a => await a",
	"async (a, b) => { await a }",
	"async (a)",
	"[a, , ...b]",
	"x = {a, b: c, [d]: 1, 'e': 2, 3: 4, get f() { return 1 }, set f(g) {}, async h() {}, *i() {}, ...j}",
	"var a = 1, [b, c = 2] = d, {e, f: g} = h",
	"let i = 1",
	"const j = 2",
	"function f(a, b = 1, ...c) { 'use strict'; return a }",
	"function* g() { yield a; yield* b }",
	"async function h() { await a }",
	"async function* k() { yield await a }",
	"{ a; { b } }",
	";",
	"if (a) b; else c",
	"for (var i = 0; i < 9; i++) continue",
	"for (a of b) break",
	"for (const a in b) ;",
	"while (a) b",
	"do a; while (b)",
	"switch (a) { case 1: b; break; default: c }",
	"try { a } catch (e) { b } finally { c }",
	"try { a } catch { b }",
	"throw a",
	"l: for (;;) break l",
	"debugger",
	"with (a) b",
	"typeof a, void b, delete c.d",
	"!a, ~b, +c, -d, ++e, f--",
	"this",
	"null",
	"true",
	"false",
	"await",
	"yield",
	"let",
	"static",
	"implements",
	"\u00e9t\u00e9 + \u53d8\u6570",
}
