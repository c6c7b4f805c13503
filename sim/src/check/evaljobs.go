package main

import (
	"bufio"
	"encoding/json"
	"os"
	"strings"
)

// question is what the simulator of the browser asks.
type question struct {
	Op   string // parse or gen
	Text string
	Seed uint64
	Kind string
	Size int
	N    int
}

type answer struct {
	Result *string  `json:"result,omitempty"`
	Error  *string  `json:"error,omitempty"`
	Other  string   `json:"other,omitempty"`
	Texts  []string `json:"texts,omitempty"`
}

// answers answers questions on standard input, one per line.
func answers() {
	in := json.NewDecoder(bufio.NewReader(os.Stdin))
	out := bufio.NewWriter(os.Stdout)
	e := json.NewEncoder(out)
	e.SetEscapeHTML(false)
	for {
		q := &question{}
		if in.Decode(q) != nil {
			os.Exit(0)
		}
		a := &answer{}
		switch q.Op {
		case "parse":
			rd, _ := open(Src(q.Text), Delivery{Kind: "strings"}, nil)
			o := parse(rd, nil, "script", len(q.Text))
			switch o.Kind {
			case kTree:
				doc, err := renderIndented(o.Tree)
				if err == nil {
					a.Result = &doc
				} else {
					s := err.Error()
					if strings.HasPrefix(s, "panic") {
						a.Other = s
					} else {
						a.Error = &s
					}
				}
			case kError:
				s := o.Err.Error()
				a.Error = &s
			default:
				a.Other = o.Kind
			}
		case "gen":
			r := newRng(q.Seed, hash64([]byte(q.Kind)), 0)
			for k := 0; k < q.N; k++ {
				a.Texts = append(a.Texts, webText(r, q.Kind, q.Size))
			}
		}
		e.Encode(a)
		out.Flush()
	}
}

func webText(r *rng, kind string, size int) string {
	var b []byte
	switch kind {
	case "short":
		switch r.n(4) {
		case 0:
			b = []byte(r.str("a", "b = 1;", "f(x)", "'", "(", "}", "a\nb", "// c", "if (a) b; else c", "x => {", "\"\u00e9\"", "`", "1 +", "/* # */", "<&>", "' '", "\u2028", "var \u00fc = 1"))
		case 1:
			b = soup(r, 6)
		case 2:
			b = program(r, "script", r.in(1, 8)).Text
		case 3:
			b = mutate(r, program(r, "script", r.in(1, 8)))
		}
	case "deep":
		name := nestNames[r.n(len(nestNames))]
		n := r.in(1, 3000)
		switch r.n(4) {
		case 0:
			n = r.in(2000, 6000)
		case 1:
			n = r.in(1, 60)
		}
		b = []byte(nests[name](n))
		if r.p(5) && len(b) > 0 {
			b = b[:r.n(len(b))]
		}
	case "large":
		b = window(r, size)
	default:
		b, _ = anyText(r, "script", size, false)
	}
	if r.p(30) {
		b = odd(r, b)
	}
	return strings.ToValidUTF8(string(b), "\ufffd")
}
