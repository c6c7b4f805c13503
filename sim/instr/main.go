// Command instr prepares a simulation build of the cleansheets tree.
//
// It reads the Go sources of the repository as they are now, writes
// instrumented copies of them to an output directory and an overlay file that
// puts the copies, and the simulator's own packages, into the repository's
// module without touching the repository itself.
//
// Instrumentation is behaviour-preserving: a call of hook.Y in front of every
// statement (a point at which the simulated scheduler may preempt the caller,
// and at which steps are counted), and imports of packages that reach outside
// of the process (os, log, fmt, flag, sync, io/ioutil, time) redirected to
// simulated versions that pass through to the real ones when no simulation is
// active.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const simPrefix = "github.com/jchv/cleansheets/verifsim/"

var shims = map[string]string{
	"os":        "simos",
	"log":       "simlog",
	"fmt":       "simfmt",
	"sync":      "simsync",
	"io/ioutil": "simioutil",
}

type edit struct {
	off  int
	del  int
	text string
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(3)
}

// instrument returns the instrumented text of a file and the number of
// statements that were instrumented.
func instrument(path string, rename string) ([]byte, int, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return nil, 0, err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, 0, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	n := 0
	list := func(l []ast.Stmt) {
		for _, s := range l {
			edits = append(edits, edit{off(s.Pos()), 0, "verifhook.Y(); "})
			n++
		}
	}
	clauses := map[*ast.BlockStmt]bool{}
	ast.Inspect(f, func(nd ast.Node) bool {
		switch t := nd.(type) {
		case *ast.SwitchStmt:
			clauses[t.Body] = true
		case *ast.TypeSwitchStmt:
			clauses[t.Body] = true
		case *ast.SelectStmt:
			clauses[t.Body] = true
		case *ast.BlockStmt:
			if clauses[t] {
				return true
			}
			if len(t.List) == 0 {
				edits = append(edits, edit{off(t.Lbrace) + 1, 0, " verifhook.Y(); "})
				n++
			} else {
				list(t.List)
			}
		case *ast.CaseClause:
			list(t.Body)
		case *ast.CommClause:
			list(t.Body)
		case *ast.GoStmt:
			// A goroutine started from a function literal without arguments
			// becomes a task of the simulated scheduler.
			if fl, ok := t.Call.Fun.(*ast.FuncLit); ok && len(t.Call.Args) == 0 {
				edits = append(edits, edit{off(t.Go), 2, "verifhook.Go("})
				edits = append(edits, edit{off(fl.End()), off(t.Call.End()) - off(fl.End()), ")"})
				n++
			}
		}
		return true
	})
	for _, imp := range f.Imports {
		p, _ := strconv.Unquote(imp.Path.Value)
		shim, ok := shims[p]
		if !ok {
			continue
		}
		name := filepath.Base(p) + " "
		if imp.Name != nil {
			name = ""
		}
		edits = append(edits, edit{off(imp.Path.Pos()), len(imp.Path.Value), name + strconv.Quote(simPrefix+shim)})
	}
	if rename != "" {
		edits = append(edits, edit{off(f.Name.Pos()), len(f.Name.Name), rename})
	}
	if n > 0 {
		edits = append(edits, edit{off(f.Name.End()), 0, "; import verifhook " + strconv.Quote(simPrefix+"hook")})
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var out []byte
	at := 0
	for _, e := range edits {
		out = append(out, src[at:e.off]...)
		out = append(out, e.text...)
		at = e.off + e.del
	}
	out = append(out, src[at:]...)
	return out, n, nil
}

func main() {
	if len(os.Args) != 4 {
		fatal(fmt.Errorf("usage: instr REPO SIMSRC OUT"))
	}
	repo, simsrc, out := os.Args[1], os.Args[2], os.Args[3]
	replace := map[string]string{}
	total := 0
	files := 0
	ctx := build.Default
	ctx.GOOS, ctx.GOARCH = "linux", "amd64"
	err := filepath.Walk(repo, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		base := filepath.Base(path)
		if info.IsDir() {
			if path != repo && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "dist" || base == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(base, ".go") || strings.HasSuffix(base, "_test.go") {
			return nil
		}
		dir := filepath.Dir(path)
		if ok, err := ctx.MatchFile(dir, base); err != nil || !ok {
			return err
		}
		rel, err := filepath.Rel(repo, path)
		if err != nil {
			return err
		}
		dst := filepath.Join(out, "src", rel)
		if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			return err
		}
		text, n, err := instrument(path, "")
		if err != nil {
			return err
		}
		if err := os.WriteFile(dst, text, 0o644); err != nil {
			return err
		}
		replace[path] = dst
		total += n
		files++
		// The command becomes importable, so that it can run simulated.
		if filepath.Dir(rel) == filepath.Join("cmd", "estree") {
			text, _, err := instrument(path, "estreemain")
			if err != nil {
				return err
			}
			dst := filepath.Join(out, "src", "estreemain", base)
			if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
				return err
			}
			if err := os.WriteFile(dst, text, 0o644); err != nil {
				return err
			}
			replace[filepath.Join(repo, "verifsim", "estreemain", base)] = dst
		}
		return nil
	})
	if err != nil {
		fatal(err)
	}
	dst := filepath.Join(out, "src", "estreemain", "zz_verif.go")
	if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
		fatal(err)
	}
	if err := os.WriteFile(dst, []byte("package estreemain\n\n// VerifMain runs the command.\nfunc VerifMain() { main() }\n"), 0o644); err != nil {
		fatal(err)
	}
	replace[filepath.Join(repo, "verifsim", "estreemain", "zz_verif.go")] = dst
	err = filepath.Walk(simsrc, func(path string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || !strings.HasSuffix(path, ".go") {
			return err
		}
		rel, err := filepath.Rel(simsrc, path)
		if err != nil {
			return err
		}
		replace[filepath.Join(repo, "verifsim", rel)] = path
		return nil
	})
	if err != nil {
		fatal(err)
	}
	b, err := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err != nil {
		fatal(err)
	}
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		fatal(err)
	}
	fmt.Printf("instrumented %d statements in %d files\n", total, files)
}
