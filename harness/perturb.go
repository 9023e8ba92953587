package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	gotoken "go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Goroutines of the server may begin late: in the builds made with this overlay every go statement of the working
// tree starts with a delay, none unless VERIF_GO asks for it. Nothing else is changed.

const goDelayFile = `package %s

import (
	"math/rand"
	"os"
	"strconv"
	"time"
)

var verifGoMax, _ = strconv.Atoi(os.Getenv("VERIF_GO"))

func verifGoDelay() {
	if verifGoMax > 0 && rand.Intn(3) > 0 {
		time.Sleep(time.Duration(rand.Intn(verifGoMax*1000)) * time.Microsecond)
	}
}
`

// lateGo tells by property how many milliseconds late goroutines may begin, in turn from server start to server start.
var lateGo = map[string][]int{"C12": {0, 3, 0, 25}, "C13": {0, 0, 10}, "C14": {0, 2, 20, 100, 0}, "C16": {0, 3, 30}, "C18": {0, 0, 10}, "C19": {0, 1, 20, 100}, "C25": {0, 0, 10}, "C26": {0, 3, 30, 0, 100},
	"C27": {0, 5, 50}, "C30": {0, 0, 20}, "C31": {0, 20}, "C32": {0, 10, 0, 40}, "C33": {0, 10, 0, 50}}

type patch struct {
	from, to int
	text     string
}

// delayGoroutines returns the text with a delay at the start of every goroutine.
func delayGoroutines(path string, src []byte) (text string, pkg string, n int) {
	fset := gotoken.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return "", "", 0
	}
	at := func(p gotoken.Pos) int { return fset.Position(p).Offset }
	var ps []patch
	ast.Inspect(f, func(nd ast.Node) bool {
		g, ok := nd.(*ast.GoStmt)
		if !ok {
			return true
		}
		n++
		if lit, ok := g.Call.Fun.(*ast.FuncLit); ok {
			o := at(lit.Body.Lbrace) + 1
			ps = append(ps, patch{o, o, " verifGoDelay(); "})
			return true
		}
		// what is called and with what is settled before the goroutine starts
		names, vals := []string{"verifF"}, []string{string(src[at(g.Call.Fun.Pos()):at(g.Call.Fun.End())])}
		for i, a := range g.Call.Args {
			names = append(names, fmt.Sprintf("verifA%d", i))
			vals = append(vals, string(src[at(a.Pos()):at(a.End())]))
		}
		dots := ""
		if g.Call.Ellipsis.IsValid() {
			dots = "..."
		}
		ps = append(ps, patch{at(g.Pos()), at(g.End()), fmt.Sprintf("{ %s := %s; go func() { verifGoDelay(); verifF(%s%s) }() }",
			strings.Join(names, ", "), strings.Join(vals, ", "), strings.Join(names[1:], ", "), dots)})
		return false
	})
	sort.Slice(ps, func(i, j int) bool { return ps[i].from > ps[j].from })
	text = string(src)
	for _, p := range ps {
		text = text[:p.from] + p.text + text[p.to:]
	}
	return text, f.Name.Name, n
}

// goOverlay adds the delays to an overlay; base may be empty.
func (h *H) goOverlay(base string) (string, int) {
	replace := map[string]string{}
	if base != "" {
		var o struct{ Replace map[string]string }
		b, err := os.ReadFile(base)
		if err != nil || json.Unmarshal(b, &o) != nil {
			giveUp("overlay: %v", err)
		}
		replace = o.Replace
	}
	dir := filepath.Join(h.scratch, "overlay-go")
	os.MkdirAll(dir, 0755)
	total := 0
	filepath.WalkDir(h.repo, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() {
			if n := d.Name(); path != h.repo && (strings.HasPrefix(n, ".") || n == "testdata" || n == "vendor") {
				return fs.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return nil
		}
		text, pkg, n := delayGoroutines(path, src)
		if n == 0 {
			return nil
		}
		total += n
		rel, _ := filepath.Rel(h.repo, path)
		p := filepath.Join(dir, strings.ReplaceAll(rel, "/", "_"))
		q := filepath.Join(dir, strings.ReplaceAll(filepath.Dir(rel), "/", "_")+"_zz.go")
		os.WriteFile(p, []byte(text), 0644)
		os.WriteFile(q, []byte(fmt.Sprintf(goDelayFile, pkg)), 0644)
		replace[path] = p
		replace[filepath.Join(filepath.Dir(path), "zz_verif_go.go")] = q
		return nil
	})
	j, _ := json.Marshal(map[string]any{"Replace": replace})
	p := filepath.Join(dir, "overlay"+fmt.Sprint(len(base) > 0)+".json")
	os.WriteFile(p, j, 0644)
	return p, total
}
