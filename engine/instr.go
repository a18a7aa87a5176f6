package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

type edit struct {
	off int
	end int
	txt string
	seq int
}

// instrumented returns copies of the sources in which every visible operation
// is preceded by a scheduling point, for driving a recorded schedule natively.
func (pr *Program) instrumented() map[string][]byte {
	out := map[string][]byte{}
	packages.Visit(pr.pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, modPath) || strings.HasSuffix(p.PkgPath, "/zzverif/sym") || strings.HasSuffix(p.PkgPath, "/zzverif/vs") {
			return
		}
		for _, f := range p.Syntax {
			name := pr.ssa.Fset.Position(f.Pos()).Filename
			src := pr.overlay[name]
			if src == nil {
				b, err := os.ReadFile(name)
				if err != nil {
					continue
				}
				src = b
			}
			if b := instrumentFile(pr.ssa.Fset, p.TypesInfo, f, src); b != nil {
				out[name] = b
			}
		}
	})
	return out
}

var syncPkgs = map[string]bool{"sync": true, "sync/atomic": true, "context": true}

func visibleCall(info *types.Info, c *ast.CallExpr) string {
	var id *ast.Ident
	switch f := ast.Unparen(c.Fun).(type) {
	case *ast.Ident:
		id = f
	case *ast.SelectorExpr:
		id = f.Sel
	default:
		return ""
	}
	if t := info.TypeOf(c.Fun); t != nil {
		if n, ok := t.(*types.Named); ok && n.Obj().Name() == "CancelFunc" {
			return "call"
		}
	}
	o := info.Uses[id]
	if o == nil {
		return ""
	}
	if b, ok := o.(*types.Builtin); ok {
		if b.Name() == "close" {
			return "close"
		}
		if (b.Name() == "len" || b.Name() == "cap") && len(c.Args) == 1 {
			if _, ok := info.TypeOf(c.Args[0]).Underlying().(*types.Chan); ok && b.Name() == "len" {
				return "call"
			}
		}
		return ""
	}
	fn, ok := o.(*types.Func)
	if !ok || fn.Pkg() == nil {
		return ""
	}
	pk, nm := fn.Pkg().Path(), fn.Name()
	switch {
	case syncPkgs[pk]:
		switch nm {
		case "Unlock", "RUnlock", "NewCond", "Background", "TODO", "WithValue", "Value", "Done", "Deadline", "RLocker":
			if nm == "Done" && pk == "sync" {
				return "call"
			}
			return ""
		}
		return "call"
	case pk == "time":
		switch nm {
		case "Now", "Since", "Until", "Sleep", "NewTimer", "NewTicker", "After", "Tick", "Stop", "Reset":
			return "call"
		case "AfterFunc":
			return "afterfunc"
		}
	case pk == "os":
		if nm == "Exit" {
			return "exit"
		}
	case strings.HasSuffix(pk, "/zzverif/sym"):
		switch nm {
		case "Ghost", "Yield", "Advance":
			return "call"
		}
	}
	return ""
}

func instrumentFile(fset *token.FileSet, info *types.Info, f *ast.File, src []byte) []byte {
	var eds []edit
	tf := fset.File(f.Pos())
	if tf.Size() != len(src) { // not the text that was parsed
		return nil
	}
	off := func(p token.Pos) int { return tf.Offset(p) }
	add := func(a, b int, s string) { eds = append(eds, edit{a, b, s, len(eds)}) }
	id := func(p token.Pos) string {
		q := fset.PositionFor(p, false)
		return fmt.Sprintf("%q", fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line))
	}
	wrap := func(e ast.Expr, pre string) {
		add(off(e.Pos()), off(e.Pos()), pre)
		add(off(e.End()), off(e.End()), ")")
	}
	isConst := func(e ast.Expr) bool {
		tv := info.Types[e]
		return tv.Value != nil || tv.IsNil()
	}
	skip := map[ast.Node]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GoStmt:
			wrap(x.Call.Fun, "zzvs.Go(")
		case *ast.DeferStmt:
			switch visibleCall(info, x.Call) {
			case "call":
				skip[x.Call] = true
				wrap(x.Call.Fun, "zzvs.Defer("+id(x.Pos())+", ")
			case "close":
				skip[x.Call] = true
				add(off(x.Call.Pos()), off(x.Call.Args[0].Pos()), "zzvs.DeferClose("+id(x.Pos())+", ")
			}
		case *ast.SelectStmt:
			first := true
			i := 0
			for _, c := range x.Body.List {
				cc := c.(*ast.CommClause)
				if cc.Comm == nil {
					continue
				}
				ast.Inspect(cc.Comm, func(n ast.Node) bool {
					switch y := n.(type) {
					case *ast.SendStmt:
						wrap(y.Chan, fmt.Sprintf("zzvs.Sel(%s, %d, %v, ", id(x.Pos()), i, first))
						return false
					case *ast.UnaryExpr:
						if y.Op == token.ARROW {
							skip[y] = true
							wrap(y.X, fmt.Sprintf("zzvs.Sel(%s, %d, %v, ", id(x.Pos()), i, first))
							return false
						}
					}
					return true
				})
				skip[cc.Comm] = true
				first = false
				i++
			}
		case *ast.SendStmt:
			if !skip[x] {
				wrap(x.Chan, "zzvs.At("+id(x.Arrow)+", ")
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !skip[x] {
				wrap(x.X, "zzvs.At("+id(x.OpPos)+", ")
			}
		case *ast.RangeStmt:
			if t := info.TypeOf(x.X); t != nil {
				if _, ok := t.Underlying().(*types.Chan); ok {
					h := "for zzc := " + string(src[off(x.X.Pos()):off(x.X.End())]) + "; ; { zzvs.Point(" + id(x.For) + "); "
					switch {
					case x.Key == nil:
						h += "_, zzok := <-zzc; if !zzok { break }; "
					case x.Tok == token.DEFINE:
						k := string(src[off(x.Key.Pos()):off(x.Key.End())])
						h += k + ", zzok := <-zzc; if !zzok { break }; _ = " + k + "; "
					default:
						h += "var zzok bool; " + string(src[off(x.Key.Pos()):off(x.Key.End())]) + ", zzok = <-zzc; if !zzok { break }; "
					}
					add(off(x.For), off(x.Body.Lbrace)+1, h)
				}
			}
		case *ast.CallExpr:
			if skip[x] {
				return true
			}
			switch visibleCall(info, x) {
			case "call":
				pos := x.Lparen
				if len(x.Args) == 0 || isConst(x.Args[len(x.Args)-1]) || x.Ellipsis != token.NoPos {
					if info.Types[x.Fun].IsBuiltin() {
						break
					}
					wrap(x.Fun, "zzvs.At("+id(pos)+", ")
				} else {
					wrap(x.Args[len(x.Args)-1], "zzvs.At("+id(pos)+", ")
				}
			case "close":
				wrap(x.Args[0], "zzvs.At("+id(x.Lparen)+", ")
			case "exit":
				wrap(x.Fun, "zzvs.Exit(")
			case "afterfunc":
				wrap(x.Args[len(x.Args)-1], "zzvs.Timer(")
			}
		}
		return true
	})
	if len(eds) == 0 {
		return nil
	}
	add(0, 0, "//go:build go1.18\n\n")
	pe := off(f.Name.End())
	add(pe, pe, "; import zzvs \""+modPath+"/zzverif/vs\"")
	sort.SliceStable(eds, func(i, j int) bool {
		a, b := eds[i], eds[j]
		if a.off != b.off {
			return a.off < b.off
		}
		// closing parentheses first, inner before outer
		ca, cb := a.txt == ")", b.txt == ")"
		if ca != cb {
			return ca
		}
		if ca {
			return a.seq > b.seq
		}
		return a.seq < b.seq
	})
	var sb strings.Builder
	last := 0
	for _, e := range eds {
		if e.off < last {
			continue
		}
		sb.Write(src[last:e.off])
		sb.WriteString(e.txt)
		last = e.end
	}
	sb.Write(src[last:])
	return []byte(sb.String())
}
