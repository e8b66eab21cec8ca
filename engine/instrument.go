package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// instrument writes copies of the files that synchronise or draw random numbers
// in which every visible operation is preceded by a call of the schedule
// controller. It returns the overlay for the native build.
func instrument(pkgs []*packages.Package, dir string) (map[string]string, error) {
	overlay := map[string]string{}
	var err error
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, "github.com/timtadh/") && !isHarness(p.PkgPath) {
			return
		}
		for _, f := range p.Syntax {
			name := p.Fset.Position(f.Package).Filename
			src, e := os.ReadFile(name)
			if e != nil {
				err = e
				return
			}
			in := &instr{p: p, f: f, src: src, done: map[ast.Node]bool{}}
			in.file()
			if len(in.edits) == 0 {
				continue
			}
			out := filepath.Join(dir, fmt.Sprintf("i%d.go", len(overlay)))
			if e := os.WriteFile(out, in.apply(), 0o644); e != nil {
				err = e
				return
			}
			overlay[name] = out
		}
	})
	return overlay, err
}

func isHarness(path string) bool {
	const pre = "verif/harness/c"
	return strings.HasPrefix(path, pre) && len(path) > len(pre) && path[len(pre)] >= '0' && path[len(pre)] <= '9'
}

type edit struct {
	from, to int
	text     string
	seq      int
}

type instr struct {
	p     *packages.Package
	f     *ast.File
	src   []byte
	edits []edit
	done  map[ast.Node]bool
	n     int
}

func (in *instr) off(p token.Pos) int { return in.p.Fset.Position(p).Offset }

func (in *instr) replace(from, to token.Pos, text string) {
	in.edits = append(in.edits, edit{in.off(from), in.off(to), text, len(in.edits)})
}

func (in *instr) insert(at token.Pos, text string) { in.replace(at, at, text) }

func (in *instr) apply() []byte {
	in.insert(in.f.Name.End(), `; import verifsched "verif/harness/sched"`)
	sort.SliceStable(in.edits, func(i, j int) bool {
		if in.edits[i].from != in.edits[j].from {
			return in.edits[i].from < in.edits[j].from
		}
		if a, b := in.edits[i].to == in.edits[i].from, in.edits[j].to == in.edits[j].from; a != b {
			return a
		}
		return in.edits[i].seq < in.edits[j].seq
	})
	var out []byte
	at := 0
	for _, e := range in.edits {
		out = append(out, in.src[at:e.from]...)
		out = append(out, e.text...)
		at = e.to
	}
	return append(out, in.src[at:]...)
}

// callee is the full name of the function a call statically refers to.
func (in *instr) callee(c *ast.CallExpr) string {
	fun := ast.Unparen(c.Fun)
	var id *ast.Ident
	switch x := fun.(type) {
	case *ast.Ident:
		id = x
	case *ast.SelectorExpr:
		id = x.Sel
	default:
		return ""
	}
	switch o := in.p.TypesInfo.Uses[id].(type) {
	case *types.Func:
		return o.FullName()
	case *types.Builtin:
		return o.Name()
	}
	return ""
}

var visibleCalls = map[string]bool{
	"(*sync.Mutex).Lock": true, "(*sync.Mutex).Unlock": true, "(*sync.Mutex).TryLock": true,
	"(*sync.RWMutex).Unlock": true, "(*sync.RWMutex).RLock": true, "(*sync.RWMutex).RUnlock": true,
	"(*sync.RWMutex).TryLock": true, "(*sync.RWMutex).TryRLock": true,
	"(sync.Locker).Lock": true, "(sync.Locker).Unlock": true,
	"(*sync.WaitGroup).Add": true, "(*sync.WaitGroup).Done": true, "(*sync.WaitGroup).Wait": true,
	"close": true, "verif/harness/sym.Event": true, "verif/harness/sym.Idle": true,
}

func visibleCall(name string) bool {
	if visibleCalls[name] {
		return true
	}
	return (strings.HasPrefix(name, "sync/atomic.") || strings.HasPrefix(name, "(*sync/atomic.")) && !strings.Contains(name, "Value)")
}

func (in *instr) file() {
	var stack []ast.Node
	ast.Inspect(in.f, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		var parent ast.Node
		if len(stack) > 0 {
			parent = stack[len(stack)-1]
		}
		stack = append(stack, n)
		in.node(n, parent)
		return true
	})
}

func inBlock(parent ast.Node) bool {
	switch parent.(type) {
	case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
		return true
	}
	return false
}

const point = "verifsched.Point(); "

func (in *instr) node(n, parent ast.Node) {
	if in.done[n] {
		return
	}
	switch x := n.(type) {
	case *ast.GoStmt:
		in.goStmt(x)
	case *ast.DeferStmt:
		in.deferStmt(x)
	case *ast.ExprStmt:
		switch e := ast.Unparen(x.X).(type) {
		case *ast.CallExpr:
			name := in.callee(e)
			if sel, ok := ast.Unparen(e.Fun).(*ast.SelectorExpr); ok {
				shim := map[string]string{"(*sync.Cond).Wait": "CondWait", "(*sync.Cond).Broadcast": "Broadcast", "(*sync.Cond).Signal": "Signal", "(*sync.RWMutex).Lock": "RWLock"}[name]
				if shim != "" && in.direct(sel) {
					in.done[e] = true
					amp := "&"
					if _, ok := in.p.TypesInfo.TypeOf(sel.X).Underlying().(*types.Pointer); ok {
						amp = ""
					}
					in.insert(x.Pos(), "verifsched."+shim+"("+amp)
					in.replace(sel.X.End(), x.End(), ")")
					return
				}
			}
			if visibleCall(name) && inBlock(parent) {
				in.done[e] = true
				in.insert(x.Pos(), point)
			}
		case *ast.UnaryExpr:
			if e.Op == token.ARROW && inBlock(parent) {
				in.done[e] = true
				in.insert(x.Pos(), point)
			}
		}
	case *ast.AssignStmt:
		if len(x.Rhs) == 1 && inBlock(parent) {
			if u, ok := ast.Unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				if _, comm := parent.(*ast.CommClause); !comm || parent.(*ast.CommClause).Comm != x {
					in.done[u] = true
					in.insert(x.Pos(), point)
				}
			}
		}
	case *ast.SendStmt:
		if inBlock(parent) {
			in.insert(x.Pos(), point)
		}
	case *ast.SelectStmt:
		if inBlock(parent) {
			in.insert(x.Pos(), point)
		}
		for _, c := range x.Body.List {
			cc := c.(*ast.CommClause)
			switch s := cc.Comm.(type) {
			case *ast.SendStmt:
				in.done[s] = true
			case *ast.ExprStmt:
				in.done[s] = true
				in.done[ast.Unparen(s.X)] = true
			case *ast.AssignStmt:
				in.done[s] = true
				in.done[ast.Unparen(s.Rhs[0])] = true
			}
		}
	case *ast.RangeStmt:
		if _, ok := in.p.TypesInfo.TypeOf(x.X).Underlying().(*types.Chan); ok {
			in.rangeStmt(x)
		}
	case *ast.CallExpr:
		name := in.callee(x)
		if strings.HasPrefix(name, "math/rand.") || strings.HasPrefix(name, "(*math/rand.Rand).") {
			if intrinsics[name] != nil && in.p.TypesInfo.TypeOf(x) != nil {
				if b, ok := in.p.TypesInfo.TypeOf(x).Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					in.insert(x.Pos(), "verifsched.Rand(")
					in.insert(x.End(), ")")
				}
			}
			return
		}
		if visibleCall(name) {
			if t, ok := in.p.TypesInfo.TypeOf(x).(*types.Tuple); ok && t.Len() == 0 {
				return
			}
			if in.p.TypesInfo.TypeOf(x) == nil || in.p.TypesInfo.Types[x].IsVoid() {
				return
			}
			in.insert(x.Pos(), "verifsched.Val(verifsched.Here(), ")
			in.insert(x.End(), ")")
		}
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			in.insert(x.Pos(), "verifsched.Val(verifsched.Here(), ")
			in.insert(x.End(), ")")
		}
	}
}

// direct reports whether the method is selected on the type itself rather than
// promoted from an embedded field.
func (in *instr) direct(sel *ast.SelectorExpr) bool {
	s := in.p.TypesInfo.Selections[sel]
	return s != nil && len(s.Index()) == 1
}

func (in *instr) goStmt(x *ast.GoStmt) {
	sig, ok := in.p.TypesInfo.TypeOf(x.Call.Fun).Underlying().(*types.Signature)
	if !ok || sig.Results().Len() != 0 || sig.Variadic() || len(x.Call.Args) > 2 || len(x.Call.Args) != sig.Params().Len() {
		return
	}
	fn := "verifsched.Go("
	if n := len(x.Call.Args); n > 0 {
		fn = fmt.Sprintf("verifsched.Go%d(", n)
		in.replace(x.Call.Lparen, x.Call.Lparen+1, ", ")
	} else {
		in.replace(x.Call.Lparen, x.Call.Lparen+1, "")
	}
	in.replace(x.Go, x.Call.Pos(), fn)
}

func (in *instr) deferStmt(x *ast.DeferStmt) {
	name := in.callee(x.Call)
	if name == "close" {
		in.done[x.Call] = true
		in.replace(x.Call.Pos(), x.Call.Lparen+1, "verifsched.D(func() func() { verifc := ")
		in.insert(x.Call.Rparen, "; return func() { close(verifc) } }()")
		return
	}
	sel, ok := ast.Unparen(x.Call.Fun).(*ast.SelectorExpr)
	if !ok {
		return
	}
	switch {
	case name == "(*sync.RWMutex).Lock" || strings.HasPrefix(name, "(*sync.Cond)"):
		return
	case visibleCalls[name] && len(x.Call.Args) == 0:
		in.done[x.Call] = true
		in.insert(x.Call.Pos(), "verifsched.D(")
		in.replace(sel.End(), x.Call.End(), ")")
	}
}

func (in *instr) rangeStmt(x *ast.RangeStmt) {
	in.n++
	c, v, ok := fmt.Sprintf("verifc%d", in.n), fmt.Sprintf("verifv%d", in.n), fmt.Sprintf("verifok%d", in.n)
	set := "_ = " + v
	if x.Key != nil {
		set = string(in.src[in.off(x.Key.Pos()):in.off(x.Key.End())]) + " " + x.Tok.String() + " " + v
	}
	in.replace(x.For, x.X.Pos(), "for "+c+" := ")
	in.insert(x.X.End(), "; ; ")
	in.insert(x.Body.Lbrace+1, fmt.Sprintf(" verifsched.Point(); %s, %s := <-%s; if !%s { break }; %s; {", v, ok, c, ok, set))
	in.insert(x.Body.Rbrace, "}")
}
