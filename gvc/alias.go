package main

import (
	"encoding/json"
	"go/ast"
	"go/token"
	"os"
	"path/filepath"

	"golang.org/x/tools/go/ssa"
)

// Contracts name parameters. signatures.json records, per function under
// contract, the parameter names the contract was written against, so that a
// renamed parameter is still found by its position.

func paramNames(fn *ssa.Function) []string {
	var out []string
	for _, p := range fn.Params {
		out = append(out, p.Name())
	}
	for _, p := range fn.FreeVars {
		out = append(out, p.Name())
	}
	return out
}

// localNames lists the variables fn declares, in source order.
func localNames(fn *ssa.Function) []string {
	var out []string
	seen := map[string]bool{}
	add := func(e ast.Expr) {
		if id, ok := e.(*ast.Ident); ok && id.Name != "_" && !seen[id.Name] {
			seen[id.Name] = true
			out = append(out, id.Name)
		}
	}
	root := fn.Syntax()
	if root == nil {
		return nil
	}
	ast.Inspect(root, func(n ast.Node) bool {
		switch t := n.(type) {
		case *ast.FuncLit:
			return n == root
		case *ast.AssignStmt:
			if t.Tok == token.DEFINE {
				for _, e := range t.Lhs {
					add(e)
				}
			}
		case *ast.RangeStmt:
			if t.Tok == token.DEFINE {
				add(t.Key)
				add(t.Value)
			}
		case *ast.ValueSpec:
			for _, e := range t.Names {
				add(e)
			}
		}
		return true
	})
	return out
}

// renamed pairs the names only the old list has with those only the new one
// has, in order, when there are as many of either.
func renamed(old, cur []string, name string) string {
	in := func(l []string, s string) bool {
		for _, e := range l {
			if e == s {
				return true
			}
		}
		return false
	}
	var gone, fresh []string
	for _, s := range old {
		if !in(cur, s) {
			gone = append(gone, s)
		}
	}
	for _, s := range cur {
		if !in(old, s) {
			fresh = append(fresh, s)
		}
	}
	if len(gone) != len(fresh) {
		return ""
	}
	for i := range gone {
		if gone[i] == name {
			return fresh[i]
		}
	}
	return ""
}

func (x *Exec) loadSigs(dir string) {
	x.sigs = map[string][]string{}
	if data, err := os.ReadFile(filepath.Join(dir, "signatures.json")); err == nil {
		_ = json.Unmarshal(data, &x.sigs)
	}
}

func writeSigs(dir string, cs []*Contract) error {
	out := map[string][]string{}
	for _, c := range cs {
		if c.fn != nil {
			out[c.Key] = paramNames(c.fn)
			if l := localNames(c.fn); l != nil {
				out[c.Key+" locals"] = l
			}
		}
	}
	data, err := json.MarshalIndent(out, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, "signatures.json"), append(data, '\n'), 0o644)
}

// currentName is the present name of the parameter or variable that used to be called
// name, or empty.
func (x *Exec) currentName(fn *ssa.Function, name string) string {
	old, cur := x.sigs[fnKey(fn)], paramNames(fn)
	if len(old) == len(cur) {
		for i := range old {
			if old[i] == name && cur[i] != name {
				return cur[i]
			}
		}
	}
	return renamed(x.sigs[fnKey(fn)+" locals"], localNames(fn), name)
}

func (x *Exec) aliasParams(params map[string]sv, fn *ssa.Function) {
	old, cur := x.sigs[fnKey(fn)], paramNames(fn)
	if len(old) != len(cur) {
		return
	}
	for i := range old {
		if _, taken := params[old[i]]; !taken {
			if v, ok := params[cur[i]]; ok {
				params[old[i]] = v
			}
		}
	}
}
