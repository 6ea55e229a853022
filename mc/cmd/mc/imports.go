package main

import (
	"fmt"

	"github.com/jchv/cleansheets/ecmascript/ast"

	"verifmc/ref"
)

// judgeImport: acceptance and ESTree are as prescribed, and the fields of the
// import declaration nodes hold the same bindings.
func judgeImport(c *Case) string {
	if d := judgeFull(c); d != "" {
		return d
	}
	r := c.Ref()
	if r.Verdict != ref.Accept || !c.Impl().accepted() || c.Mode != ref.Module {
		return ""
	}
	var body []ast.Node
	switch n := c.Impl().Node.(type) {
	case ast.ModuleNode:
		body = n.Body
	case *ast.ModuleNode:
		body = n.Body
	default:
		return fmt.Sprintf("a module is parsed to a %T", n)
	}
	want, _ := r.Tree.Get("body").([]*ref.Node)
	if len(want) != len(body) {
		return fmt.Sprintf("expected %d module items, got %d", len(want), len(body))
	}
	for i, w := range want {
		if w.Type != "ImportDeclaration" {
			continue
		}
		var d ast.ImportDeclNode
		switch n := body[i].(type) {
		case ast.ImportDeclNode:
			d = n
		case *ast.ImportDeclNode:
			d = *n
		default:
			return fmt.Sprintf("an import declaration is parsed to a %T", n)
		}
		if m := importDiff(w, d); m != "" {
			return fmt.Sprintf("import declaration %d: %s", i, m)
		}
	}
	return ""
}

func importDiff(w *ref.Node, d ast.ImportDeclNode) string {
	name := func(n any) string { s, _ := n.(*ref.Node).Get("name").(string); return s }
	var def, ns string
	var named [][2]string
	specs, _ := w.Get("specifiers").([]*ref.Node)
	for _, s := range specs {
		local := name(s.Get("local"))
		switch s.Type {
		case "ImportDefaultSpecifier":
			def = local
		case "ImportNamespaceSpecifier":
			ns = local
		default:
			named = append(named, [2]string{name(s.Get("imported")), local})
		}
	}
	got := ""
	if d.DefaultBinding != nil {
		got = d.DefaultBinding.Identifier
	}
	if got != def {
		return fmt.Sprintf("expected default binding %q, got %q", def, got)
	}
	got = ""
	if d.NameSpace != nil {
		got = d.NameSpace.Identifier
	}
	if got != ns {
		return fmt.Sprintf("expected namespace binding %q, got %q", ns, got)
	}
	if len(d.NamedImports) != len(named) {
		return fmt.Sprintf("expected %d named imports, got %d", len(named), len(d.NamedImports))
	}
	for i, n := range d.NamedImports {
		local := n.AsBinding
		if local == "" {
			local = n.Identifier
		}
		if n.Identifier != named[i][0] || local != named[i][1] {
			return fmt.Sprintf("expected import of %q as %q, got %q as %q", named[i][0], named[i][1], n.Identifier, local)
		}
	}
	src, _ := w.Get("source").(*ref.Node)
	if v, ok := src.Get("value").([]uint16); ok {
		if m := diffString(v, d.Module); m != "" {
			return "module specifier: " + m
		}
	}
	return ""
}
