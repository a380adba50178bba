package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// genReplay writes the dispatcher of the replay binary.
func (p *Program) genReplay() error {
	var dirs []string
	for _, h := range p.harness {
		dirs = append(dirs, filepath.Join(p.verif, "harness", h))
	}
	sort.Strings(dirs)
	var imp, ent strings.Builder
	for _, d := range dirs {
		base := filepath.Base(d)
		fset := token.NewFileSet()
		files, _ := filepath.Glob(filepath.Join(d, "*.go"))
		any := false
		for _, f := range files {
			af, err := parser.ParseFile(fset, f, nil, 0)
			if err != nil {
				return err
			}
			for _, dc := range af.Decls {
				fd, ok := dc.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || !fd.Name.IsExported() || fd.Type.Params.NumFields() > 0 || fd.Type.Results.NumFields() > 0 {
					continue
				}
				fmt.Fprintf(&ent, "\t\t%q: %s.%s,\n", base+"."+fd.Name.Name, base, fd.Name.Name)
				any = true
			}
		}
		if any {
			fmt.Fprintf(&imp, "\t%q\n", repoPath+"/zzverif/"+base)
		}
	}
	src := "package main\n\nimport (\n\t\"" + vrtPath + "\"\n" + imp.String() + ")\n\nfunc main() {\n\tvrt.Main(map[string]func(){\n" + ent.String() + "\t})\n}\n"
	out := filepath.Join(p.tmp, "replay_main.go")
	if err := os.WriteFile(out, []byte(src), 0o644); err != nil {
		return err
	}
	p.overlay[filepath.Join(p.repo, "zzverif", "replay", "main.go")] = out
	return nil
}
