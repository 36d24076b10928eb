package main

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func main() {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: "/repo"}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(err)
	}
	if packages.PrintErrors(pkgs) > 0 {
		os.Exit(1)
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.BuilderMode(0))
	prog.Build()
	_ = spkgs
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg == nil || len(os.Args) > 1 && !strings.Contains(f.String(), os.Args[1]) {
			continue
		}
		if f.Blocks == nil {
			continue
		}
		if len(os.Args) > 1 {
			f.WriteTo(os.Stdout)
			for _, a := range f.AnonFuncs {
				a.WriteTo(os.Stdout)
			}
		} else {
			fmt.Println(f.String(), len(f.Blocks))
		}
	}
}
