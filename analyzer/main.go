// Command mapl-static decides properties of the MAPL engine from its source.
package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"maplverif/absint"

	"golang.org/x/tools/go/ssa"
)

func repoDir() string {
	if d := os.Getenv("MAPL_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func main() {
	debug.SetGCPercent(400)
	if len(os.Args) < 2 {
		fmt.Println("usage: mapl-static check ID | dump FUNC")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(runCheck(os.Args[2]))
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			if len(os.Args) > 2 {
				fmt.Printf("%s\t%s\t%s\n", id, props[id].tech, props[id].rule)
			} else {
				fmt.Println(id)
			}
		}
	case "dump":
		dump(os.Args[2:])
	}
}

func loadRepo() (*absint.Program, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	return absint.Load(repoDir(), "./MAPL_engine", env)
}

func dump(args []string) {
	t0 := time.Now()
	p, err := loadRepo()
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Println("load", time.Since(t0))
	t0 = time.Now()
	name := args[0]
	var fn *ssa.Function
	if i := strings.Index(name, "."); i > 0 {
		fn = p.Method(name[:i], name[i+1:])
	} else {
		fn = p.Func(name)
	}
	if fn == nil {
		fmt.Println("no function", name)
		os.Exit(2)
	}
	if len(args) > 1 && args[1] == "ssa" {
		fn.WriteTo(os.Stdout)
		return
	}
	opq := map[string]bool{}
	bounds := false
	for _, o := range args[1:] {
		opq[o] = true
		if o == "bounds" {
			bounds = true
		}
	}
	a := p.NewAnalysis()
	a.Bounds = bounds
	a.Opaque = func(n string) bool { return opq[n] }
	st := a.NewState()
	var vals []absint.Val
	for _, pa := range fn.Params {
		vals = append(vals, absint.Param(pa.Name(), pa.Type()))
	}
	rets := a.Run(st, fn, vals)
	for i, r := range rets {
		fmt.Printf("--- %d\n", i)
		for _, f := range r.St.FactList() {
			fmt.Println("   ", f)
		}
		if r.Panic != "" {
			fmt.Println("  PANIC", r.Panic, p.Pos(r.Pos))
		}
		for _, v := range r.Vals {
			fmt.Println("  =>", v.K())
		}
		for _, h := range r.St.HeapList() {
			fmt.Println("     mem", h)
		}
	}
	var u []string
	for k := range a.Undecided {
		u = append(u, k)
	}
	sort.Strings(u)
	fmt.Println("undecided:", u)
	fmt.Println("recs", len(a.Recs), "steps", a.Steps, time.Since(t0), "funcs", len(a.Funcs))
}
