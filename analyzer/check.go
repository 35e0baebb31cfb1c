package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"time"
)

type propCheck struct {
	run   func(*C)
	rule  string
	tech  string
	assum []string
}

var props = map[string]propCheck{}

func verifDir() string {
	if d := os.Getenv("MAPL_VERIF"); d != "" {
		return d
	}
	exe, err := os.Executable()
	if err == nil {
		return filepath.Dir(filepath.Dir(exe))
	}
	return "/verif"
}

// runCheck decides one property and reports.
func runCheck(id string) int {
	t0 := time.Now()
	pc, ok := props[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	p, err := loadRepo()
	var c *C
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot load the repository:", err)
		return 2
	}
	c = newC(p, id)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("MAPL_TRACE") != "" {
					debug.PrintStack()
				}
				c.Fail("decided", "analysis", 0, "the analysis stopped: %v", r)
			}
		}()
		pc.run(c)
	}()
	c.finish()
	known := loadKnown(filepath.Join(verifDir(), "known-findings.txt"))
	var viol []Violation
	var still []Known
	for _, v := range c.Viol {
		if k := known.match(id, v); k != nil {
			still = append(still, *k)
			continue
		}
		viol = append(viol, v)
	}
	total := 0
	for _, n := range c.Obl {
		total += n
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	var fns []string
	for f := range c.Funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	cov := map[string]interface{}{
		"explanation":         pc.rule,
		"functions_analysed":  fns,
		"paths":               c.Paths,
		"call_sites":          c.Calls,
		"loops":               c.Loops,
		"obligations":         total,
		"discharged":          total - len(c.Viol),
		"obligations_by_rule": c.Obl,
		"notes":               c.Notes,
		"known_findings":      still,
	}
	ev := map[string]interface{}{
		"property":    id,
		"tier":        tier,
		"seed":        seed,
		"level":       "other",
		"coverage":    cov,
		"wall_s":      time.Since(t0).Seconds(),
		"assumptions": pc.assum,
		"violations":  viol,
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	path := filepath.Join(dir, id+".json")
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, k := range still {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
	}
	fmt.Printf("%s: %d functions, %d paths, %d call sites, %d obligations, %d not established\n", id, len(fns), c.Paths, c.Calls, total, len(viol))
	if len(viol) == 0 {
		return 0
	}
	for _, v := range viol {
		fmt.Printf("  %s: %s [%s] %s\n", v.Pos, v.Construct, v.Rule, v.Detail)
	}
	fmt.Printf("VIOLATION property=%s replay=evidence/%s.json\n", id, id)
	return 1
}
