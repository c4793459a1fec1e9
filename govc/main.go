package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"sync"
	"time"
)

var allGoals []*Goal

func addGoal(g *Goal) { allGoals = append(allGoals, g) }

func runGoals(p *Program, goals []*Goal, limit time.Duration, par int, dbg bool) []*Result {
	out := make([]*Result, len(goals))
	sem := make(chan bool, par)
	var wg sync.WaitGroup
	for i, g := range goals {
		wg.Add(1)
		sem <- true
		go func(i int, g *Goal) {
			defer wg.Done()
			defer func() { <-sem }()
			out[i] = runGoal(p, g, limit, dbg)
		}(i, g)
	}
	wg.Wait()
	return out
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: govc goals|check ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("govc", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	match := fs.String("goal", "", "substring of the goal name")
	dbg := fs.Bool("v", false, "verbose")
	repo := fs.String("repo", "/repo", "repository")
	lim := fs.Int("limit", 300, "seconds per goal")
	vf := fs.String("verif", "/verif", "directory of the framework")
	par := fs.Int("j", 8, "parallel goals")
	fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "check":
		os.Exit(check(*prop, *repo, *vf, *par))
	case "goals":
		if !*dbg {
			clipLen = 300
		}
		t0 := time.Now()
		p, err := loadProgram(*repo, *prop == "C15" || *prop == "")
		if err != nil {
			fmt.Println("load:", err)
			os.Exit(1)
		}
		var gs []*Goal
		for _, g := range allGoals {
			if *prop != "" && !contains(g.Props, *prop) {
				continue
			}
			if !strings.Contains(g.Name, *match) {
				continue
			}
			gs = append(gs, g)
		}
		fmt.Println("loaded", time.Since(t0))
		for _, r := range runGoals(p, gs, time.Duration(*lim)*time.Second, *par, *dbg) {
			f := r.failed()
			st := "ok"
			if r.Err != "" {
				st = "ERR " + r.Err
			} else if len(f) > 0 {
				st = "FAIL"
			}
			fmt.Printf("%-32s %3d obligations %4d queries solver %v wall %v: %s\n", r.Goal.Name, len(r.Obls), r.Queries, r.SolverTime.Round(time.Millisecond), r.WallTime.Round(time.Millisecond), st)
			for i, o := range f {
				if i > 2 && !*dbg {
					break
				}
				fmt.Printf("     FAILED %s %s\n       %s\n", o.What, o.Where, clip(o.Detail))
			}
		}
	}
}

func contains(s []string, x string) bool {
	for _, y := range s {
		if y == x {
			return true
		}
	}
	return false
}
