package checks

import (
	"fmt"
	"os"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
	"verif/analyzer/ai"
)

func init() { register("SWEEP", sweep) }

func sweep(c *Ctx) {
	var fns []*ssa.Function
	for _, fn := range c.R.Funcs() {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	only := os.Getenv("FN")
	for _, fn := range fns {
		if only != "" && fnName(fn) != only {
			continue
		}
		if fn.Blocks == nil || fn.Parent() != nil {
			continue
		}
		if b := os.Getenv("BUILDERS") != ""; b != isBuilder(fn) {
			continue
		}
		t := time.Now()
		mon := &ai.Monitor{Boundary: func(x *ai.Exec, st *ai.State, f *ssa.Function) bool {
			return evalBoundary(x, st, f) || isBuilder(f) && f != x.Entry
		}, OnPanic: func(x *ai.Exec, st *ai.State, w string, at ssa.Instruction) {
			x.Report(st, "panic", at, "%s", "")
		}}
		if os.Getenv("BUILDERS") != "" {
			mon.BoundaryCall = c.builderResult
		}
		x := ai.NewExec(c.E, fn, mon)
		x.Debug = c.Debug
		x.DebugJoin = os.Getenv("DJ") != ""
		x.MaxTime = 10 * time.Second
		func() {
			defer func() {
				if r := recover(); r != nil {
					x.Undecided = fmt.Sprint("CRASH ", r)
				}
			}()
			st, _ := c.startMethod(x)
			x.Run(st)
		}()
		fmt.Printf("%-60s %6.2fs ret %d pan %d find %d joins %d %s\n", fnName(fn), time.Since(t).Seconds(), x.Returns, x.Panics, len(x.Findings), x.Joins, x.Undecided+x.Bounded)
		seen := map[string]bool{}
		for _, f := range x.Findings {
			k := c.Pos(f.Pos)
			if !seen[k] {
				seen[k] = true
				fmt.Printf("      %s %s %s\n", f.Rule, k, f.Msg)
				if os.Getenv("TR") != "" {
					for _, l := range f.Trace {
						fmt.Println("           ", l)
					}
				}
			}
		}
	}
}
