package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type check struct {
	title string
	run   func(x *Ctx)
}

var checks = map[string]check{}

// usage: analyzer <repo> <verif> <property|all> [quick|thorough]
func main() {
	if os.Getenv("AN_STATES") != "" {
		dbgStates = func(k string) { fmt.Fprintln(os.Stderr, "STATE", k) }
	}
	if len(os.Args) < 4 {
		fmt.Fprintln(os.Stderr, "usage: analyzer repo verif property [tier]")
		os.Exit(2)
	}
	debug.SetGCPercent(400)
	if out := os.Getenv("AN_PROF"); out != "" {
		if w, err := os.Create(out); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	repo, verif, id := os.Args[1], os.Args[2], os.Args[3]
	tier := "quick"
	if len(os.Args) > 4 {
		tier = os.Args[4]
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ids := strings.Split(id, ",")
	if id == "all" {
		ids = nil
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
	}
	status := 0
	if os.Getenv("AN_PROF") != "" {
		runCheck(repo, verif, ids[0], tier, seed)
		return
	}
	for _, id := range ids {
		if r := runCheck(repo, verif, id, tier, seed); r > status {
			status = r
		}
	}
	os.Exit(status)
}

func runCheck(repo, verif, id, tier string, seed int) int {
	start := time.Now()
	ck, ok := checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "no check for", id)
		return 2
	}
	x := &Ctx{ID: id, Tier: tier, Deep: tier == "thorough", Fns: map[*ssa.Function]bool{}, Extra: map[string]any{}}
	p, err := loadProgram(repo)
	if err != nil {
		if _, ok := err.(anchorError); ok {
			x.ob("anchor", repo, false, err.Error())
			return x.finish(start, verif, seed)
		}
		fmt.Fprintln(os.Stderr, "cannot load the repository:", err)
		x.ob("the current source can be loaded and type-checked", repo, false, err.Error())
		return x.finish(start, verif, seed)
	}
	x.P = p
	func() {
		defer func() {
			if r := recover(); r != nil {
				x.ob("undecided construct", "analyzer", false, fmt.Sprintf("internal failure of the analysis: %v\n%s", r, debug.Stack()))
			}
		}()
		ck.run(x)
		x.runTasks()
	}()
	return x.finish(start, verif, seed)
}
