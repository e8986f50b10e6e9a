package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type checkDef struct {
	run  func(r *Report)
	tech string
}

var checks = map[string]checkDef{}

func levelOf(id string) string {
	b, err := os.ReadFile(filepath.Join(verifDir, "MANIFEST.json"))
	if err == nil {
		var m struct {
			Checks []struct{ Property, Level string }
		}
		if json.Unmarshal(b, &m) == nil {
			for _, c := range m.Checks {
				if c.Property == id {
					return c.Level
				}
			}
		}
	}
	return "proof"
}

func main() {
	if exe, err := os.Executable(); err == nil {
		verifDir = filepath.Dir(filepath.Dir(exe))
	}
	if d := os.Getenv("VERIF_REPO"); d != "" { // development only: analyse another tree
		repoDir = d
	}
	if len(os.Args) < 3 {
		fmt.Println("usage: pmmlcheck ID TIER | dump FUNC... | golden")
		os.Exit(2)
	}
	debug.SetGCPercent(400)
	if f := os.Getenv("VERIF_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	spec := filepath.Join(verifDir, "spec")
	switch os.Args[1] {
	case "dump":
		if err := loadRepo(spec); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, n := range os.Args[2:] {
			dump(n)
		}
		return
	case "golden":
		if err := loadRepo(""); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		golden()
		return
	}
	code := 0
	tier := os.Args[2]
	if tier == "thorough" {
		pathLimit, loopStates = 4*pathLimit, 2*loopStates
	}
	ids := strings.Split(os.Args[1], ",")
	if os.Args[1] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	t0 := time.Now()
	err := loadRepo(spec)
	for _, id := range ids {
		if len(ids) > 1 {
			t0 = time.Now()
		}
		c, ok := checks[id]
		if !ok {
			fmt.Println("no check", id)
			os.Exit(2)
		}
		r := newReport(id)
		if len(ids) == 1 {
			go watch(r, tier, t0, c.tech)
		}
		if err != nil {
			r.undecided("load", "", "the repository does not type-check: %v", err)
		} else {
			guarded(r, "analysis", func() { c.run(r) })
		}
		if n := r.finish(tier, t0, c.tech); n > code {
			code = n
		}
	}
	pprof.StopCPUProfile()
	os.Exit(code)
}

// watch gives up with a definite answer before the check runs out of memory
// or time.
func watch(r *Report, tier string, t0 time.Time, tech string) {
	for {
		time.Sleep(500 * time.Millisecond)
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		over := ""
		if ms.HeapInuse > 14<<30 {
			over = "14 GB of memory"
		}
		if time.Since(t0) > 700*time.Second {
			over = "700 s"
		}
		if over != "" {
			q := newReport(r.id)
			q.undecided("budget", "", "the analysis does not finish within %s", over)
			os.Exit(q.finish(tier, t0, tech))
		}
	}
}

// guarded turns a failure of the analysis into an undecided obligation.
func guarded(r *Report, key string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(*undecidedErr); ok {
				r.undecided(key, "", "%s", u.msg)
				return
			}
			if os.Getenv("VERIF_DEBUG") != "" {
				panic(e)
			}
			r.undecided(key, "", "internal: %v", e)
		}
	}()
	f()
}

func findFunc(name string) *ssa.Function {
	for _, p := range []*ssa.Package{evalPkg, modPkg, specPkg} {
		if p == nil {
			continue
		}
		var r *ssa.Function
		forEachFunc(p, func(f *ssa.Function) {
			if f.Name() == name || strings.HasSuffix(f.String(), name) && strings.Contains(name, ".") {
				r = f
			}
		})
		if r != nil {
			return r
		}
	}
	return nil
}

func paramTerms(fn *ssa.Function) []*Term {
	var args []*Term
	for _, p := range fn.Params {
		args = append(args, mk("param", p.Name(), p.Type()))
	}
	return args
}

func dump(name string) {
	fn := findFunc(name)
	if fn == nil {
		fmt.Println("no function", name)
		return
	}
	x := newExec()
	args := paramTerms(fn)
	var free []*Term
	for _, p := range fn.FreeVars {
		free = append(free, mk("param", p.Name(), p.Type()))
	}
	if os.Getenv("XML") != "" {
		xmlHooks(x)
	}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(*undecidedErr); ok {
				fmt.Println("UNDECIDED:", u.msg)
				return
			}
			panic(r)
		}
	}()
	st := newState(x)
	outs := x.run(fn, args, free, st, "e")
	fmt.Printf("== %s: %d outcomes, %d forks\n", fn, len(outs), x.forks)
	for u := range x.unsupported {
		fmt.Println("unsupported", u)
	}
	if os.Getenv("BRIEF") != "" {
		return
	}
	printOutcomes(outs)
}

func printOutcomes(outs []Outcome) {
	for i, o := range outs {
		fmt.Printf("-- %d\n", i)
		for _, l := range o.st.lits() {
			fmt.Println("   if", l)
		}
		for _, r := range o.ret {
			v := o.st.reify(r, 0)
			fmt.Println("   ->", v)
		}
		if os.Getenv("LOOPS") != "" {
			seen := map[*LoopRecord]bool{}
			for n := o.st.loops; n != nil; n = n.prev {
				if !seen[n.rec] {
					seen[n.rec] = true
					printLoop(n.rec)
				}
			}
		}
		if os.Getenv("EV") != "" {
			for _, e := range flatEvents(o.st) {
				fmt.Println("   !", e.kind, e.addr, e.val, e.note, posString(e.pos))
			}
		}
	}
}

func printLoop(rec *LoopRecord) {
	fmt.Println("   loop", rec.name, "dom", rec.dom, "iter", rec.iter, "order", rec.order)
	for _, s := range rec.slots {
		fmt.Println("     slot", s.key, s.class, s.addr, s.phi, "entry", s.entry)
	}
	for _, t := range rec.trans {
		fmt.Println("     trans", describe(t.lits))
		for _, s := range rec.slots {
			if s.class != "inv" {
				fmt.Println("        ", s.key, ":=", t.next[s])
			}
		}
	}
	for _, ex := range rec.exits {
		fmt.Println("     exit", ex.kind, describe(ex.lits), ex.ret)
	}
}
