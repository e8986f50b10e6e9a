package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Finding struct{ key, what, pos string }

type Report struct {
	id         string
	ob, done   int
	viol       []Finding
	undec      []Finding
	funcs      map[string]bool
	paths      int
	samples    []string
	assume     []string
	extra      map[string]any
	violKeys   map[string]bool
	minOb      int
	unsupMerge map[string]bool
}

func newReport(id string) *Report {
	return &Report{id: id, funcs: map[string]bool{}, extra: map[string]any{}, violKeys: map[string]bool{}, unsupMerge: map[string]bool{}}
}

// check records one obligation.
func (r *Report) check(ok bool, key, pos, format string, a ...any) bool {
	r.ob++
	if ok {
		r.done++
		if len(r.samples) < 12 {
			r.samples = append(r.samples, key)
		}
		return true
	}
	r.fail(key, pos, format, a...)
	return false
}

func (r *Report) fail(key, pos, format string, a ...any) {
	what := fmt.Sprintf(format, a...)
	k := key + "|" + what
	if r.violKeys[k] {
		return
	}
	r.violKeys[k] = true
	r.viol = append(r.viol, Finding{key, what, pos})
}

func (r *Report) undecided(key, pos, format string, a ...any) {
	r.ob++
	r.undec = append(r.undec, Finding{key, fmt.Sprintf(format, a...), pos})
}

func (r *Report) covered(x *Exec) {
	for f := range x.funcs {
		r.funcs[f.String()] = true
	}
	for u := range x.unsupported {
		r.unsupMerge[u] = true
	}
}

func (r *Report) coverFn(f *ssa.Function) { r.funcs[f.String()] = true }

var verifDir = "/verif"

type known struct{ prop, key, what string }

func loadKnown() []known {
	f, err := os.Open(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var r []known
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property=")
		p := strings.SplitN(l, " ", 3)
		if len(p) < 3 || !strings.HasPrefix(p[1], "key=") {
			continue
		}
		r = append(r, known{p[0], strings.TrimPrefix(p[1], "key="), p[2]})
	}
	return r
}

// finish writes the evidence, prints the verdict and returns the exit code.
func (r *Report) finish(tier string, t0 time.Time, technique string) int {
	if r.ob < r.minOb {
		r.undecided("coverage", "", "only %d obligations were found, at least %d expected: the analysed construct is missing", r.ob, r.minOb)
	}
	all := append([]Finding{}, r.viol...)
	for _, u := range r.undec {
		all = append(all, Finding{u.key, "not decided: " + u.what, u.pos})
	}
	kn := loadKnown()
	var live []Finding
	seen := map[string]bool{}
	nKnown := 0
	for _, v := range all {
		hit := false
		for _, k := range kn {
			if k.prop == r.id && k.key == v.key {
				hit = true
				nKnown++
				if !seen[k.key] {
					seen[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", r.id, k.key, k.what)
				}
			}
		}
		if !hit {
			live = append(live, v)
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var fns []string
	for f := range r.funcs {
		fns = append(fns, trimMod(f))
	}
	sort.Strings(fns)
	cov := map[string]any{
		"obligations": r.ob, "discharged": r.done,
		"checker_cmd":  fmt.Sprintf("./check.sh %s %s", r.id, tier),
		"trusted_base": []string{"go/types and golang.org/x/tools/go/ssa", "/verif/checker (abstract interpreter, loop summaries, this check's rule)", "models of encoding/xml, strconv, fmt, math, strings and github.com/pkg/errors calls as uninterpreted functions with the stated contracts"},
		"technique":    technique, "functions_analysed": len(fns), "functions": fns, "abstract_paths": r.paths, "samples": r.samples,
		"known_findings": nKnown,
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	if len(r.unsupMerge) > 0 {
		var u []string
		for k := range r.unsupMerge {
			u = append(u, k)
		}
		sort.Strings(u)
		cov["constructs_treated_as_opaque"] = u
	}
	ev := map[string]any{"property": r.id, "tier": tier, "seed": seed, "level": levelOf(r.id), "coverage": cov,
		"assumptions": r.assume, "wall_s": time.Since(t0).Seconds(), "violations": len(live)}
	if r.assume == nil {
		ev["assumptions"] = []string{}
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", r.id+".json"), b, 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	if len(live) == 0 {
		fmt.Printf("OK property=%s obligations=%d discharged=%d functions=%d\n", r.id, r.ob, r.done, len(fns))
		return 0
	}
	rep := filepath.Join(verifDir, "evidence", r.id+".violation.txt")
	var s strings.Builder
	for i, v := range live {
		if i == 40 {
			fmt.Fprintf(&s, "... %d more\n", len(live)-i)
			break
		}
		fmt.Fprintf(&s, "%s: %s\n    rule %s of %s\n", v.pos, v.what, v.key, r.id)
		if i < 5 {
			fmt.Printf("%s: [%s] %.600s\n", v.pos, v.key, v.what)
		}
	}
	os.WriteFile(rep, []byte(s.String()), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, rep)
	return 1
}
