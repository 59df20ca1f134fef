package main

// Command fgbcheck decides one property of gogama/flatgeobuf from its
// current source.
//
//	fgbcheck -prop C11 -tier quick -verif /verif

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Result collects what a check found and covered.
type Result struct {
	Prop        string
	Tier        string
	Viols       []*Violation
	Cov         map[string]interface{}
	Counts      map[string]int
	Explain     []string
	Assumptions []string
	Samples     []string
}

func (r *Result) count(k string, n int) { r.Counts[k] += n }
func (r *Result) sample(s string) {
	if len(r.Samples) < 12 {
		r.Samples = append(r.Samples, s)
	}
}
func (r *Result) violate(key, site, msg string, path ...string) {
	for _, v := range r.Viols {
		if v.Key == key && v.Site == site {
			return
		}
	}
	r.Viols = append(r.Viols, &Violation{Key: key, Site: site, Msg: msg, Path: path})
}

// need fails the check when fewer rule instances were analysed than known.
func (r *Result) need(k string, n int) {
	if r.Counts[k] < n {
		r.violate("coverage|"+k, "", fmt.Sprintf("only %d instances of %q were analysed, at least %d are expected: the rule no longer matches the code", r.Counts[k], k, n))
	}
}

type checkFn func(ld *Loaded, r *Result)

type checkDef struct {
	run     checkFn
	explain string
	assume  []string
	envs    []string
	parts   []partUse // analysed before run is called
}

var checks = map[string]*checkDef{}

type known struct{ prop, key, what string }

func readKnown(path string) (r []known) {
	f, err := os.Open(path)
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		i := strings.IndexByte(l, ' ')
		if i < 0 {
			continue
		}
		k := known{prop: l[:i]}
		l = strings.TrimSpace(l[i:])
		if !strings.HasPrefix(l, "key=\"") {
			continue
		}
		l = l[5:]
		j := strings.Index(l, "\" ")
		if j < 0 {
			continue
		}
		k.key, k.what = l[:j], strings.TrimSpace(l[j+2:])
		r = append(r, k)
	}
	return
}

func main() {
	debug.SetGCPercent(400)
	if p := os.Getenv("FGB_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
		if os.Getenv("FGB_PROFT") != "" {
			go func() { time.Sleep(250 * time.Second); pprof.StopCPUProfile(); os.Exit(3) }()
		}
	}
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	verif := flag.String("verif", "/verif", "framework directory")
	part := flag.String("part", "", "analysis to run, for a check that combines several")
	flag.Parse()
	if *part != "" {
		rc := partMain(*part)
		pprof.StopCPUProfile()
		os.Exit(rc)
	}
	if *prop == "list" {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	debug.SetGCPercent(400)
	start := time.Now()
	r := &Result{Prop: *prop, Tier: *tier, Cov: map[string]interface{}{}, Counts: map[string]int{}}
	d := checks[*prop]
	if d == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	var procs []*partProc
	if len(d.parts) > 1 {
		var err error
		if procs, err = startParts(d.parts); err != nil {
			r.violate("load", "", err.Error())
		}
	}
	ld, err := load(d.envs...)
	if err != nil {
		r.violate("load", "", err.Error())
	} else {
		ld.buildSSA()
		if len(d.parts) == 1 {
			r.merge(runPartHere(ld, d.parts[0].name), d.parts[0].tags)
		}
		r.waitParts(procs)
		guard(r, "analysis", func() { d.run(ld, r) })
		r.count("library functions in the program", len(ld.repoFns()))
	}
	r.Assumptions = append(r.Assumptions, d.assume...)
	r.Explain = append([]string{d.explain}, r.Explain...)
	rc := finish(r, *verif, time.Since(start))
	pprof.StopCPUProfile()
	os.Exit(rc)
}

// guard runs f and turns an undecided construct into a violation.
func guard(r *Result, what string, f func()) {
	defer func() {
		if x := recover(); x != nil {
			if u, ok := x.(undecidedErr); ok {
				if os.Getenv("FGB_STACK") != "" {
					fmt.Println(string(debug.Stack()))
				}
				r.violate("undecided|"+what, "", "the analysis cannot decide the property: "+u.msg)
				return
			}
			msg := fmt.Sprint(x)
			if os.Getenv("FGB_STACK") != "" {
				msg += "\n" + string(debug.Stack())
			}
			r.violate("undecided|"+what, "", "the analysis failed: "+msg)
		}
	}()
	f()
}

func finish(r *Result, verif string, d time.Duration) int {
	kn := readKnown(filepath.Join(verif, "known_findings.txt"))
	var bad []*Violation
	seenKnown := map[string]bool{}
	for _, v := range r.Viols {
		isKnown := false
		for _, k := range kn {
			if k.prop == r.Prop && k.key == v.Key {
				isKnown = true
				if !seenKnown[k.key] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, k.what)
				}
				seenKnown[k.key] = true
			}
		}
		if !isKnown {
			bad = append(bad, v)
		}
	}
	ev := filepath.Join(verif, "evidence")
	os.MkdirAll(ev, 0o755)
	replay := filepath.Join(ev, r.Prop+".violations.txt")
	os.Remove(replay)
	if len(bad) > 0 {
		var sb strings.Builder
		for _, v := range bad {
			fmt.Fprintf(&sb, "%s %s\n  rule: %s\n  %s\n", r.Prop, v.Site, v.Key, v.Msg)
			for _, p := range v.Path {
				fmt.Fprintf(&sb, "    path: %s\n", p)
			}
		}
		fmt.Print(trunc(sb.String(), 20000))
		os.WriteFile(replay, []byte(sb.String()), 0o644)
	}
	cov := map[string]interface{}{"explanation": strings.Join(r.Explain, " "), "counts": r.Counts, "samples": r.Samples, "known_findings": len(seenKnown)}
	for k, v := range r.Cov {
		cov[k] = v
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	out := map[string]interface{}{"property": r.Prop, "tier": r.Tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": r.Assumptions, "wall_s": d.Seconds(), "violations": len(bad)}
	b, _ := json.MarshalIndent(out, "", " ")
	if err := os.WriteFile(filepath.Join(ev, r.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if len(bad) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, replay)
		return 1
	}
	fmt.Printf("OK property=%s (%.1fs)\n", r.Prop, d.Seconds())
	return 0
}
