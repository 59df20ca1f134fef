package main

// Long analyses are parts that several checks use. A check that needs more
// than one runs each of them in a process of its own.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
)

type partUse struct {
	name string
	tags []string
}

type partDef struct {
	what string
	run  func(ld *Loaded, r *Result, e *Engine)
}

var partDefs = map[string]*partDef{
	"writer":     {"FileWriter", func(ld *Loaded, r *Result, e *Engine) { writerClient(ld, e) }},
	"reader":     {"FileReader", func(ld *Loaded, r *Result, e *Engine) { readerClient(ld, e, false) }},
	"seekreader": {"FileReader on a seekable stream", func(ld *Loaded, r *Result, e *Engine) { readerClient(ld, e, true) }},
	"props":      {"PropReader and PropWriter", func(ld *Loaded, r *Result, e *Engine) { encodeChecks(ld, r, e) }},
	"schema":     {"ReadSchema", func(ld *Loaded, r *Result, e *Engine) { schemaChecks(ld, e) }},
	"magic": {"Magic", func(ld *Loaded, r *Result, e *Engine) {
		magicChecks(ld, r, e)
		for _, v := range r.Viols {
			v.Tag = "magic"
			if strings.HasPrefix(v.Key, "swallow|") {
				v.Tag = "io"
			}
			if strings.HasPrefix(v.Key, "panic|") {
				v.Tag = "panic"
			}
		}
	}},
}

// partResult is what a part found: the violations of every tag.
type partResult struct {
	Viols     []*Violation
	Counts    map[string]int
	Functions []string
}

func runPartHere(ld *Loaded, name string) *partResult {
	d := partDefs[name]
	r := &Result{Cov: map[string]interface{}{}, Counts: map[string]int{}}
	e := newEngine(ld)
	e.initGlobals()
	guard(r, d.what, func() { d.run(ld, r, e) })
	p := &partResult{Viols: r.Viols, Counts: r.Counts}
	for _, k := range e.order {
		p.Viols = append(p.Viols, e.viols[k])
	}
	r.addCoverage(e)
	p.Functions, _ = r.Cov["functions"].([]string)
	return p
}

// merge takes the violations with one of the tags, and those without a tag,
// which say that the part is undecided.
func (r *Result) merge(p *partResult, tags []string) {
	for _, v := range p.Viols {
		ok := v.Tag == ""
		for _, t := range tags {
			ok = ok || t == v.Tag
		}
		if ok {
			r.violate(v.Key, v.Site, v.Msg, v.Path...)
		}
	}
	for k, n := range p.Counts {
		r.count(k, n)
	}
	old, _ := r.Cov["functions"].([]string)
	seen := map[string]bool{}
	for _, f := range old {
		seen[f] = true
	}
	for _, f := range p.Functions {
		if !seen[f] {
			old = append(old, f)
		}
	}
	sort.Strings(old)
	r.Cov["functions"] = old
}

type partProc struct {
	use partUse
	cmd *exec.Cmd
	out bytes.Buffer
	err bytes.Buffer
}

// startParts starts the parts in processes of their own.
func startParts(uses []partUse) (ps []*partProc, err error) {
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	for _, u := range uses {
		p := &partProc{use: u}
		p.cmd = exec.Command(self, "-part", u.name)
		p.cmd.Stdout, p.cmd.Stderr = &p.out, &p.err
		if err := p.cmd.Start(); err != nil {
			return ps, err
		}
		ps = append(ps, p)
	}
	return
}

func (r *Result) waitParts(ps []*partProc) {
	for _, p := range ps {
		var pr partResult
		err := p.cmd.Wait()
		if err == nil {
			err = json.Unmarshal(p.out.Bytes(), &pr)
		}
		if err != nil {
			r.violate("undecided|"+partDefs[p.use.name].what, "", fmt.Sprintf("the analysis failed: %v: %s", err, trunc(p.err.String(), 2000)))
			continue
		}
		r.merge(&pr, p.use.tags)
	}
}

// partMain is the process of one part.
func partMain(name string) int {
	if partDefs[name] == nil {
		fmt.Fprintln(os.Stderr, "unknown part", name)
		return 2
	}
	ld, err := load()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ld.buildSSA()
	b, err := json.Marshal(runPartHere(ld, name))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	os.Stdout.Write(b)
	return 0
}
