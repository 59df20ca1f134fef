package main

// C18 and C19: what the library writes, keeps and hands out, from the effect
// summaries of effects.go.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// initOnly are the functions that only package initialisation can call.
func initOnly(fns []*ssa.Function) map[*ssa.Function]bool {
	callers := map[*ssa.Function][]*ssa.Function{}
	taken := map[*ssa.Function]bool{}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				callee := ssa.Value(nil)
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee = c.Common().Value
					if g := c.Common().StaticCallee(); g != nil {
						callers[g] = append(callers[g], fn)
					}
				}
				var ops [12]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if f, ok := (*o).(*ssa.Function); ok && *o != callee {
						taken[f] = true
					}
				}
			}
		}
	}
	r := map[*ssa.Function]bool{}
	for again := true; again; {
		again = false
		for _, fn := range fns {
			if r[fn] {
				continue
			}
			ok := isInitFn(fn)
			if !ok && fn.Parent() != nil {
				ok = r[fn.Parent()]
			}
			if !ok && !taken[fn] && fn.Signature.Recv() == nil && fn.Object() != nil && !fn.Object().Exported() && len(callers[fn]) > 0 {
				ok = true
				for _, c := range callers[fn] {
					ok = ok && r[c]
				}
			}
			if ok {
				r[fn], again = true, true
			}
		}
	}
	return r
}

// exportedAPI are the exported functions and methods of a package, and its
// exported types' promoted methods.
func (ld *Loaded) exportedAPI(path string) (r []*ssa.Function) {
	for _, fn := range ld.repoFns() {
		if fnPkgPath(fn) != path || fn.Object() == nil || !fn.Object().Exported() || fn.Parent() != nil {
			continue
		}
		if recv := fn.Signature.Recv(); recv != nil {
			n := namedOf(recv.Type())
			if n == nil || !n.Obj().Exported() {
				continue
			}
		}
		r = append(r, fn)
	}
	return
}

func namedOf(T types.Type) *types.Named {
	if p, ok := T.Underlying().(*types.Pointer); ok {
		T = p.Elem()
	}
	n, _ := T.(*types.Named)
	return n
}

func isTree(T types.Type) bool {
	n := namedOf(T)
	return n != nil && n.Obj().Name() == "PackedRTree" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == prtPath
}

func treeMethod(fn *ssa.Function) bool {
	return fn.Signature.Recv() != nil && isTree(fn.Signature.Recv().Type()) && fn.Object() != nil && fn.Object().Exported()
}

// effectsOf solves the library, after finding out which functions the fields of
// a tree that a caller can have may hold.
func effectsOf(ld *Loaded) (*effects, []*ssa.Function) {
	all := ld.repoFns()
	skip := initOnly(all)
	var fns, prt []*ssa.Function
	for _, fn := range all {
		if !skip[fn] {
			fns = append(fns, fn)
		}
	}
	prt = ld.exportedAPI(prtPath)
	x := newEffects(ld)
	x.solve(prt...)
	tree := map[blob]bool{}
	for _, fn := range prt {
		s := x.sums[fn]
		var out blobs
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			if isTree(fn.Signature.Results().At(i).Type()) {
				if out == nil {
					out = blobs{}
				}
				out.addAll(s.results[i])
			}
		}
		for i, p := range fn.Params {
			if isTree(p.Type()) {
				if out == nil {
					out = blobs{}
				}
				out.addAll(s.content[blob(fmt.Sprintf("p%d", i))])
				out.addAll(s.content[blob(fmt.Sprintf("p%d*", i))])
			}
		}
		for b := range s.reached(out) {
			if isFnBlob(b) {
				tree[b] = true
			}
		}
	}
	y := newEffects(ld)
	y.treeFns = tree
	y.solve(fns...)
	return y, fns
}

// rootWrites are the blobs a call from outside may write.
func (x *effects) rootWrites(fn *ssa.Function) map[blob]string {
	s := x.sums[fn]
	r := map[blob]string{}
	for b, w := range s.writes {
		r[b] = w
	}
	for g, w := range s.guarded {
		if x.treeFns != nil && treeMethod(fn) && !x.treeFns[g.cand] && guardSet(g.guard).onlyParam(0) {
			continue
		}
		r[g.b] = w
	}
	return r
}

func (x *effects) rootContent(fn *ssa.Function) map[blob]blobs {
	s := x.sums[fn]
	r := map[blob]blobs{}
	put := func(b blob, c blobs) {
		if r[b] == nil {
			r[b] = blobs{}
		}
		r[b].addAll(c)
	}
	for b, c := range s.content {
		put(b, c)
	}
	for g, c := range s.gputs {
		if x.treeFns != nil && treeMethod(fn) && !x.treeFns[g.cand] && guardSet(g.guard).onlyParam(0) {
			continue
		}
		put(g.b, c)
	}
	return r
}

// reachIn is everything reachable from b given what the call stored.
func reachIn(content map[blob]blobs, b blobs) blobs {
	r := blobs{}
	r.addAll(b)
	for n := -1; n != len(r); {
		n = len(r)
		for o := range r {
			r.addAll(content[o])
			for i := 0; ; i++ {
				c, ok := content[bindBlob(o, i)]
				if !ok {
					break
				}
				r.addAll(c)
			}
			if deep(o) != o && o[0] != 'a' {
				r[deep(o)] = true
			}
		}
	}
	return r
}

// onlyParam: does everything in the set belong to parameter i?
func (b blobs) onlyParam(i int) bool {
	for o := range b {
		if !o.ofParam(i) && o[0] != 'a' {
			return false
		}
	}
	return len(b) > 0
}

// ofParam: does the blob belong to parameter i (what it points to, or deeper)?
func (b blob) ofParam(i int) bool {
	p := fmt.Sprintf("p%d", i)
	return string(b) == p || strings.HasPrefix(string(b), p+"*") || strings.HasPrefix(string(b), p+"&")
}

func isGlobalBlob(b blob) bool { return strings.HasPrefix(string(b), "g:") }

func keyFn(fn *ssa.Function) string { return short(fn) }

func treeChecks(ld *Loaded, r *Result, arch string) {
	x, fns := effectsOf(ld)
	r.count("functions"+arch, len(x.sums))
	r.count("stores and other writes"+arch, x.stores)
	r.count("calls resolved"+arch, x.calls)
	var names []string
	for _, fn := range fns {
		names = append(names, short(fn))
		for b, w := range x.rootWrites(fn) {
			switch {
			case isGlobalBlob(b):
				r.violate("global write|"+keyFn(fn)+"|"+string(b), w, short(fn)+" may write package-level state after initialisation: "+strings.TrimPrefix(string(b), "g:"))
			case b == "u":
				r.violate("unresolved|"+keyFn(fn), w, short(fn)+" may write memory the analysis cannot name: the call there is not resolved")
			}
		}
		for b, c := range x.rootContent(fn) {
			if isGlobalBlob(b) {
				r.violate("global keep|"+keyFn(fn)+"|"+string(b), "", short(fn)+" may store a reference in package-level state: "+strings.Join(c.list(), ", "))
			}
		}
		r.count("functions free of writes to package-level variables"+arch, 1)
		if !treeMethod(fn) {
			continue
		}
		r.count("tree methods"+arch, 1)
		for b, w := range x.rootWrites(fn) {
			if b.ofParam(0) {
				r.violate("tree write|"+keyFn(fn), w, short(fn)+" may write memory reachable from the tree")
			}
		}
		content := x.rootContent(fn)
		for i, c := range x.sums[fn].results {
			T := fn.Signature.Results().At(i).Type()
			if isErrorType(T) {
				continue
			}
			for b := range reachIn(content, c) {
				if b.ofParam(0) {
					r.violate("tree exposed|"+keyFn(fn), ld.position(fn.Pos(), nil), short(fn)+" returns memory of the tree, which its caller may write")
				}
			}
		}
	}
	for what, n := range x.opaque {
		r.violate("unresolved call|"+what, "", fmt.Sprintf("%d calls of %s: their effects are unknown", n, what))
	}
	if arch == "" {
		sort.Strings(names)
		r.Cov["functions"] = names
	}
}

// freshResult: the results with memory of their own.
var freshAPI = map[string]bool{"FileReader": true, "PropReader": true}
var writerAPI = map[string]bool{"FileWriter": true, "PropWriter": true}

func aliasChecks(ld *Loaded, r *Result) {
	x, _ := effectsOf(ld)
	r.count("functions", len(x.sums))
	r.count("stores and other writes", x.stores)
	apis := append(ld.exportedAPI(fgbPath), ld.exportedAPI(prtPath)...)
	var names []string
	for _, fn := range apis {
		s := x.sums[fn]
		content := x.rootContent(fn)
		writes := x.rootWrites(fn)
		recv := ""
		if v := fn.Signature.Recv(); v != nil {
			if n := namedOf(v.Type()); n != nil {
				recv = n.Obj().Name()
			}
		}
		site := ld.position(fn.Pos(), nil)
		pkg := fnPkgPath(fn)
		// what the object and the package keep after the call
		kept := blobs{}
		if recv != "" {
			for _, b := range []blob{"p0", "p0*"} {
				kept.addAll(content[b])
			}
		}
		for b, c := range content {
			if isGlobalBlob(b) {
				kept.addAll(c)
			}
		}
		kept = reachIn(content, kept)
		switch {
		case pkg == fgbPath && freshAPI[recv]:
			names = append(names, short(fn))
			out := blobs{}
			for i, c := range s.results {
				T := fn.Signature.Results().At(i).Type()
				if isErrorType(T) || isTree(T) {
					continue
				}
				if pointy(T) {
					r.count("reader results with memory", 1)
				}
				out.addAll(c)
			}
			out = reachIn(content, out)
			// arguments the call fills
			for i, p := range fn.Params {
				if i == 0 || !pointy(p.Type()) {
					continue
				}
				pb := blob(fmt.Sprintf("p%d", i))
				if c := content[pb]; len(c) > 0 {
					r.count("reader arguments filled", 1)
					out.addAll(reachIn(content, c))
				}
				for b := range kept {
					if b.ofParam(i) {
						r.violate("keeps argument|"+keyFn(fn)+"|"+p.Name(), site, short(fn)+" keeps a reference to its argument "+p.Name())
					}
				}
			}
			for b := range out {
				switch {
				case isFnBlob(b), b == blob("a:panic value"):
				case b.ofParam(0):
					r.violate("shared with reader|"+keyFn(fn), site, short(fn)+" returns memory that belongs to the reader, which later calls may write")
				case isGlobalBlob(b):
					r.violate("shared global|"+keyFn(fn), site, short(fn)+" returns memory of a package-level variable: "+string(b))
				case b == "u":
					r.violate("unresolved|"+keyFn(fn), site, short(fn)+" returns memory the analysis cannot name")
				case kept[b] && b[0] == 'a':
					if !errorAlloc(b) {
						r.violate("kept|"+keyFn(fn)+"|"+lastAlloc(b), site, short(fn)+" returns memory allocated at "+lastAlloc(b)+" and keeps a reference to it")
					}
				}
			}
		case pkg == fgbPath && writerAPI[recv]:
			names = append(names, short(fn))
			for i, p := range fn.Params {
				if i == 0 || !pointy(p.Type()) {
					continue
				}
				r.count("writer arguments", 1)
				for b, w := range writes {
					if b.ofParam(i) {
						r.violate("modifies argument|"+keyFn(fn)+"|"+p.Name(), w, short(fn)+" may write to its argument "+p.Name())
					}
				}
				for b := range kept {
					if b.ofParam(i) {
						r.violate("keeps argument|"+keyFn(fn)+"|"+p.Name(), site, short(fn)+" keeps a reference to its argument "+p.Name())
					}
				}
			}
		case pkg == prtPath:
			trees := blobs{}
			for i, c := range s.results {
				if isTree(fn.Signature.Results().At(i).Type()) {
					trees.addAll(c)
				}
			}
			if len(trees) == 0 {
				continue
			}
			names = append(names, short(fn))
			trees = reachIn(content, trees)
			for i, p := range fn.Params {
				if !pointy(p.Type()) {
					continue
				}
				r.count("tree constructor arguments", 1)
				for b := range trees {
					if b.ofParam(i) {
						r.violate("tree keeps argument|"+keyFn(fn)+"|"+p.Name(), site, "the tree made by "+short(fn)+" keeps a reference to its argument "+p.Name())
					}
				}
				for b, w := range writes {
					if b.ofParam(i) {
						r.violate("modifies argument|"+keyFn(fn)+"|"+p.Name(), w, short(fn)+" may write to its argument "+p.Name())
					}
				}
			}
		}
	}
	sort.Strings(names)
	r.Cov["functions"] = append(names, func() []string { l, _ := r.Cov["functions"].([]string); return l }()...)
}

func lastAlloc(b blob) string {
	s := string(b)
	if i := strings.LastIndexByte(s, '>'); i >= 0 {
		s = s[i+1:]
	}
	if i := strings.IndexByte(s, '#'); i >= 0 {
		s = s[:i]
	}
	return strings.TrimPrefix(s, "a:")
}

func errorAlloc(b blob) bool { return false }

func init() {
	assume := []string{"Read, Write, Seek and Close of a caller's stream do as documented: Write does not modify or keep its argument, Read writes only its argument and does not keep it",
		"memory is divided by allocation site and chain of up to three call sites; what one parameter leads to is one region, apart from what it points to directly"}
	checks["C18"] = &checkDef{
		explain: "Effect analysis: for every function of the library, the memory it may write (parameters, captured variables, package-level variables, its own allocations) is computed as a fixpoint over the SSA form, through calls, closures and function values; the function values a tree can hold are those that the constructors store in it. No function outside package initialisation may write or store a reference in a package-level variable, and no exported method of PackedRTree may write, or hand out, memory reachable from its receiver; for a little-endian and a big-endian architecture.",
		assume:  assume,
		run: func(ld *Loaded, r *Result) {
			treeChecks(ld, r, "")
			be, err := load("GOARCH=s390x", "CGO_ENABLED=0")
			if err != nil {
				r.violate("load|s390x", "", err.Error())
				return
			}
			be.buildSSA()
			guard(r, "analysis (big-endian)", func() { treeChecks(be, r, " (big-endian)") })
			for _, a := range []string{"", " (big-endian)"} {
				r.need("functions"+a, 150)
				r.need("stores and other writes"+a, 100)
				r.need("tree methods"+a, 6)
			}
		},
	}
	checks["C19"] = &checkDef{
		explain: "The effect analysis of C18 gives, for each exported method, the memory its results lead to and what the receiver keeps. What FileReader and PropReader return, or store in the caller's feature slice, must be memory allocated by the call to which the reader keeps no reference; FileWriter and PropWriter methods must not write, or keep references to, their arguments; a tree must not keep references to the arguments of its constructor. " + readerExplain + "Within a call, each feature and the header must have a buffer of its own.",
		assume:  append(assume, ioAssume...),
		parts:   []partUse{{"reader", []string{"alias"}}, {"seekreader", []string{"alias"}}},
		run: func(ld *Loaded, r *Result) {
			aliasChecks(ld, r)
			needReader(r)
			r.need("reader results with memory", 6)
			r.need("reader arguments filled", 1)
			r.need("writer arguments", 7)
			r.need("tree constructor arguments", 2)
		},
	}
}
