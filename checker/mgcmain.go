package main

import (
	"fmt"
	"sort"
)

func init() {
	for _, seek := range []bool{false, true} {
		seek := seek
		checks[map[bool]string{false: "R", true: "RS"}[seek]] = &checkDef{run: func(ld *Loaded, r *Result) {
			e := newEngine(ld)
			e.initGlobals()
			readerClient(ld, e, seek)
			for _, k := range e.order {
				v := e.viols[k]
				r.violate(v.Tag+"|"+v.Key, v.Site, v.Msg, v.Path...)
			}
			var ks []string
			for k := range e.sites {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				fmt.Println("SITE", k, e.sites[k])
			}
			r.addCoverage(e)
		}}
	}
	checks["W"] = &checkDef{
		run: func(ld *Loaded, r *Result) {
			e := newEngine(ld)
			e.initGlobals()
			writerClient(ld, e)
			for _, k := range e.order {
				v := e.viols[k]
				r.violate(v.Tag+"|"+v.Key, v.Site, v.Msg, v.Path...)
			}
			var ks []string
			for k := range e.sites {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				fmt.Println("SITE", k, e.sites[k])
			}
			r.addCoverage(e)
		},
	}
}
