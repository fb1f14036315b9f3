package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	"verif/checker/engine"
)

func dump(repo string, args []string) {
	p, err := engine.Load(repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	t := time.Now()
	s := engine.NewSession(p)
	fmt.Println("mutable", engine.SortedKeys(s.Mutable), time.Since(t))
	for _, fn := range p.Funcs {
		if !strings.Contains(fn.String(), args[0]) || fn.Parent() != nil {
			continue
		}
		x, base := s.NewEngine()
		st, params := x.Start(base, fn)
		t := time.Now()
		outs, err := x.Run(fn, st, params)
		fmt.Println("==", fn, len(outs), err, time.Since(t), x.Steps)
		fmt.Println("   problems", engine.SortedKeys(x.Problems))
		for _, o := range x.Obligations {
			if o.Failed > 0 {
				fmt.Println("   OBL", o.Kind, p.Pos(o.Pos), o.Failed, o.Visits, o.Guard)
			}
		}
		if len(args) > 1 {
			for i, o := range outs {
				fmt.Println("  --", i, "panic", o.Panic, p.Pos(o.RetPos))
				for _, v := range o.Vals {
					fmt.Println("     ret", v)
				}
				for _, e := range o.St.Trace.Events() {
					fmt.Println("     ev", e.Kind, engine.Short(e.Name), e.Recv, e.Args, "->", e.Res, "ctx", e.Ctx)
					if e.Loop != nil {
						for _, l := range e.Loop.Lams {
							fmt.Println("        lam", l.Term, l.Init)
						}
						for _, b := range e.Loop.Backs {
							fmt.Println("        back")
							for k, v := range b.Upd {
								fmt.Println("          ", k, "<-", v)
							}
							for _, e := range b.Evs {
								fmt.Println("          ev", e.Kind, engine.Short(e.Name), e.Args, "->", e.Res)
							}
						}
					}
				}
				if len(args) > 2 {
					fmt.Println("     facts", o.St.Facts)
				}
			}
		}
	}
}
