package main

func init() {
	checks["C24"] = &Check{
		Rule: "every store, map update, deletion and append of every exported function and method is to an object it allocates, to a field of its receiver, to a list or map such a field exclusively owns, or is an append to a capped list",
		Run:  checkC24,
	}
}

func checkC24(c *C) {
	var runs []*Run
	for _, fn := range c.library() {
		runs = append(runs, c.Analyse(fn))
	}
	o := c.newOwnership(runs)
	var exp []*Run
	for _, r := range runs {
		if r.Fn.Object().Exported() {
			exp = append(exp, r)
		}
	}
	c.Count("functions", len(exp))
	c.writes(o, exp, func(r *Run) *T {
		if r.Fn.Signature.Recv() != nil {
			return r.Args[0]
		}
		return nil
	})
	c.Need("functions", 60)
	c.Need("writes", 50)
}
