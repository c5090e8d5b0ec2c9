package lib

import "fmt"

// Chooser resolves the nondeterministic choices of one execution: a prefix is replayed, later points take choice 0.
type Chooser struct {
	prefix []int
	Trace  []int
	ns     []int
	free   []bool
}

// Pick is a choice whose non-default alternatives each cost one deviation.
func (c *Chooser) Pick(n int) int { return c.pick(n, false) }

// Free is a choice all of whose alternatives are explored at no cost.
func (c *Chooser) Free(n int) int { return c.pick(n, true) }

func (c *Chooser) pick(n int, free bool) int {
	if n <= 0 {
		panic("empty choice")
	}
	i := len(c.Trace)
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v >= n {
			panic(fmt.Sprintf("replay diverged: choice %d of %d at point %d", v, n, i))
		}
	}
	c.Trace = append(c.Trace, v)
	c.ns = append(c.ns, n)
	c.free = append(c.free, free)
	return v
}

// Explore runs every execution with at most bound deviations, fewest deviations first. It returns the number of executions.
func Explore(bound int, stop func() bool, run func(c *Chooser)) (execs int) {
	type item struct{ p []int }
	level := []item{{nil}}
	for d := 0; d <= bound && len(level) > 0; d++ {
		var next []item
		for len(level) > 0 {
			it := level[0]
			level = level[1:]
			if stop != nil && stop() {
				return
			}
			c := &Chooser{prefix: it.p}
			run(c)
			execs++
			if len(c.Trace) < len(it.p) {
				panic("replay diverged: execution ended before its prefix")
			}
			for i := len(it.p); i < len(c.Trace); i++ {
				if !c.free[i] && d == bound {
					continue
				}
				for alt := 1; alt < c.ns[i]; alt++ {
					p := append(append(make([]int, 0, i+1), c.Trace[:i]...), alt)
					if c.free[i] {
						level = append(level, item{p})
					} else {
						next = append(next, item{p})
					}
				}
			}
		}
		level = next
	}
	return
}
