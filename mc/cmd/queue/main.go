// Command queue checks the token queue (C20) against a list model: all sequences of operations, up to a depth, on several
// queues, including queues made from one slice of the caller.
package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/tokenqueue"

	"verif/mc/core"
)

func main() { core.Main(map[string]func(*core.Run){"C20": c20}) }

var toks []*jargon.Token

func init() {
	for i := 0; i < 220000; i++ {
		v := "t" + strconv.Itoa(i)
		switch i % 7 {
		case 3:
			v = " "
		case 5:
			v = "\""
		case 6:
			v = "é\n"
		}
		toks = append(toks, jargon.NewToken(v, i%3 == 0))
	}
}

func printed(ts []*jargon.Token) string {
	var b strings.Builder
	b.WriteString("[")
	for i, t := range ts {
		if i > 0 {
			b.WriteString(" ")
		}
		b.WriteString(strconv.Quote(t.String()))
	}
	b.WriteString("]")
	return b.String()
}

// world is some queues, and what they should hold.
type world struct {
	c       *core.Ctx
	q       []*tokenqueue.TokenQueue
	m       [][]*jargon.Token
	next    int
	ops     []string
	callers [][]*jargon.Token // slices of the caller
	copies  [][]*jargon.Token
}

func (w *world) fresh(n int) []*jargon.Token {
	ts := make([]*jargon.Token, n, n+2)
	for i := range ts {
		ts[i] = toks[w.next]
		w.next++
	}
	w.callers = append(w.callers, ts)
	w.copies = append(w.copies, append([]*jargon.Token(nil), ts...))
	return ts
}

func (w *world) log(format string, args ...interface{}) {
	w.ops = append(w.ops, fmt.Sprintf(format, args...))
}

func (w *world) check(long bool) {
	h := uint64(17)
	for i, q := range w.q {
		m := w.m[i]
		if q.Len() != len(m) {
			w.c.Failf("queue %d: Len %d, expected %d", i, q.Len(), len(m))
		}
		if q.Any() != (len(m) > 0) {
			w.c.Failf("queue %d: Any %v with %d tokens", i, q.Any(), len(m))
		}
		if !long || len(m) < 64 {
			if got, want := q.String(), printed(m); got != want {
				w.c.Failf("queue %d: prints as %s, expected %s", i, got, want)
			}
		}
		h = core.HashInt(h, -1)
		for _, t := range m {
			h = core.HashStr(h, t.String())
		}
	}
	w.c.Step(h)
	w.caller()
}

func (w *world) caller() {
	for i, s := range w.callers {
		for j, t := range s {
			if t != w.copies[i][j] {
				w.c.Failf("a slice given to a queue changed: element %d is %q, was %q", j, t, w.copies[i][j])
			}
		}
	}
}

// end takes everything out.
func (w *world) end() {
	defer w.caller()
	out := uint64(5)
	for i, q := range w.q {
		if n := len(w.m[i]); n > 10000 { // popping takes long; the first and the last will do
			for k := 0; k < 10; k++ {
				if got, want := q.Pop(), w.m[i][k]; got != want {
					w.c.Failf("queue %d: token %d is %q, expected %q", i, k, got, want)
				}
			}
			q.Drop(n - 110)
			w.m[i] = w.m[i][n-100:]
		}
		for k, want := range w.m[i] {
			if got := q.Pop(); got != want {
				w.c.Failf("queue %d: token %d is %q, expected %q", i, k, got, want)
			}
			out = core.HashStr(out, want.String())
		}
		if q.Len() != 0 || q.Any() {
			w.c.Failf("queue %d: %d tokens left", i, q.Len())
		}
		out = core.HashInt(out, i)
	}
	w.c.Outcome(out)
}

type op struct {
	name string
	can  func(w *world, i, j int) bool
	do   func(w *world, i, j int)
}

func always(*world, int, int) bool { return true }

func push(n int) op {
	return op{fmt.Sprintf("push %d", n), always, func(w *world, i, j int) {
		ts := w.fresh(n)
		w.q[i].Push(ts...)
		w.m[i] = append(append([]*jargon.Token(nil), w.m[i]...), ts...)
	}}
}

func drop(n int) op {
	return op{fmt.Sprintf("drop %d", n), func(w *world, i, j int) bool { return len(w.m[i]) >= n }, func(w *world, i, j int) {
		w.q[i].Drop(n)
		w.m[i] = w.m[i][n:]
	}}
}

var pop = op{"pop", func(w *world, i, j int) bool { return len(w.m[i]) > 0 }, func(w *world, i, j int) {
	want := w.m[i][0]
	if got := w.q[i].Pop(); got != want {
		w.c.Failf("queue %d: popped %q, expected %q", i, got, want)
	}
	w.m[i] = w.m[i][1:]
}}
var clearOp = op{"clear", always, func(w *world, i, j int) { w.q[i].Clear(); w.m[i] = nil }}
var popTo = op{"pop to", func(w *world, i, j int) bool { return i != j && len(w.m[i]) > 0 }, func(w *world, i, j int) {
	w.q[i].PopTo(w.q[j])
	w.m[j] = append(append([]*jargon.Token(nil), w.m[j]...), w.m[i][0])
	w.m[i] = w.m[i][1:]
}}
var flushTo = op{"flush to", func(w *world, i, j int) bool { return i != j }, func(w *world, i, j int) {
	w.q[i].FlushTo(w.q[j])
	w.m[j] = append(append([]*jargon.Token(nil), w.m[j]...), w.m[i]...)
	w.m[i] = nil
}}
var dropHalf = op{"drop half", always, func(w *world, i, j int) {
	n := len(w.m[i]) / 2
	w.q[i].Drop(n)
	w.m[i] = w.m[i][n:]
}}
var dropAll = op{"drop all", always, func(w *world, i, j int) { w.q[i].Drop(len(w.m[i])); w.m[i] = nil }}

func (w *world) run(ops []op, depth int, long bool) {
	type step struct {
		o    op
		i, j int
	}
	w.check(long)
	for d := 0; d < depth; d++ {
		var can []step
		for i := range w.q {
			for _, o := range ops {
				if o.name == "pop to" || o.name == "flush to" {
					for j := range w.q {
						if o.can(w, i, j) {
							can = append(can, step{o, i, j})
						}
					}
				} else if o.can(w, i, i) {
					can = append(can, step{o, i, i})
				}
			}
		}
		s := can[w.c.Choose(len(can))]
		if s.i == s.j {
			w.log("%s q%d", s.o.name, s.i)
		} else {
			w.log("%s q%d q%d", s.o.name, s.i, s.j)
		}
		s.o.do(w, s.i, s.j)
		w.check(long)
	}
	w.end()
}

func start(c *core.Ctx, n int) *world {
	w := &world{c: c}
	c.Describe(func() string { return strings.Join(w.ops, "; ") })
	return w
}

func (w *world) add(ts ...*jargon.Token) {
	w.q = append(w.q, tokenqueue.New(ts...))
	w.m = append(w.m, append([]*jargon.Token(nil), ts...))
}

func c20(r *core.Run) {
	all := []op{push(1), push(2), push(0), pop, drop(0), drop(1), drop(2), drop(3), clearOp, popTo, flushTo}
	d := r.Pick(5, 7)
	r.Explore("operations", fmt.Sprintf("two new queues, all sequences of %d of the operations push 0-2, pop, drop 0-3, clear, pop to, flush to; contents compared after every operation, all taken out at the end", d), func(c *core.Ctx) {
		w := start(c, 2)
		w.add()
		w.add()
		w.run(all, d, false)
	})
	d2 := r.Pick(7, 9)
	r.Explore("longer", fmt.Sprintf("two new queues, all sequences of %d of push 1, pop, clear, pop to, flush to", d2), func(c *core.Ctx) {
		w := start(c, 2)
		w.add()
		w.add()
		w.run([]op{push(1), pop, clearOp, popTo, flushTo}, d2, false)
	})
	d3 := r.Pick(4, 5)
	r.Explore("three", fmt.Sprintf("three queues made from 0-3 tokens of the caller, the second from the same slice as the first, the third from a part of it with spare capacity; all sequences of %d operations", d3), func(c *core.Ctx) {
		w := start(c, 3)
		n := c.Choose(4)
		ts := w.fresh(n)
		w.log("new queues of %d tokens", n)
		w.add(ts...)
		w.add(ts...)
		w.add(ts[:n/2]...)
		w.run([]op{push(1), push(2), pop, drop(1), drop(2), clearOp, popTo, flushTo}, d3, false)
	})
	sizes := core.Sizes(5000, core.Around(4, 8, 16, 32, 64, 100, 128, 256, 512, 1000, 1024, 2048, 4096)...)
	d4 := r.Pick(2, 3)
	big := []op{push(1), pop, dropHalf, dropAll, clearOp, popTo, flushTo}
	large := core.Sizes(100000, core.Around(65536)...)
	body := func(sizes []int, d int) func(c *core.Ctx) {
		return func(c *core.Ctx) {
			w := start(c, 2)
			n := sizes[c.Choose(len(sizes))]
			one := c.Bool()
			k := c.Choose(2) * 3
			w.log("q0 with %d tokens (one by one %v), q1 with %d", n, one, k)
			if one {
				w.add()
				for i := 0; i < n; i++ {
					t := toks[w.next]
					w.next++
					w.q[0].Push(t)
					w.m[0] = append(w.m[0], t)
				}
			} else {
				w.add(w.fresh(n)...)
			}
			w.add(w.fresh(k)...)
			w.run(big, d, true)
		}
	}
	r.Explore("sizes", fmt.Sprintf("the first queue holding n tokens for n in %v (pushed at once or one by one), the second 0 or 3: all sequences of %d of push 1, pop, drop half, drop all, clear, pop to, flush to", sizes, d4), body(sizes, d4))
	r.Explore("large", fmt.Sprintf("the same with n in %v and one operation, then reading out", large), body(large, 1))
	// Through many rounds
	r.Explore("rounds", "for all a, b up to 6 and rounds up to 300: push a, pop min(b, len) in each round, everything moved to the other queue every c rounds", func(c *core.Ctx) {
		w := start(c, 2)
		a, b, e := 1+c.Choose(6), 1+c.Choose(6), 1+c.Choose(12)
		w.log("push %d pop %d every round, flush every %d", a, b, e)
		w.add()
		w.add()
		for i := 0; i < 300; i++ {
			for k := 0; k < a; k++ {
				t := toks[w.next]
				w.next++
				w.q[0].Push(t)
				w.m[0] = append(w.m[0], t)
			}
			for k := 0; k < b && len(w.m[0]) > 0; k++ {
				pop.do(w, 0, 0)
			}
			if i%e == e-1 {
				flushTo.do(w, 0, 1)
				for len(w.m[1]) > 5 {
					pop.do(w, 1, 1)
				}
			}
			w.check(true)
		}
		w.end()
	})
}
