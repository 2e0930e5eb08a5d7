//go:build go1.22

// Package dag monitors the scheduler and the graphs it is made of, by recording
// every request and reply, and comparing them with small reference models.
package dag

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/sjansen/pgutil/internal/dag"
	"github.com/sjansen/pgutil/internal/runbook/scheduler"
	"github.com/sjansen/pgutil/internal/runbook/types"
	"github.com/sjansen/pgutil/internal/zverif/vk"
)

func TestVerif(t *testing.T) { vk.Main(t) }

type target struct{ limit int }

func (t *target) Analyze() error                                 { return nil }
func (t *target) ConcurrencyLimit() int                          { return t.limit }
func (t *target) Handle(context.Context, types.TaskConfig) error { return nil }
func (t *target) NewTaskConfig(string) (types.TaskConfig, error) { return nil, nil }
func (t *target) Start() error                                   { return nil }
func (t *target) Stop() error                                    { return nil }

type graph map[string][]string

func (g graph) nodes() []string {
	l := make([]string, 0, len(g))
	for n := range g {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

// names are chosen so that neither sorting them, nor how they're spelled, agrees
// with the order they're used in
func names(r *rand.Rand, n int) []string {
	odd := []string{"", " ", "a b", "é", "z/../a", "\x00", "0", "00", "A", "a"}
	l := make([]string, n)
	for i := range l {
		l[i] = vk.Stretch(r, fmt.Sprintf("n%d", i), 300)
	}
	for i := 0; i < n && i < len(odd); i++ {
		if r.Intn(6) == 0 {
			l[i] = odd[i]
		}
	}
	if r.Intn(4) == 0 {
		seen := map[string]bool{}
		for _, id := range l {
			seen[id] = true
		}
		for i := range l {
			if id := vk.Odd(r); !seen[id] {
				seen[id], l[i] = true, id
			}
		}
	}
	r.Shuffle(n, func(i, j int) { l[i], l[j] = l[j], l[i] })
	return l
}

func acyclic(r *rand.Rand, n int) graph {
	l := names(r, n)
	g := graph{}
	density := []int{0, 5, 15, 30, 60, 90}[r.Intn(6)]
	for i, x := range l {
		after := []string{}
		for _, y := range l[:i] {
			if r.Intn(100) < density {
				after = append(after, y)
			}
		}
		if len(after) > 0 && r.Intn(5) == 0 {
			after = append(after, after[r.Intn(len(after))])
		}
		r.Shuffle(len(after), func(i, j int) { after[i], after[j] = after[j], after[i] })
		if len(after) == 0 && r.Intn(2) == 0 {
			after = nil
		}
		g[x] = after
	}
	return g
}

// hub has a node that depends on many others, and another one many depend on
func hub(r *rand.Rand, many int) graph {
	k := many - 3 + r.Intn(7)
	if r.Intn(4) > 0 {
		k = many
	}
	g := graph{}
	var l []string
	for i := 0; i < k; i++ {
		n := fmt.Sprintf("n%d", i)
		l = append(l, n)
		g[n] = nil
	}
	r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	middle := []string{"hub", "a hub", "n", "z"}[r.Intn(4)]
	g[middle] = append([]string{}, l...)
	if r.Intn(2) == 0 {
		g["root"] = nil
		for _, n := range l {
			if r.Intn(8) > 0 {
				g[n] = []string{"root"}
			}
		}
	}
	for i := r.Intn(4); i > 0; i-- {
		g[fmt.Sprint("last", i)] = []string{middle}
	}
	if r.Intn(4) == 0 {
		for i := 0; i < k; i++ {
			g[fmt.Sprint("last", i)] = []string{middle}
		}
	}
	return g
}

// many is how many nodes a hub has; a byte can't count them
func many(r *rand.Rand) int {
	return []int{64, 65, 128, 255, 256, 256, 257, 512, 1 + vk.Size(r, 600)}[r.Intn(9)]
}

// kept is a list that was returned, which may not change anymore
type kept struct{ now, then []string }

func keep(l []string) kept { return kept{l, append([]string{}, l...)} }

func unchanged(cs *vk.Case, l []kept) {
	for i, k := range l {
		if strings.Join(k.now, "\x00") != strings.Join(k.then, "\x00") {
			cs.Violatef("the list returned by call %d changed from %q to %q", i, k.then, k.now)
			return
		}
	}
	cs.Count("returned_lists_kept", len(l))
}

func (g graph) clone() map[string][]string {
	c := map[string][]string{}
	for n, l := range g {
		if l == nil {
			c[n] = nil
			continue
		}
		c[n] = append([]string{}, l...)
	}
	return c
}

func (g graph) key() string { return vk.JSON(g) }

// cyclic decides by repeatedly removing whatever has no dependencies left
func (g graph) cyclic() bool {
	left := map[string]int{}
	dependents := map[string][]string{}
	var free []string
	for n, l := range g {
		for _, m := range l {
			left[n]++
			dependents[m] = append(dependents[m], n)
		}
		if len(l) == 0 {
			free = append(free, n)
		}
	}
	removed := 0
	for len(free) > 0 {
		n := free[len(free)-1]
		free = free[:len(free)-1]
		removed++
		for _, o := range dependents[n] {
			if left[o]--; left[o] == 0 {
				free = append(free, o)
			}
		}
	}
	return removed < len(g)
}

// shaped is a graph with many paths, or with long ones
func shaped(r *rand.Rand, max int) graph {
	k := 2 + vk.Size(r, max)
	name := []func(i int) string{
		func(i int) string { return fmt.Sprintf("n%d", i) },
		func(i int) string { return fmt.Sprintf("%06d", i) },
		func(i int) string { return fmt.Sprintf("%06d", k*4-i) },
	}[r.Intn(3)]
	g := graph{}
	switch r.Intn(4) {
	case 0: // a chain
		g[name(0)] = nil
		for i := 1; i < k; i++ {
			g[name(i)] = []string{name(i - 1)}
		}
	case 1: // a ladder, whose paths nobody can enumerate
		width := 2 + r.Intn(3)
		for i := 0; i < k; i++ {
			for j := 0; j < width; j++ {
				n := name(i*width + j)
				g[n] = nil
				for h := 0; i > 0 && h < width; h++ {
					g[n] = append(g[n], name((i-1)*width+h))
				}
			}
		}
	case 2: // steps that depend on those shortly before them
		for i := 0; i < k; i++ {
			g[name(i)] = nil
			for j := 1; j < 4; j++ {
				if i-j >= 0 && r.Intn(3) > 0 {
					g[name(i)] = append(g[name(i)], name(i-j))
				}
			}
		}
	default: // a tree
		for i := 0; i < k; i++ {
			g[name(i)] = nil
			if i > 0 {
				g[name(i)] = []string{name((i - 1) / 2)}
				if r.Intn(2) == 0 {
					g[name(i)] = []string{name(i - 1 - r.Intn((i+3)/4))}
				}
			}
		}
	}
	return g
}

func (g graph) edge(n, m string) bool {
	for _, x := range g[n] {
		if x == m {
			return true
		}
	}
	return false
}

// genuine reports whether each node of a cycle is a dependency of the next one
func (g graph) genuine(cycle []string) bool {
	if len(cycle) == 0 {
		return false
	}
	seen := map[string]bool{}
	for i, n := range cycle {
		if seen[n] {
			return false
		}
		seen[n] = true
		if !g.edge(cycle[(i+1)%len(cycle)], n) {
			return false
		}
	}
	return true
}

// ------------------------------------------------------------- scheduler

type run struct {
	g      graph
	where  map[string]string
	limits map[string]int
}

func (x *run) start() (*scheduler.Scheduler, map[string][]string, error) {
	targets := types.Targets{}
	for q, l := range x.limits {
		targets[q] = &target{l}
	}
	tasks := types.Tasks{}
	for n, after := range x.g.clone() {
		tasks[n] = &types.Task{Target: x.where[n], After: after}
	}
	return scheduler.New(targets, tasks)
}

type model struct {
	x           *run
	released    map[string]bool
	done        map[string]bool
	outstanding map[string]int
	log         []string
	kept        []kept
}

func newModel(x *run) *model {
	return &model{x: x, released: map[string]bool{}, done: map[string]bool{}, outstanding: map[string]int{}}
}

func (m *model) depsDone(n string) bool {
	for _, d := range m.x.g[n] {
		if !m.done[d] {
			return false
		}
	}
	return true
}

// observe a reply
func (m *model) observe(cs *vk.Case, ready map[string][]string) {
	qids := make([]string, 0, len(ready))
	for q := range ready {
		qids = append(qids, q)
	}
	sort.Strings(qids)
	for _, q := range qids {
		m.kept = append(m.kept, keep(ready[q]))
		for _, n := range ready[q] {
			m.log = append(m.log, fmt.Sprintf("released %q on %q", n, q))
			want, ok := m.x.where[n]
			switch {
			case !ok:
				cs.Violatef("released %q, which isn't a task", n)
			case want != q:
				cs.Violatef("released task %q to target %q, instead of %q", n, q, want)
			case m.released[n]:
				cs.Violatef("released task %q again", n)
			case !m.depsDone(n):
				cs.Violatef("released task %q before the tasks it depends on were completed", n)
			}
			m.released[n] = true
			m.outstanding[q]++
		}
	}
	for q, k := range m.outstanding {
		if k > m.x.limits[q] {
			cs.Violatef("%d tasks outstanding on target %q, whose limit is %d", k, q, m.x.limits[q])
		}
	}
	for _, n := range m.x.g.nodes() {
		q := m.x.where[n]
		if !m.released[n] && m.depsDone(n) && m.outstanding[q] < m.x.limits[q] {
			cs.Violatef("task %q isn't released, although it could be started", n)
		}
	}
}

func (m *model) complete(n string) {
	m.done[n] = true
	m.outstanding[m.x.where[n]]--
	m.log = append(m.log, fmt.Sprintf("completed %q", n))
}

// running lists the tasks that could be completed next
func (m *model) running() []string {
	var l []string
	for _, n := range m.x.g.nodes() {
		if m.released[n] && !m.done[n] {
			l = append(l, n)
		}
	}
	return l
}

func (m *model) allReleased() bool { return len(m.released) == len(m.x.g) }

// play completes tasks in the order chosen by pick, and reports how many
// alternatives each choice had
func (x *run) play(cs *vk.Case, pick func(n int) int) (choices []int) {
	s, ready, err := x.start()
	if err != nil {
		cs.Violatef("rejected a valid graph: %v", err)
		return nil
	}
	m := newModel(x)
	m.observe(cs, ready)
	for !cs.Bad() {
		l := m.running()
		if len(l) == 0 {
			break
		}
		i := pick(len(l))
		choices = append(choices, len(l))
		last := m.allReleased()
		m.complete(l[i])
		ready, err := s.Next(l[i])
		switch {
		case last && err != scheduler.ErrNoPendingTasks:
			cs.Violatef("all tasks had been released, but the scheduler replied %v, %v", ready, err)
		case last && len(ready) > 0:
			cs.Violatef("all tasks had been released, but the scheduler released %v", ready)
		case !last && err != nil:
			cs.Violatef("there are tasks left to release, but the scheduler failed: %v", err)
		case !last:
			m.observe(cs, ready)
		}
		cs.Count("scheduler_replies", 1)
	}
	unchanged(cs, m.kept)
	if !cs.Bad() && !m.allReleased() {
		cs.Violatef("%d of %d tasks were never released", len(x.g)-len(m.released), len(x.g))
	}
	cs.Detail(strings.Join(m.log, "\n"))
	cs.Count("tasks_completed", len(m.done))
	if len(x.g) > 1 {
		cs.Nontrivial(x.g.key() + strings.Join(m.log, "\n"))
	}
	cs.Sample(map[string]interface{}{"graph": x.g, "targets": x.where, "limits": x.limits, "history": m.log})
	return choices
}

func assign(r *rand.Rand, g graph) *run {
	x := &run{g: g, where: map[string]string{}, limits: map[string]int{}}
	k := 1 + vk.Several(r, 4, 60)
	if len(g) > 30 && r.Intn(3) == 0 {
		k = 1 + vk.Size(r, 300)
	}
	for i := 0; i < k; i++ {
		x.limits[fmt.Sprintf("q%d", i)] = []int{1, 1, 2, 3, 5, 1 << 40, 1 + vk.Size(r, 300)}[r.Intn(7)]
	}
	for _, n := range g.nodes() {
		x.where[n] = fmt.Sprintf("q%d", r.Intn(k))
	}
	return x
}

// smallGraph decodes i as an acyclic graph of n nodes
func smallGraph(n, i int) graph {
	l := []string{"c", "a", "d", "b"}[:n]
	g := graph{}
	for a := 0; a < n; a++ {
		g[l[a]] = []string{}
		for b := 0; b < a; b++ {
			if i&1 == 1 {
				g[l[a]] = append(g[l[a]], l[b])
			}
			i >>= 1
		}
	}
	return g
}

func schedulers(c *vk.Ctx) {
	c.Cases("random", c.N(6000, 120000), func(cs *vk.Case) {
		x := assign(cs.R, acyclic(cs.R, vk.Several(cs.R, 13, 150)))
		cs.Describe(map[string]interface{}{"graph": x.g, "targets": x.where, "limits": x.limits})
		switch cs.R.Intn(3) {
		case 0:
			x.play(cs, func(n int) int { return n - 1 })
		default:
			x.play(cs, cs.R.Intn)
		}
	})
	c.Cases("hubs", c.N(16, 300), func(cs *vk.Case) {
		x := assign(cs.R, hub(cs.R, many(cs.R)))
		cs.Describe(map[string]interface{}{"graph": x.g, "targets": x.where, "limits": x.limits})
		x.play(cs, cs.R.Intn)
	})
	c.Cases("shaped", c.N(40, 600), func(cs *vk.Case) {
		x := assign(cs.R, shaped(cs.R, 400))
		cs.Describe(map[string]interface{}{"graph": x.g, "targets": x.where, "limits": x.limits})
		x.play(cs, cs.R.Intn)
	})
	c.Cases("large", c.N(60, 1500), func(cs *vk.Case) {
		x := assign(cs.R, acyclic(cs.R, 20+vk.Size(cs.R, 250)))
		cs.Describe(map[string]interface{}{"graph": x.g, "targets": x.where, "limits": x.limits})
		x.play(cs, cs.R.Intn)
	})
	// every graph of up to 4 tasks, with every assignment to two targets, every
	// choice of limits from {1, 2}, and every order of completion
	type shape struct{ n, g, where, lim int }
	var shapes []shape
	for n := 1; n <= 4; n++ {
		for g := 0; g < 1<<(n*(n-1)/2); g++ {
			for w := 0; w < 1<<n; w++ {
				for lim := 0; lim < 4; lim++ {
					shapes = append(shapes, shape{n, g, w, lim})
				}
			}
		}
	}
	c.Cases("small", len(shapes), func(cs *vk.Case) {
		sh := shapes[cs.I]
		x := &run{g: smallGraph(sh.n, sh.g), where: map[string]string{},
			limits: map[string]int{"q0": 1 + sh.lim&1, "q1": 1 + sh.lim>>1}}
		for i, n := range x.g.nodes() {
			x.where[n] = fmt.Sprintf("q%d", sh.where>>i&1)
		}
		cs.Describe(map[string]interface{}{"graph": x.g, "targets": x.where, "limits": x.limits})
		script := []int{}
		for {
			step := 0
			choices := x.play(cs, func(n int) int {
				k := 0
				if step < len(script) {
					k = script[step]
				}
				step++
				return k
			})
			if cs.Bad() {
				return
			}
			cs.Count("exhaustive_histories", 1)
			// the next script, in the order of an odometer
			for len(script) < len(choices) {
				script = append(script, 0)
			}
			script = script[:len(choices)]
			i := len(script) - 1
			for i >= 0 && script[i]+1 >= choices[i] {
				i--
			}
			if i < 0 {
				return
			}
			script = script[:i+1]
			script[i]++
		}
	})
	c.Cases("invalid", c.N(1500, 20000), func(cs *vk.Case) {
		x := assign(cs.R, acyclic(cs.R, 1+vk.Several(cs.R, 9, 100)))
		l := x.g.nodes()
		dangling := cs.R.Intn(2) == 0
		if dangling {
			n := l[cs.R.Intn(len(l))]
			x.g[n] = append(x.g[n], vk.Like(cs.R, l))
		} else {
			for !x.g.cyclic() {
				n := l[cs.R.Intn(len(l))]
				x.g[n] = append(x.g[n], l[cs.R.Intn(len(l))])
			}
		}
		cs.Describe(map[string]interface{}{"graph": x.g, "targets": x.where, "limits": x.limits})
		s, ready, err := x.start()
		if err == nil || s != nil || len(ready) > 0 {
			cs.Violatef("accepted a graph that can't be scheduled")
			return
		}
		cs.Nontrivial(x.g.key())
		judgeError(cs, x.g, dangling, err)
	})
}

func judgeError(cs *vk.Case, g graph, dangling bool, err error) {
	var circular *dag.CircularDependencyError
	var invalid *dag.InvalidEdgeError
	switch {
	case dangling:
		if !errors.As(err, &invalid) {
			cs.Violatef("a missing dependency is reported as %v", err)
		} else if _, ok := g[invalid.Edge]; ok || !g.edge(invalid.Node, invalid.Edge) {
			cs.Violatef("the error doesn't name the missing dependency: %v", err)
		} else if !strings.Contains(err.Error(), fmt.Sprintf("%q", invalid.Edge)) ||
			!strings.Contains(err.Error(), fmt.Sprintf("%q", invalid.Node)) {
			cs.Violatef("the message doesn't name the missing dependency: %v", err)
		}
	default:
		if !errors.As(err, &circular) {
			cs.Violatef("a cycle is reported as %v", err)
		} else if !g.genuine(circular.Cycle) {
			cs.Violatef("%q isn't a cycle", circular.Cycle)
		} else {
			for _, n := range circular.Cycle {
				if !strings.Contains(err.Error(), fmt.Sprintf("%q", n)) {
					cs.Violatef("the message doesn't name %q: %v", n, err)
				}
			}
		}
	}
}

// ------------------------------------------------------------- graphs

func sorting(c *vk.Ctx) {
	judge := func(cs *vk.Case, g graph) {
		cs.Describe(g)
		input := g.clone()
		d, err := dag.NewDirectedGraph(input)
		if err != nil {
			cs.Violatef("rejected a graph without dangling edges: %v", err)
			return
		}
		if !reflect.DeepEqual(input, g.clone()) {
			cs.Violatef("building the graph changed its description")
		}
		sorted, cycle := dag.TSort(d)
		cyclic := g.cyclic()
		switch {
		case cyclic && (sorted != nil || cycle == nil):
			cs.Violatef("sorted a graph with a cycle: %q, %q", sorted, cycle)
		case cyclic && !g.genuine(cycle):
			cs.Violatef("%q isn't a cycle", cycle)
		case !cyclic && cycle != nil:
			cs.Violatef("reported a cycle in a graph without one: %q", cycle)
		case !cyclic:
			pos := map[string]int{}
			for i, n := range sorted {
				pos[n] = i
			}
			if len(sorted) != len(g) || len(pos) != len(g) {
				cs.Violatef("%q isn't a permutation of the graph's nodes", sorted)
			}
			for n, l := range g {
				for _, m := range l {
					if pos[m] >= pos[n] {
						cs.Violatef("%q is sorted before %q, which it depends on", n, m)
					}
				}
			}
		}
		for i := 0; i < 3 && !cs.Bad(); i++ {
			// the same graph, built in another order
			e := &dag.DirectedGraph{}
			l := g.nodes()
			cs.R.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
			for _, n := range l {
				e.AddEdges(n, g[n])
				if len(g[n]) == 0 && !e.HasNode(n) {
					e.AddEdge(n, n)
					e.RemoveEdge(n, n)
				}
			}
			s, cyc := dag.TSort(e)
			if !reflect.DeepEqual(norm(s), norm(sorted)) || !reflect.DeepEqual(norm(cyc), norm(cycle)) {
				cs.Violatef("the same graph was sorted differently: %q, %q and %q, %q", sorted, cycle, s, cyc)
			}
		}
		again, againCycle := dag.TSort(d)
		if !reflect.DeepEqual(again, sorted) || !reflect.DeepEqual(againCycle, cycle) {
			cs.Violatef("sorting twice had different results: %q, %q and %q, %q", sorted, cycle, again, againCycle)
		}
		if len(g) > 1 {
			cs.Nontrivial("tsort" + g.key())
		}
		if cyclic {
			cs.Count("cyclic_graphs", 1)
		} else {
			cs.Count("acyclic_graphs", 1)
		}
	}
	c.Cases("random", c.N(5000, 100000), func(cs *vk.Case) {
		g := acyclic(cs.R, vk.Several(cs.R, 12, 150))
		if l := g.nodes(); len(l) > 0 {
			for i := cs.R.Intn(4); i > 0; i-- {
				n := l[cs.R.Intn(len(l))]
				g[n] = append(g[n], l[cs.R.Intn(len(l))])
			}
		}
		judge(cs, g)
	})
	c.Cases("shaped", c.N(60, 900), func(cs *vk.Case) {
		g := shaped(cs.R, 6000)
		if cs.I < 4 {
			// long chains, in and against the order of names
			k := []int{4097, 10001, 65537, 100003}[cs.I]
			g = graph{}
			flip := cs.R.Intn(2)
			for i := 0; i < k; i++ {
				j := i + flip*(k-1-2*i)
				g[fmt.Sprintf("%06d", j)] = nil
				if i > 0 {
					g[fmt.Sprintf("%06d", j)] = []string{fmt.Sprintf("%06d", j+2*flip-1)}
				}
			}
		}
		if cs.I >= 4 && cs.R.Intn(3) == 0 {
			l := g.nodes()
			n := l[cs.R.Intn(len(l))]
			g[n] = append(g[n], l[cs.R.Intn(len(l))])
		}
		cs.Max("nodes_of_a_graph", len(g))
		judge(cs, g)
	})
	// every graph of up to 3 (or 4) nodes, self-loops included
	max := c.Bound(3, 4)
	type small struct{ n, bits int }
	var smalls []small
	for n := 0; n <= max; n++ {
		for bits := 0; bits < 1<<(n*n); bits++ {
			smalls = append(smalls, small{n, bits})
		}
	}
	c.Cases("small", len(smalls), func(cs *vk.Case) {
		s := smalls[cs.I]
		l := []string{"b", "", "c", "a"}[:s.n]
		g := graph{}
		bits := s.bits
		for _, x := range l {
			g[x] = []string{}
			for _, y := range l {
				if bits&1 == 1 {
					g[x] = append(g[x], y)
				}
				bits >>= 1
			}
		}
		judge(cs, g)
	})
}

func norm(l []string) []string {
	if len(l) == 0 {
		return nil
	}
	return l
}

func dependencies(c *vk.Ctx) {
	release := func(cs *vk.Case, g graph) {
		cs.Describe(g)
		d, err := dag.NewDependencyGraph(g.clone())
		if err != nil {
			cs.Violatef("rejected a valid graph: %v", err)
			return
		}
		var log []string
		released, done := map[string]bool{}, map[string]bool{}
		var returned []kept
		var order []string
		observe := func(l []string) {
			returned = append(returned, keep(l))
			l = append([]string{}, l...)
			want := map[string]bool{}
			for n := range g {
				if released[n] {
					continue
				}
				ok := true
				for _, m := range g[n] {
					ok = ok && done[m]
				}
				if ok {
					want[n] = true
				}
			}
			for _, n := range l {
				if !want[n] {
					cs.Violatef("%q was released, although it can't be started (again)", n)
				}
				delete(want, n)
				released[n] = true
			}
			for n := range want {
				cs.Violatef("%q wasn't released, although it can be started", n)
			}
			if pending := len(released) < len(g); d.HasPending() != pending {
				cs.Violatef("%d of %d tasks were released, but HasPending() is %v", len(released), len(g), d.HasPending())
			}
			sort.Strings(l)
			log = append(log, fmt.Sprintf("released %q", l))
		}
		if d.HasPending() != (len(g) > 0) {
			cs.Violatef("HasPending() is %v, before any task of %d was released", d.HasPending(), len(g))
		}
		first := "no such task"
		if _, ok := g[""]; !ok {
			first = "" // how the scheduler starts
		}
		observe(d.Next(first))
		for !cs.Bad() {
			var running []string
			for _, n := range g.nodes() {
				if released[n] && !done[n] {
					running = append(running, n)
				}
			}
			if len(running) == 0 {
				break
			}
			n := running[cs.R.Intn(len(running))]
			switch cs.R.Intn(8) {
			case 0:
				n = "no such task"
			case 1, 2:
				if len(order) > 0 {
					n = order[cs.R.Intn(len(order))] // completed twice
				}
				fallthrough
			default:
				done[n] = true
				order = append(order, n)
			}
			log = append(log, fmt.Sprintf("completed %q", n))
			observe(d.Next(n))
		}
		unchanged(cs, returned)
		if !cs.Bad() && len(done) != len(g) {
			cs.Violatef("%d of %d tasks can never be started", len(g)-len(done), len(g))
		}
		cs.Detail(strings.Join(log, "\n"))
		cs.Count("releases", len(released))
		if len(g) > 1 {
			cs.Nontrivial("release" + g.key() + strings.Join(log, "\n"))
		}
		cs.Sample(map[string]interface{}{"graph": g, "history": log})
	}
	c.Cases("release", c.N(6000, 100000), func(cs *vk.Case) {
		release(cs, acyclic(cs.R, vk.Several(cs.R, 14, 120)))
	})
	c.Cases("hubs", c.N(24, 300), func(cs *vk.Case) { release(cs, hub(cs.R, many(cs.R))) })
	c.Cases("wide", c.N(4, 40), func(cs *vk.Case) { wide(cs, 1<<16-1+cs.I%3) })
	c.Cases("invalid", c.N(1500, 20000), func(cs *vk.Case) {
		g := acyclic(cs.R, 1+vk.Several(cs.R, 9, 100))
		if cs.I%20 == 0 {
			g = hub(cs.R, many(cs.R))
		}
		l := g.nodes()
		dangling := cs.R.Intn(2) == 0
		if dangling {
			n := l[cs.R.Intn(len(l))]
			if cs.R.Intn(3) == 0 {
				// the node with most edges
				for _, x := range l {
					if len(g[x]) > len(g[n]) {
						n = x
					}
				}
			}
			g[n] = append(g[n], vk.Like(cs.R, l))
			i := cs.R.Intn(len(g[n]))
			g[n][i], g[n][len(g[n])-1] = g[n][len(g[n])-1], g[n][i]
		} else {
			for !g.cyclic() {
				n := l[cs.R.Intn(len(l))]
				g[n] = append(g[n], l[cs.R.Intn(len(l))])
			}
		}
		cs.Describe(g)
		d, err := dag.NewDependencyGraph(g.clone())
		if err == nil || d != nil {
			cs.Violatef("accepted a graph that can't be scheduled")
			return
		}
		judgeError(cs, g, dangling, err)
		if dangling {
			if _, err = dag.NewDirectedGraph(g.clone()); err == nil {
				cs.Violatef("accepted an edge to a node that doesn't exist")
			} else {
				judgeError(cs, g, dangling, err)
			}
		}
		cs.Nontrivial("invalid" + g.key())
	})
}

// wide graphs have more edges to a node than 16 bits can count; they are too large
// for the models of other workloads
func wide(cs *vk.Case, k int) {
	nodes := map[string][]string{}
	var l []string
	for i := 0; i < k; i++ {
		n := fmt.Sprintf("n%d", i)
		nodes[n] = nil
		l = append(l, n)
	}
	middle := []string{"hub", "z"}[cs.R.Intn(2)]
	nodes[middle] = append([]string{}, l...)
	cs.Describe(map[string]interface{}{"hub": middle, "after": k})
	cs.Nontrivial(fmt.Sprint("wide", middle, k))
	d, err := dag.NewDependencyGraph(nodes)
	if err != nil {
		cs.Violatef("rejected a valid graph: %v", err)
		return
	}
	first := append([]string{}, d.Next("")...)
	sort.Strings(first)
	sort.Strings(l)
	if strings.Join(first, " ") != strings.Join(l, " ") {
		cs.Violatef("%d tasks were released instead of the %d without dependencies", len(first), len(l))
		return
	}
	cs.R.Shuffle(k, func(i, j int) { l[i], l[j] = l[j], l[i] })
	for i, n := range l {
		got := d.Next(n)
		if i < k-1 && (len(got) > 0 || !d.HasPending()) {
			cs.Violatef("%q was released after %d of %d tasks it depends on", got, i+1, k)
			return
		}
		if i == k-1 && (len(got) != 1 || got[0] != middle || d.HasPending()) {
			cs.Violatef("%q was released instead of %q, when all it depends on was completed", got, middle)
		}
	}
	cs.Count("releases", k+1)
}

// operations compares random histories of operations with a map of sets
func operations(c *vk.Ctx) {
	c.Cases("digraph", c.N(2500, 40000), func(cs *vk.Case) {
		l := []string{"a", "b", "c", "", "d e"}
		g := &dag.DirectedGraph{}
		m := map[string]map[string]bool{}
		var log []string
		if cs.R.Intn(2) == 0 {
			start := acyclic(cs.R, vk.Several(cs.R, 5, 24))
			d, err := dag.NewDirectedGraph(start.clone())
			if err != nil {
				cs.Violatef("rejected a valid graph: %v", err)
				return
			}
			g = d
			for n, edges := range start {
				m[n] = map[string]bool{}
				for _, e := range edges {
					m[n][e] = true
				}
				l = append(l, n)
			}
			log = append(log, "new "+start.key())
		}
		add := func(n, e string) {
			for _, x := range []string{n, e} {
				if m[x] == nil {
					m[x] = map[string]bool{}
				}
			}
			m[n][e] = true
		}
		for i := 25 + vk.Several(cs.R, 1, 300); i > 0 && !cs.Bad(); i-- {
			n, e := l[cs.R.Intn(len(l))], l[cs.R.Intn(len(l))]
			switch cs.R.Intn(6) {
			case 0, 1:
				log = append(log, fmt.Sprintf("add edge %q %q", n, e))
				g.AddEdge(n, e)
				add(n, e)
			case 2:
				f := l[cs.R.Intn(len(l))]
				log = append(log, fmt.Sprintf("add edges %q %q %q", n, e, f))
				g.AddEdges(n, []string{e, f})
				add(n, e)
				add(n, f)
			case 3:
				log = append(log, fmt.Sprintf("remove edge %q %q", n, e))
				g.RemoveEdge(n, e)
				delete(m[n], e)
			case 4:
				log = append(log, fmt.Sprintf("remove node %q", n))
				g.RemoveNode(n)
				delete(m, n)
				for _, s := range m {
					delete(s, n)
				}
			}
			for _, x := range l {
				if _, ok := m[x]; g.HasNode(x) != ok {
					cs.Violatef("HasNode(%q) is %v", x, !ok)
				}
				if g.OutDegree(x) != len(m[x]) {
					cs.Violatef("OutDegree(%q) is %d instead of %d", x, g.OutDegree(x), len(m[x]))
				}
				for _, y := range l {
					if (*g)[x].Contains(y) != m[x][y] {
						cs.Violatef("the edge from %q to %q: %v", x, y, !m[x][y])
					}
				}
			}
			if len(*g) != len(m) {
				cs.Violatef("%d nodes instead of %d", len(*g), len(m))
			}
		}
		cs.Describe(log)
		cs.Count("graph_operations", len(log))
		cs.Nontrivial("ops" + strings.Join(log, "\n"))
	})
	c.Cases("degrees", c.N(30, 300), func(cs *vk.Case) {
		// more edges than a byte can count
		g, m, k := &dag.DirectedGraph{}, map[string]bool{}, many(cs.R)
		cs.Describe(k)
		cs.Nontrivial(fmt.Sprint("degrees", k, cs.I))
		check := func() {
			if g.OutDegree("x") != len(m) || (*g)["x"].Size() != len(m) || !g.HasNode("x") {
				cs.Violatef("OutDegree is %d, and the size %d, instead of %d", g.OutDegree("x"), (*g)["x"].Size(), len(m))
			}
		}
		var l []string
		for i := 0; i < k; i++ {
			l = append(l, fmt.Sprint("n", i))
		}
		if cs.R.Intn(2) == 0 {
			g.AddEdges("x", l)
			for _, n := range l {
				m[n] = true
			}
			check()
		} else {
			for _, n := range l {
				g.AddEdge("x", n)
				m[n] = true
				check()
			}
		}
		cs.R.Shuffle(k, func(i, j int) { l[i], l[j] = l[j], l[i] })
		for i, n := range l {
			if i%2 == 0 {
				g.RemoveEdge("x", n)
			} else {
				g.RemoveNode(n)
			}
			delete(m, n)
			check()
			if cs.Bad() {
				return
			}
		}
		cs.Count("graph_operations", 2*k)
	})
	c.Cases("nodeset", c.N(500, 5000), func(cs *vk.Case) {
		s, m := dag.NodeSet{}, map[string]bool{}
		l := []string{"", "a", "A", "aa", "b"}
		var log []string
		for i := 20 + vk.Several(cs.R, 1, 300); i > 0 && !cs.Bad(); i-- {
			n := l[cs.R.Intn(len(l))]
			if cs.R.Intn(2) == 0 {
				log = append(log, "add "+n)
				s.Add(n)
				m[n] = true
			} else {
				log = append(log, "remove "+n)
				s.Remove(n)
				delete(m, n)
			}
			if s.Size() != len(m) {
				cs.Violatef("the size is %d instead of %d", s.Size(), len(m))
			}
			for _, x := range l {
				if s.Contains(x) != m[x] {
					cs.Violatef("Contains(%q) is %v", x, !m[x])
				}
			}
		}
		cs.Describe(log)
		cs.Nontrivial("set" + strings.Join(log, "\n"))
	})
}

func init() {
	vk.Register("C08", "scheduler", schedulers)
	vk.Register("C09", "tsort", sorting)
	vk.Register("C09", "dependencies", dependencies)
	vk.Register("C09", "operations", operations)
}
