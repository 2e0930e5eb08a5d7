//go:build go1.22

// Package tasks monitors task sets: how they're loaded, and how targets execute tasks.
package tasks

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/taskset/base"
	"github.com/sjansen/pgutil/internal/taskset/demo"
	"github.com/sjansen/pgutil/internal/taskset/pg"
	"github.com/sjansen/pgutil/internal/taskset/sh"
	"github.com/sjansen/pgutil/internal/taskset/types"
	"github.com/sjansen/pgutil/internal/zverif/vk"
)

var theT *testing.T

func TestVerif(t *testing.T) {
	theT = t
	// targets print what they do
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = f
	}
	vk.Main(t)
}

func init() {
	vk.Register("C34", "virtual", virtual)
	vk.Register("C34", "targets", targets)
	vk.Register("C34", "stress", stress)
}

// task is a stand-in
type task struct {
	id       types.TaskID
	batch    int
	duration time.Duration
	err      error

	started, ended bool
}

func (t *task) Dependencies() []string { return nil }
func (t *task) Provides() []string     { return nil }
func (t *task) Ready() error           { return nil }

// plan is what's asked of a target
type plan struct {
	Limit    int
	Batches  []int // numbers of tasks
	Spacing  []int // pauses between batches
	Reader   string
	Duration []int
	Fails    []bool
	Linger   bool          // the queue is closed after everything's done
	Unit     time.Duration // of Spacing and Duration
}

func newPlan(r *rand.Rand) *plan {
	p := &plan{Limit: r.Intn(7) - 1}
	if r.Intn(30) == 0 {
		p.Limit = []int{-1 << 63, -1000000, 50, 1000, 5000, 1 << 20, 1 << 32, 1 << 40, 1<<63 - 1}[r.Intn(9)]
	}
	if r.Intn(12) == 0 {
		p.Limit = vk.Size(r, 300)
	}
	p.Unit = time.Millisecond
	if r.Intn(12) == 0 {
		p.Unit = []time.Duration{time.Microsecond, time.Second, time.Minute, time.Hour}[r.Intn(4)]
	}
	n := vk.Several(r, 6, 30)
	style := r.Intn(3)
	crowd := 0
	if r.Intn(40) == 0 {
		// a high limit that's reached
		p.Limit = 20 + vk.Size(r, 500)
		crowd = 1 + r.Intn(p.Limit+20)
		if r.Intn(2) == 0 {
			crowd = p.Limit + r.Intn(20)
		}
		n++
	}
	for i := 0; i < n; i++ {
		k := vk.Several(r, 8, 150)
		if crowd > 0 {
			k, crowd = crowd, 0
		}
		if k < 8 && r.Intn(3) == 0 {
			k = 1
		}
		p.Batches = append(p.Batches, k)
		pause := 0
		if style > 0 {
			pause = r.Intn(20 * style)
		}
		p.Spacing = append(p.Spacing, pause)
		for ; k > 0; k-- {
			d := r.Intn(30)
			if style == 0 && r.Intn(2) == 0 {
				d = 10
			}
			p.Duration = append(p.Duration, d)
			p.Fails = append(p.Fails, r.Intn(4) == 0)
		}
	}
	p.Reader = []string{"prompt", "prompt", "slow", "late"}[r.Intn(4)]
	p.Linger = r.Intn(3) == 0
	return p
}

// virtual runs stand-ins on a virtual clock, looking at the executor whenever it's quiescent
func virtual(c *vk.Ctx) {
	c.Cases("generated", c.N(1500, 80000), func(cs *vk.Case) {
		p := newPlan(cs.R)
		cs.Describe(p)
		defer func() {
			if r := recover(); r != nil {
				msg := fmt.Sprint(r)
				if !strings.Contains(msg, "deadlock") {
					panic(r)
				}
				cs.Violatef("the executor never comes to an end: %v", msg)
			}
		}()
		synctest.Test(theT, func(t *testing.T) { observe(cs, p) })
	})
}

// deliver sends the result of a task that has ended
func deliver(cs *vk.Case, results chan<- types.TaskResults, x types.TaskResults) {
	defer func() {
		if r := recover(); r != nil {
			cs.Violatef("can't deliver the result %v: %v", x, r)
		}
	}()
	results <- x
}

func observe(cs *vk.Case, p *plan) {
	var mu sync.Mutex
	running, most, starts := 0, 0, 0
	limit := p.Limit
	if limit < 1 {
		limit = 1
	}
	begin := time.Now()
	var order []string
	fail := func(format string, args ...interface{}) {
		cs.Violatef(format+" (started: %v)", append(args, order)...)
	}
	fn := func(id types.TaskID, x types.Task, results chan<- types.TaskResults) {
		t, ok := x.(*task)
		mu.Lock()
		if !ok || t.id != id {
			fail("task %q was executed as %v", id, x)
		} else {
			if t.started {
				fail("task %q was executed twice", id)
			}
			t.started = true
			running++
			starts++
			order = append(order, string(id))
			if running > most {
				most = running
			}
			if running > limit {
				fail("%d tasks are running instead of at most %d", running, limit)
			}
		}
		mu.Unlock()
		if !ok {
			go func() { results <- types.TaskResults{id: nil} }()
			return
		}
		go func() {
			time.Sleep(t.duration)
			mu.Lock()
			t.ended = true
			running--
			mu.Unlock()
			deliver(cs, results, types.TaskResults{id: t.err})
		}()
	}
	queue, results := base.RunTasks(fn, p.Limit)

	var all []*task
	batches := []types.TaskBatch{}
	for b, k := range p.Batches {
		batch := types.TaskBatch{}
		for i := 0; i < k; i++ {
			n := len(all)
			t := &task{id: types.TaskID(fmt.Sprintf("%d/%d", b, i)), batch: b, duration: time.Duration(p.Duration[n]) * p.Unit}
			if p.Fails[n] {
				t.err = errors.New("failure of " + string(t.id))
			}
			all = append(all, t)
			batch[t.id] = t
		}
		if k == 0 && b%2 == 0 {
			batch = nil
		}
		batches = append(batches, batch)
	}

	sent := 0 // tasks of batches that were accepted
	done := make(chan bool)
	allSent := make(chan bool)
	finished := make(chan bool)
	go func() {
		defer close(allSent)
		for b, batch := range batches {
			if p.Spacing[b] > 0 {
				time.Sleep(time.Duration(p.Spacing[b]) * p.Unit)
			}
			queue <- batch
			mu.Lock()
			sent += len(batch)
			mu.Unlock()
		}
		if p.Linger {
			<-finished
		}
		close(queue)
	}()
	seen := map[types.TaskID]int{}
	delivered := 0
	go func() {
		defer close(done)
		if p.Reader == "late" {
			time.Sleep(500 * p.Unit)
		}
		for r := range results {
			mu.Lock()
			if len(r) != 1 {
				fail("there are results %v", r)
			}
			for id, err := range r {
				var t *task
				for _, x := range all {
					if x.id == id {
						t = x
					}
				}
				switch {
				case t == nil:
					fail("there's a result of the unknown task %q", id)
				case !t.ended:
					fail("there's a result of %q, which hasn't ended", id)
				case err != t.err:
					fail("the result of %q is %v instead of %v", id, err, t.err)
				}
				seen[id]++
				if seen[id] > 1 {
					fail("task %q has %d results", id, seen[id])
				}
			}
			delivered++
			if delivered == len(all) {
				close(finished)
			}
			mu.Unlock()
			if p.Reader == "slow" {
				time.Sleep(time.Duration(1+cs.R.Intn(15)) * p.Unit)
			}
		}
		mu.Lock()
		if delivered < len(all) {
			fail("the results ended after %d of %d", delivered, len(all))
		}
		mu.Unlock()
	}()
	if len(all) == 0 {
		close(finished)
	}

	deadline := time.Duration(1000+16*len(all)) * p.Unit
	for _, l := range [][]int{p.Duration, p.Spacing} {
		for _, n := range l {
			deadline += time.Duration(n) * p.Unit
		}
	}
	quiescent := 0
	saturated := 0
	for {
		synctest.Wait()
		over := false
		select {
		case <-done:
			over = true
		default:
		}
		mu.Lock()
		quiescent++
		if p.Reader == "prompt" && !over {
			// as results are read at once, nothing but the limit keeps tasks from running
			ended := 0
			for _, t := range all {
				if t.ended {
					ended++
				}
			}
			want := sent - ended
			if want > limit {
				want = limit
			}
			if running < want {
				fail("%v after the start, %d tasks are running although %d of the limit %d should: %d sent, %d ended",
					time.Since(begin), running, want, limit, sent, ended)
			}
			if want == limit && limit > 1 {
				saturated++
			}
			if delivered < ended {
				fail("%d tasks have ended, but only %d have results", ended, delivered)
			}
		}
		// batches are executed in the order they were sent
		first := len(p.Batches)
		for _, t := range all {
			if !t.started && t.batch < first {
				first = t.batch
			}
		}
		for _, t := range all {
			if t.started && t.batch > first {
				fail("%q was started before all tasks of batch %d", t.id, first)
			}
		}
		mu.Unlock()
		if over || cs.Bad() && time.Since(begin) > 10000*p.Unit {
			break
		}
		time.Sleep(p.Unit)
		if time.Since(begin) > deadline {
			fail("the results have not ended: %d of %d delivered", delivered, len(all))
			break
		}
	}
	<-allSent
	cs.Count("tasks executed", starts)
	cs.Count("quiescent states observed", quiescent)
	cs.Count("quiescent states at the limit", saturated)
	cs.Max("tasks running at once", most)
	cs.Hist("limit", fmt.Sprint(p.Limit))
	cs.Nontrivial(vk.JSON(p))
	if len(order) > 5 {
		cs.Sample(map[string]interface{}{"plan": p, "order": order, "most running": most})
	}
}

func reverse(s string) string {
	r := []rune(s)
	var b strings.Builder
	for i := len(r) - 1; i >= 0; i-- {
		b.WriteRune(r[i])
	}
	return b.String()
}

const letters = "abcdefghijklmnopqrstuvwxyz"

func rotate(s string) string {
	return strings.Map(func(r rune) rune {
		if i := strings.IndexRune(letters, r); i >= 0 {
			return rune(letters[(i+13)%26])
		}
		if i := strings.IndexRune(strings.ToUpper(letters), r); i >= 0 {
			return rune(strings.ToUpper(letters)[(i+13)%26])
		}
		return r
	}, s)
}

var runes = []rune("abcmnoyzABCMNOYZ@[`{%$\\\" 019.,!é日本\u00ad\U0001F600\n\t")

func text(r *rand.Rand) string {
	var b strings.Builder
	for n := vk.Several(r, 14, 5000); n > 0; n-- {
		b.WriteRune(runes[r.Intn(len(runes))])
	}
	return b.String()
}

type failingWriter struct{ err error }

var writeErrors = []error{errors.New("can't write"), syscall.ENOSPC, syscall.EPIPE, syscall.EINTR, syscall.EAGAIN, os.ErrClosed,
	&os.PathError{Op: "write", Path: "/dev/stdout", Err: syscall.EPIPE}, io.ErrShortWrite, io.ErrClosedPipe, io.EOF, context.Canceled}

func (w failingWriter) Write([]byte) (int, error) { return 0, w.err }

// op is an expected result
type op struct {
	id   types.TaskID
	kind string
	task types.Task
	err  error // any is an error that isn't known
}

var any = errors.New("any")

// targets uses every real target
func targets(c *vk.Ctx) {
	c.Cases("generated", c.N(1000, 40000), func(cs *vk.Case) {
		r := cs.R
		kind := []string{"demo", "demo", "demo", "sh", "pg"}[r.Intn(5)]
		var out bytes.Buffer
		var stdout io.Writer = &out
		broken, errWrite := r.Intn(10) == 0, writeErrors[r.Intn(len(writeErrors))]
		if broken {
			stdout = failingWriter{errWrite}
		}
		log := logger.Discard()
		var target types.Target
		initial := text(r)
		limit := 1
		switch kind {
		case "demo":
			target = (&demo.TargetFactory{Log: log, Stdout: stdout}).NewTarget()
			d := target.(*demo.Target)
			d.String = initial
			limit = r.Intn(5) - 1
			if r.Intn(20) == 0 {
				limit = []int{40, 1000, 1 << 16, 1 << 40, 1<<63 - 1}[r.Intn(5)]
			}
			d.MaxConcurrency = limit
		case "sh":
			target = (&sh.TargetFactory{Log: log}).NewTarget()
		case "pg":
			target = (&pg.TargetFactory{Log: log}).NewTarget()
		}
		var batches [][]op
		var names [][]string
		state := initial
		want := ""
		reachable := map[string]bool{}
		for x, i := initial, 0; i < 2; i++ {
			for _, y := range []string{x, reverse(x)} {
				reachable[y] = true
			}
			x = rotate(x)
		}
		echoes := 0
		sequential := limit <= 1
		n := 1 + vk.Several(r, 6, 40)
		for b := 0; b < n; b++ {
			var batch []op
			var l []string
			k := 1
			if r.Intn(3) == 0 {
				k = vk.Several(r, 5, 60)
			}
			for i := 0; i < k; i++ {
				o := op{id: types.TaskID(fmt.Sprintf("task %03d.%d", b, i))}
				o.kind = []string{"echo", "echo", "rev", "rot13", "fail", "foreign"}[r.Intn(6)]
				if kind != "demo" {
					o.kind = []string{"own", "own", "foreign"}[r.Intn(3)]
				}
				if k > 1 && (o.kind == "rev" || o.kind == "rot13") && sequential {
					// the order within a batch isn't defined: transformations commute, but not with echo
					sequential = false
				}
				switch o.kind {
				case "echo":
					o.task, echoes = &demo.Echo{}, echoes+1
					want += state + "\n"
					if broken {
						o.err = errWrite
					}
				case "rev":
					o.task, state = &demo.Rev{}, reverse(state)
				case "rot13":
					o.task, state = &demo.Rot13{}, rotate(state)
				case "fail":
					o.task, o.err = &demo.Fail{}, demo.ErrFail
				case "foreign":
					o.task, o.err = &task{}, any
					switch r.Intn(4) {
					case 0:
						o.task = nil
					case 1:
						// of another target
						o.task = []types.Task{&sh.Task{Args: []string{"true"}}, &pg.Task{SQL: "SELECT 1"}, &child{}}[r.Intn(3)]
						if kind != "demo" {
							o.task = []types.Task{&demo.Echo{}, &demo.Sleep{Seconds: 1}, &child{}}[r.Intn(3)]
						}
					}
				case "own":
					if kind == "sh" {
						o.task = &sh.Task{Args: []string{"true"}}
					} else {
						o.task = &pg.Task{SQL: "SELECT 1"}
					}
				}
				if kind == "demo" && r.Intn(3) == 0 && o.kind != "foreign" {
					// made by the target
					x, err := target.NewTask(o.kind)
					if err != nil || fmt.Sprintf("%T", x) != fmt.Sprintf("%T", o.task) {
						cs.Violatef("NewTask(%q) returned %T, %v", o.kind, x, err)
						return
					}
					o.task = x
				}
				if o.task == nil {
				} else if err := o.task.Ready(); err != nil {
					cs.Violatef("task %s isn't ready: %v", o.kind, err)
				}
				batch = append(batch, o)
				l = append(l, o.kind)
			}
			batches = append(batches, batch)
			names = append(names, l)
		}
		cs.Describe(map[string]interface{}{"kind": kind, "string": initial, "limit": limit, "broken stdout": broken, "batches": names})
		if err := target.Ready(); err != nil {
			cs.Violatef("the target isn't ready: %v", err)
		}
		before := runtime.NumGoroutine()
		queue, results := target.Start()
		go func() {
			for _, b := range batches {
				m := types.TaskBatch{}
				for _, o := range b {
					m[o.id] = o.task
				}
				queue <- m
			}
			close(queue)
		}()
		got := map[types.TaskID]error{}
		timeout := time.After(60 * time.Second)
		var order []types.TaskID
	loop:
		for {
			select {
			case x, ok := <-results:
				if !ok {
					break loop
				}
				for id, err := range x {
					if _, dup := got[id]; dup {
						cs.Violatef("task %q has several results", id)
					}
					got[id] = err
					order = append(order, id)
				}
			case <-timeout:
				cs.Violatef("the results never end, only %d were received", len(got))
				return
			}
		}
		total := 0
		for _, b := range batches {
			for _, o := range b {
				total++
				err, ok := got[o.id]
				switch {
				case !ok:
					cs.Violatef("task %q (%s) has no result", o.id, o.kind)
				case o.err == any && err == nil:
					cs.Violatef("task %q isn't of the target's kind, but was successful", o.id)
				case o.err != any && err != o.err:
					cs.Violatef("task %q (%s) ended with %v instead of %v", o.id, o.kind, err, o.err)
				}
			}
		}
		if total != len(got) {
			cs.Violatef("there are %d results of %d tasks", len(got), total)
		}
		if limit <= 1 {
			// one at a time: results are in the order of batches
			last := ""
			for _, id := range order {
				b := strings.SplitN(string(id), ".", 2)[0]
				if b < last {
					cs.Violatef("the results are not in the order of batches: %q", order)
					break
				}
				last = b
			}
		}
		if after := vk.SettledGoroutines(before); after > before {
			cs.Violatef("%d goroutines are left, there were %d before", after, before)
		}
		if kind == "demo" {
			if s := target.(*demo.Target).String; s != state {
				cs.Violatef("the string is %q instead of %q in the end", s, state)
			}
			if broken {
				want = ""
			}
			if sequential || broken {
				if out.String() != want {
					cs.Violatef("printed %q instead of %q", out.String(), want)
				}
			} else if rest := peel(out.String(), reachable, echoes); rest != "" {
				cs.Violatef("printed %q, of which %q isn't a version of the string printed once for every echo", out.String(), rest)
			}
			cs.Count("echoes compared", echoes)
		}
		cs.Hist("kind of target", kind)
		cs.Nontrivial(fmt.Sprint(kind, initial, limit, names))
	})
	// a task that sleeps doesn't keep others from being executed
	c.Cases("asleep", c.N(1, 6), func(cs *vk.Case) {
		cs.Describe("an echo task, while others sleep")
		order := ""
		for i := 0; i < 3; i++ {
			var out bytes.Buffer
			target := (&demo.TargetFactory{Log: logger.Discard(), Stdout: &out}).NewTarget()
			target.(*demo.Target).MaxConcurrency = 3
			queue, results := target.Start()
			queue <- types.TaskBatch{"sleep": &demo.Sleep{Seconds: 2}, "sleep too": &demo.Sleep{Seconds: 2}}
			time.Sleep(100 * time.Millisecond)
			queue <- types.TaskBatch{"echo": &demo.Echo{}}
			close(queue)
			order = ""
			for x := range results {
				for id := range x {
					order += string(id) + " "
				}
			}
			// a busy machine might explain one occurrence
			if strings.HasPrefix(order, "echo") {
				cs.Count("echoes next to sleepers", 1)
				cs.Nontrivial(order)
				return
			}
		}
		cs.Violatef("of three tasks executed at once, the one that doesn't sleep ended last: %s", order)
	})
	c.One("unknown types", func(cs *vk.Case) {
		target := (&demo.TargetFactory{Log: logger.Discard()}).NewTarget()
		for _, typ := range []string{"", "x", "Echo", "echo ", "echo/x", "ROT13"} {
			if x, err := target.NewTask(typ); err == nil {
				cs.Violatef("there are tasks of type %q: %T", typ, x)
			}
		}
		sleep, err := target.NewTask("sleep")
		if err != nil {
			cs.Violatef("can't make a sleep task: %v", err)
			return
		}
		if err := sleep.Ready(); err != nil {
			cs.Violatef("sleep isn't ready: %v", err)
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					cs.Violatef("sleep never comes to an end: %v", r)
				}
			}()
			synctest.Test(theT, func(t *testing.T) {
				queue, results := target.Start()
				start := time.Now()
				s := sleep.(*demo.Sleep)
				s.Seconds = 7
				queue <- types.TaskBatch{"a": s}
				close(queue)
				n := 0
				for x := range results {
					n++
					if err, ok := x["a"]; !ok || err != nil {
						cs.Violatef("sleep ended with %v", x)
					}
				}
				if n != 1 {
					cs.Violatef("%d results of a single task", n)
				}
				if d := time.Since(start); d < 7*time.Second {
					cs.Violatef("sleep took %v instead of 7s", d)
				}
			})
		}()
	})
}

// peel removes n versions of a text, each followed by a line break, and returns what's left of s
func peel(s string, versions map[string]bool, n int) string {
	var l []string
	for v := range versions {
		l = append(l, v+"\n")
	}
	sort.Strings(l)
	type state struct{ pos, n int }
	todo := []state{{0, 0}}
	seen := map[state]bool{}
	best := 0
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x.pos > best {
			best = x.pos
		}
		if x.pos == len(s) && x.n == n {
			return ""
		}
		for _, v := range l {
			if x.n < n && strings.HasPrefix(s[x.pos:], v) {
				todo = append(todo, state{x.pos + len(v), x.n + 1})
			}
		}
	}
	if best == len(s) {
		return fmt.Sprintf("%d echoes", n)
	}
	return s[best:]
}

// stress runs many tasks at once, for the race detector and real schedules
func stress(c *vk.Ctx) {
	c.Cases("generated", c.N(60, 1500), func(cs *vk.Case) {
		r := cs.R
		limit := 1 + r.Intn(8)
		nBatches, per := 1+r.Intn(10), 1+r.Intn(12)
		yield := r.Intn(3)
		cs.Describe(map[string]interface{}{"limit": limit, "batches": nBatches, "each": per})
		var running, most, executed int32
		fn := func(id types.TaskID, x types.Task, results chan<- types.TaskResults) {
			n := atomic.AddInt32(&running, 1)
			for {
				m := atomic.LoadInt32(&most)
				if n <= m || atomic.CompareAndSwapInt32(&most, m, n) {
					break
				}
			}
			go func() {
				for i := 0; i < yield; i++ {
					runtime.Gosched()
				}
				t := x.(*task)
				t.started = true // not synchronised: tasks are executed by one goroutine
				atomic.AddInt32(&executed, 1)
				atomic.AddInt32(&running, -1)
				deliver(cs, results, types.TaskResults{id: t.err})
			}()
		}
		before := runtime.NumGoroutine()
		queue, results := base.RunTasks(fn, limit)
		tasks := map[types.TaskID]*task{}
		var batches []types.TaskBatch
		for b := 0; b < nBatches; b++ {
			m := types.TaskBatch{}
			for i := 0; i < per; i++ {
				t := &task{id: types.TaskID(fmt.Sprintf("%d/%d", b, i))}
				if r.Intn(3) == 0 {
					t.err = errors.New(string(t.id))
				}
				m[t.id], tasks[t.id] = t, t
			}
			batches = append(batches, m)
		}
		go func() {
			for _, b := range batches {
				queue <- b
			}
			close(queue)
		}()
		got := map[types.TaskID]bool{}
		order := []string{}
		timeout := time.After(60 * time.Second)
		for open := true; open; {
			select {
			case x, ok := <-results:
				open = ok
				for id, err := range x {
					t := tasks[id]
					if t == nil || got[id] || !t.started || err != t.err {
						cs.Violatef("unexpected result %q: %v", id, err)
						continue
					}
					got[id] = true
					order = append(order, string(id))
				}
			case <-timeout:
				cs.Violatef("the results never end, only %d of %d were received", len(got), len(tasks))
				return
			}
		}
		if len(got) != len(tasks) || int(executed) != len(tasks) {
			cs.Violatef("%d results and %d executions of %d tasks", len(got), executed, len(tasks))
		}
		if int(most) > limit {
			cs.Violatef("%d tasks were running at once instead of %d", most, limit)
		}
		if after := vk.SettledGoroutines(before); after > before {
			cs.Violatef("%d goroutines are left, there were %d before", after, before)
		}
		cs.Count("tasks executed under stress", len(got))
		cs.Max("stress tasks running at once", int(most))
		cs.Distinct("orders of results under stress", strings.Join(order, " "))
		cs.Nontrivial(strings.Join(order, " "))
	})
}
