//go:build go1.22

// Package runner monitors the execution of runbooks: the real parser, scheduler
// and runner execute generated runbooks, against targets that only report what
// they're asked to do. Time is virtual (testing/synctest), so that everything
// about the history of a run can be decided without deadlines.
package runner

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"

	"github.com/sjansen/pgutil/internal/dag"
	"github.com/sjansen/pgutil/internal/runbook"
	"github.com/sjansen/pgutil/internal/runbook/demo"
	"github.com/sjansen/pgutil/internal/sys"
	"github.com/sjansen/pgutil/internal/zverif/vk"
)

func TestVerif(t *testing.T) { vk.Main(t) }

var _ = context.TODO
var _ io.Writer

// ---------------------------------------------------------------- specs

type targetSpec struct {
	ID          string `json:"id"`
	Concurrency int    `json:"concurrency"`
	FailStart   bool   `json:"failstart,omitempty"`
	StartMs     int    `json:"startms,omitempty"`
	StopMs      int    `json:"stopms,omitempty"`
	FailStop    bool   `json:"failstop,omitempty"`
	Cause       string `json:"cause,omitempty"`
	Bare        bool   `json:"bare,omitempty"`
}

type taskSpec struct {
	ID      string   `json:"id"`
	Target  string   `json:"target"`
	After   []string `json:"after,omitempty"`
	Ms      int      `json:"ms"`
	Fail    bool     `json:"fail,omitempty"`
	Cause   string   `json:"cause,omitempty"`
	Bare    bool     `json:"bare,omitempty"`
	Message string   `json:"message,omitempty"`
}

type spec struct {
	Targets []targetSpec `json:"targets"`
	Tasks   []taskSpec   `json:"tasks"`
	Delays  int64        `json:"delays,omitempty"` // seed of delays injected where the code logs
}

func (s *spec) target(id string) *targetSpec {
	for i := range s.Targets {
		if s.Targets[i].ID == id {
			return &s.Targets[i]
		}
	}
	return nil
}

func (s *spec) task(id string) *taskSpec {
	for i := range s.Tasks {
		if s.Tasks[i].ID == id {
			return &s.Tasks[i]
		}
	}
	return nil
}

func (s *spec) doc() string {
	targets := map[string]interface{}{}
	for _, t := range s.Targets {
		targets[t.ID] = map[string]interface{}{"class": "demo", "config": t}
	}
	tasks := map[string]interface{}{}
	for _, t := range s.Tasks {
		cfg := map[string]interface{}{"id": t.ID}
		if t.Ms > 0 {
			cfg["ms"] = t.Ms
		}
		if t.Fail {
			cfg["fail"] = true
			if t.Cause != "" {
				cfg["cause"] = t.Cause
				cfg["bare"] = t.Bare
			}
		}
		m := map[string]interface{}{"target": t.Target, "config": cfg}
		if len(t.After) > 0 {
			m["after"] = t.After
		}
		if t.Message != "" {
			m["message"] = t.Message
		}
		tasks[t.ID] = m
	}
	return vk.JSON(map[string]interface{}{"targets": targets, "tasks": tasks})
}

var oddIDs = []string{"q0", "q1", "t", "T01", "t010", "t01 ", strings.Repeat("long", 100), "", " ", "a b", "é", "x/y", "1", "task", "\u2603", "a\"b", "-", "null"}

// cause of an error, which is the error itself if it's bare
func cause(r *rand.Rand) (string, bool) {
	if r.Intn(3) > 0 {
		return "", false
	}
	l := make([]string, 0, len(demo.Causes))
	for k := range demo.Causes {
		l = append(l, k)
	}
	sort.Strings(l)
	return l[r.Intn(len(l))], r.Intn(2) == 0
}

// gen makes an acyclic runbook
func gen(r *rand.Rand, maxTasks int, fail, startFail bool) *spec {
	s := &spec{}
	nt := 1 + vk.Several(r, 4, 24)
	for i := 0; i < nt; i++ {
		t := targetSpec{ID: fmt.Sprintf("q%d", i), Concurrency: 1}
		if r.Intn(12) == 0 {
			// targets may be called like tasks
			if id := append(oddIDs, "t00", "t01", "t02")[r.Intn(len(oddIDs)+3)]; !strings.Contains(id, "/") && s.target(id) == nil {
				t.ID = id
			}
		} else if r.Intn(8) == 0 {
			if id := vk.Odd(r); !strings.Contains(id, "/") {
				t.ID = id
			}
		}
		if s.target(t.ID) != nil {
			t.ID = fmt.Sprintf("target %d", i)
		}
		switch r.Intn(6) {
		case 0:
			t.Concurrency = 2
		case 1:
			t.Concurrency = 3
		case 2:
			if r.Intn(4) == 0 {
				t.Concurrency = 1 << 40
			} else if r.Intn(3) == 0 {
				t.Concurrency = 1 + vk.Size(r, 100)
			}
		}
		if r.Intn(6) == 0 {
			t.StartMs = r.Intn(5)
		}
		if r.Intn(6) == 0 {
			t.StopMs = r.Intn(20)
		}
		if r.Intn(10) == 0 {
			t.FailStop = true
		}
		s.Targets = append(s.Targets, t)
	}
	n := 1 + r.Intn(maxTasks)
	ids := make([]string, n)
	perm := r.Perm(n)
	for i := range ids {
		ids[i] = fmt.Sprintf("t%02d", perm[i])
	}
	if r.Intn(5) == 0 {
		p, q := r.Perm(n), r.Perm(len(oddIDs))
		for i := vk.Several(r, 3, len(oddIDs)); i >= 0; i-- {
			if i < n && i < len(q) {
				ids[p[i]] = oddIDs[q[i]]
			}
		}
	}
	if r.Intn(5) == 0 {
		seen := map[string]bool{}
		for _, id := range ids {
			seen[id] = true
		}
		for i := range ids {
			if id := vk.Odd(r); r.Intn(2) == 0 && !seen[id] {
				seen[id], ids[i] = true, id
			}
		}
	}
	shape := r.Intn(6)
	density := []float64{0.1, 0.25, 0.5, 0.8}[r.Intn(4)]
	durations := [][]int{{0}, {0, 1}, {1, 2, 3}, {0, 5, 10, 20}, {1, 1, 1, 50}, {0, 1, 1000, 3600000}}[r.Intn(6)]
	for i := 0; i < n; i++ {
		t := taskSpec{ID: ids[i], Target: s.Targets[r.Intn(nt)].ID, Ms: durations[r.Intn(len(durations))]}
		switch shape {
		case 0: // random
			for j := 0; j < i; j++ {
				if r.Float64() < density {
					t.After = append(t.After, ids[j])
				}
			}
		case 1: // chain
			if i > 0 {
				t.After = []string{ids[i-1]}
			}
		case 2: // fan out, then fan in
			if i > 0 && i < n-1 {
				t.After = []string{ids[0]}
			} else if i > 0 {
				t.After = append(t.After, ids[1:i]...)
				if len(t.After) == 0 {
					t.After = []string{ids[0]}
				}
			}
		case 3: // layers
			w := 1 + r.Intn(3)
			for j := i - i%w - w; j >= 0 && j < i-i%w; j++ {
				if r.Intn(4) > 0 {
					t.After = append(t.After, ids[j])
				}
			}
		case 4: // no dependencies
		case 5: // two chains, joined at random
			if i > 1 {
				t.After = []string{ids[i-2]}
				if r.Intn(4) == 0 {
					t.After = append(t.After, ids[r.Intn(i)])
				}
			}
		}
		if len(t.After) > 0 && r.Intn(8) == 0 {
			t.After = append(t.After, t.After[0]) // redundant
		}
		if r.Intn(4) == 0 {
			t.Message = messagePrefix + t.ID
			switch r.Intn(8) {
			case 0, 1: // other tasks may say the same
				t.Message = messagePrefix + []string{"some tasks", "all tasks", ids[0]}[r.Intn(3)]
			case 2:
				t.Message += []string{" 100%", " %s%d%!", " \n", "\t\r\n", " {{.}}", "é\u2028"}[r.Intn(6)]
			case 3: // without any words, or in words of its own
				t.Message = []string{" ", "\t", "\n", "  \r\n ", "\u00a0", "0", "-", ".", "%", "null", "false", "#", "\ufeff", "\x00"}[r.Intn(14)]
			case 4:
				t.Message = vk.Odd(r)
			case 5:
				t.Message = vk.Stretch(r, t.Message+" ", 3000)
			}
		}
		s.Tasks = append(s.Tasks, t)
	}
	if fail {
		for k := 1 + vk.Several(r, 2, n+2); k > 0; k-- {
			s.Tasks[r.Intn(n)].Fail = true
		}
		for i := range s.Tasks {
			if t := &s.Tasks[i]; t.Fail {
				t.Cause, t.Bare = cause(r)
			}
		}
	}
	if startFail {
		t := &s.Targets[r.Intn(nt)]
		t.FailStart = true
		t.Cause, t.Bare = cause(r)
	}
	return s
}

// genHub makes a runbook with a task that comes after more tasks than a byte can count
func genHub(r *rand.Rand, fail bool) *spec {
	s := &spec{}
	nt := 1 + r.Intn(4)
	if r.Intn(3) == 0 { // and sometimes many targets
		nt += vk.Size(r, 300)
	}
	for i := nt; i > 0; i-- {
		s.Targets = append(s.Targets, targetSpec{ID: fmt.Sprintf("q%d", i), Concurrency: []int{1, 2, 40, 1 + vk.Size(r, 300), 1 << 40}[r.Intn(5)]})
	}
	target := func() string { return s.Targets[r.Intn(len(s.Targets))].ID }
	k := []int{32, 63, 64, 65, 127, 128, 255, 256, 256, 256, 257, 300}[r.Intn(12)]
	var ids []string
	ms := []int{0, 1, 1, 2, 50}
	if r.Intn(2) == 0 { // no task ends at the time at which others begin
		ms = []int{1, 2, 7, 50, 100}
	}
	root := r.Intn(2) == 0
	if root {
		s.Tasks = append(s.Tasks, taskSpec{ID: "root", Target: target(), Ms: r.Intn(3)})
	}
	for _, i := range r.Perm(k) {
		t := taskSpec{ID: fmt.Sprintf("t%02d", i), Target: target(), Ms: ms[r.Intn(5)]}
		if root && r.Intn(10) > 0 {
			t.After = []string{"root"}
		}
		s.Tasks = append(s.Tasks, t)
		ids = append(ids, t.ID)
	}
	s.Tasks = append(s.Tasks, taskSpec{ID: []string{"hub", "zz", "a"}[r.Intn(3)], Target: target(), After: ids})
	for i := r.Intn(3); i > 0; i-- {
		s.Tasks = append(s.Tasks, taskSpec{ID: fmt.Sprintf("last%d", i), Target: target(), After: []string{s.Tasks[len(s.Tasks)-1].ID}})
	}
	if fail {
		s.Tasks[r.Intn(len(s.Tasks))].Fail = true
	}
	return s
}

// genSmall enumerates the runbooks with 3 tasks and 2 targets
const smallCount = 8 * 8 * 27 * 4 * 4

func genSmall(i int) *spec {
	pick := func(n int) int { x := i % n; i /= n; return x }
	s := &spec{}
	conc := pick(4)
	s.Targets = []targetSpec{{ID: "q0", Concurrency: 1 + conc%2}, {ID: "q1", Concurrency: 1 + conc/2}}
	edges, assign, fail := pick(8), pick(8), pick(4)
	durs := []int{0, 1, 2}
	for k := 0; k < 3; k++ {
		t := taskSpec{ID: string(rune('a' + k)), Target: s.Targets[assign>>uint(k)&1].ID, Ms: durs[pick(3)]}
		t.Fail = fail == k+1
		s.Tasks = append(s.Tasks, t)
	}
	if edges&1 != 0 {
		s.Tasks[1].After = append(s.Tasks[1].After, "a")
	}
	if edges&2 != 0 {
		s.Tasks[2].After = append(s.Tasks[2].After, "a")
	}
	if edges&4 != 0 {
		s.Tasks[2].After = append(s.Tasks[2].After, "b")
	}
	return s
}

// ---------------------------------------------------------------- history

type event struct {
	At     time.Duration
	Kind   string
	Target string
	Task   string
}

func (e event) String() string { return fmt.Sprintf("%v %s %s %q", e.At, e.Kind, e.Target, e.Task) }

type history struct {
	mu     sync.Mutex
	t0     time.Time
	events []event

	returned   bool
	returnedAt int // number of events before Run returned
	err        error
	deadlock   string
	neverEnded bool
}

func (h *history) add(kind, target, task string) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.events = append(h.events, event{time.Since(h.t0), kind, target, task})
}

func (h *history) String() string {
	var sb strings.Builder
	for i, e := range h.events {
		if h.returned && i == h.returnedAt {
			fmt.Fprintf(&sb, "-- returned %v\n", h.err)
		}
		fmt.Fprintln(&sb, e)
	}
	if h.returned && h.returnedAt == len(h.events) {
		fmt.Fprintf(&sb, "-- returned %v\n", h.err)
	}
	if h.deadlock != "" {
		fmt.Fprintf(&sb, "-- %s\n", h.deadlock)
	}
	return sb.String()
}

const messagePrefix = "message of "

// logCore reports messages, and injects delays at the points where the code logs
type logCore struct {
	zapcore.LevelEnabler
	h        *history
	messages map[string]bool
	delay    func()
}

func (c *logCore) With([]zapcore.Field) zapcore.Core { return c }
func (c *logCore) Check(e zapcore.Entry, ce *zapcore.CheckedEntry) *zapcore.CheckedEntry {
	return ce.AddCore(e, c)
}
func (c *logCore) Write(e zapcore.Entry, _ []zapcore.Field) error {
	if e.Level == zapcore.InfoLevel && c.messages[e.Message] {
		c.h.add("message", "", e.Message)
	}
	if c.delay != nil {
		c.delay()
	}
	return nil
}
func (c *logCore) Sync() error { return nil }

// execute runs a runbook in a bubble of virtual time
func execute(cs *vk.Case, s *spec) *history {
	dir := cs.Dir
	file := cs.WriteFile(dir, fmt.Sprintf("runbook-%d.jsonnet", os.Getpid()), s.doc())
	h := &history{}
	core := &logCore{LevelEnabler: zapcore.DebugLevel, h: h, messages: map[string]bool{}}
	for _, t := range s.Tasks {
		if t.Message != "" {
			core.messages[t.Message] = true
		}
	}
	if s.Delays != 0 {
		r := rand.New(rand.NewSource(s.Delays))
		var mu sync.Mutex
		core.delay = func() {
			mu.Lock()
			d := 0
			if r.Intn(3) == 0 {
				d = r.Intn(8)
			}
			mu.Unlock()
			time.Sleep(time.Duration(d) * time.Millisecond)
		}
	}
	demo.Event = func(kind, target, task string, obj interface{}) { h.add(kind, target, task) }
	io := &sys.IO{Log: zap.New(core).Sugar(), Stdout: io.Discard, Stderr: io.Discard}

	cs.T.Run("x", func(t *testing.T) {
		defer func() {
			if r := recover(); r != nil {
				msg := fmt.Sprint(r)
				if !strings.Contains(msg, "deadlock") {
					panic(r)
				}
				h.deadlock = msg
				if h.returned {
					h.deadlock = "goroutines were left behind: " + msg
				}
			}
		}()
		synctest.Test(t, func(t *testing.T) {
			h.t0 = time.Now()
			done := make(chan error, 1)
			panicked := make(chan interface{}, 1)
			go func() {
				defer func() {
					if r := recover(); r != nil {
						panicked <- r
					}
				}()
				err := runbook.Run(io, file)
				h.mu.Lock()
				h.returned = true
				h.returnedAt = len(h.events)
				h.err = err
				h.mu.Unlock()
				done <- err
			}()
			select {
			case <-done:
				// anything still running gets the time to show itself
				time.Sleep(30 * time.Hour)
			case r := <-panicked:
				cs.Violatef("Run panicked: %v", r)
			case <-time.After(100000 * time.Hour):
				h.neverEnded = true
			}
		})
	})
	return h
}

// interval is the execution of a task
type interval struct {
	task, target string
	begin, end   time.Duration
	beginI, endI int // positions in the history
	ended        bool
	failed       bool
}

func (h *history) intervals() (list []*interval, byTask map[string][]*interval) {
	byTask = map[string][]*interval{}
	for i, e := range h.events {
		switch e.Kind {
		case "begin":
			iv := &interval{task: e.Task, target: e.Target, begin: e.At, beginI: i}
			list = append(list, iv)
			byTask[e.Task] = append(byTask[e.Task], iv)
		case "end", "fail":
			for _, iv := range byTask[e.Task] {
				if !iv.ended {
					iv.ended = true
					iv.end = e.At
					iv.endI = i
					iv.failed = e.Kind == "fail"
					break
				}
			}
		}
	}
	return
}

// shape identifies an interleaving: the order of events, without their times
func (h *history) shape() string {
	var sb strings.Builder
	for _, e := range h.events {
		sb.WriteString(e.Kind[:2] + e.Target + "." + e.Task + ";")
	}
	return sb.String()
}

// ---------------------------------------------------------------- oracles

func (s *spec) anyFail() (fails, startFails bool) {
	for _, t := range s.Tasks {
		fails = fails || t.Fail
	}
	for _, t := range s.Targets {
		startFails = startFails || t.FailStart
	}
	return
}

// concluded: whatever else holds, a run that hangs can't be judged
func concluded(cs *vk.Case, h *history) bool {
	if cs.Bad() {
		return false
	}
	if !h.returned {
		if h.deadlock != "" {
			cs.Violatef("Run never returns: %s", h.deadlock)
		} else {
			cs.Violatef("Run never returns")
		}
		return false
	}
	return true
}

func checkOrder(cs *vk.Case, s *spec, h *history) {
	done := map[string]bool{}
	deps := 0
	for _, e := range h.events {
		switch e.Kind {
		case "end":
			done[e.Task] = true
		case "begin":
			t := s.task(e.Task)
			if t == nil {
				cs.Violatef("task %q isn't part of the runbook", e.Task)
				return
			}
			for _, a := range t.After {
				deps++
				if !done[a] {
					cs.Violatef("task %q began before %q, which it comes after, had succeeded", e.Task, a)
					return
				}
			}
		}
	}
	cs.Count("dependencies_checked", deps)
}

func checkExactlyOnce(cs *vk.Case, s *spec, h *history) {
	_, byTask := h.intervals()
	ok := true
	for _, t := range s.Tasks {
		ivs := byTask[t.ID]
		if len(ivs) > 1 {
			cs.Violatef("task %q was executed %d times", t.ID, len(ivs))
			return
		}
		if len(ivs) < 1 || !ivs[0].ended || ivs[0].failed {
			ok = false
		} else if h.returned && ivs[0].endI >= h.returnedAt {
			ok = false
		}
		if len(ivs) == 1 && ivs[0].target != t.Target {
			cs.Violatef("task %q was executed by %q instead of %q", t.ID, ivs[0].target, t.Target)
			return
		}
		delete(byTask, t.ID)
	}
	for id := range byTask {
		cs.Violatef("task %q was executed, but isn't part of the runbook", id)
		return
	}
	if h.err == nil && !ok {
		cs.Violatef("Run reported success without every task having succeeded")
		return
	}
	if h.err != nil && ok {
		cs.Violatef("Run reported %q even though every task succeeded", h.err)
		return
	}
	if fails, startFails := s.anyFail(); !fails && !startFails && h.err != nil {
		cs.Violatef("Run reported %q even though nothing could fail", h.err)
		return
	}
	// messages: announced once for each task, before it begins
	begun := map[string]int{}
	announced := map[string]int{}
	for _, e := range h.events {
		switch e.Kind {
		case "message":
			announced[e.Task]++
		case "begin":
			if text := s.task(e.Task).Message; text != "" {
				begun[text]++
				if announced[text] < begun[text] {
					cs.Violatef("the message %q was logged %d times before %q began, the %d. task with that message",
						text, announced[text], e.Task, begun[text])
					return
				}
			}
		}
	}
	for text, n := range announced {
		if n != begun[text] {
			cs.Violatef("the message %q was logged %d times, but belongs to %d tasks that began", text, n, begun[text])
			return
		}
		if n > 1 {
			cs.Count("shared_messages", n)
		}
	}
}

func checkContainment(cs *vk.Case, s *spec, h *history) {
	list, byTask := h.intervals()
	var failures []*interval
	for _, iv := range list {
		if iv.ended && iv.failed {
			failures = append(failures, iv)
		}
	}
	if len(failures) < 1 {
		return
	}
	cs.Count("failures_observed", len(failures))
	// the error
	if h.err == nil {
		cs.Violatef("Run reported success, but %q failed", failures[0].task)
		return
	}
	found := false
	for _, iv := range failures {
		t := s.task(iv.task)
		found = found || demo.Matches(h.err, t.ID, t.Cause, t.Bare)
	}
	if !found {
		cs.Violatef("Run reported %q, which isn't the error of a task that failed", h.err)
		return
	}
	// nothing that depends on a failed task
	bad := map[string]bool{}
	for _, iv := range failures {
		bad[iv.task] = true
	}
	for changed := true; changed; {
		changed = false
		for _, t := range s.Tasks {
			for _, a := range t.After {
				if bad[a] && !bad[t.ID] {
					bad[t.ID] = true
					changed = true
					if len(byTask[t.ID]) > 0 {
						cs.Violatef("task %q was executed, even though it depends on %q, which didn't succeed", t.ID, a)
						return
					}
				}
			}
		}
	}
	// a target that failed does nothing more
	for _, f := range failures {
		for _, iv := range list {
			if iv.target == f.target && iv.beginI > f.endI {
				cs.Violatef("target %q began %q after it had failed %q", iv.target, iv.task, f.task)
				return
			}
		}
	}
	if s.Delays != 0 {
		return // when Run notices a failure isn't observable if it's delayed
	}
	// nothing becomes ready after the first failure
	first := failures[0]
	for _, f := range failures {
		if f.endI < first.endI {
			first = f
		}
	}
	after := map[string]int{}
	for _, iv := range list {
		if iv.begin > first.end {
			for _, a := range s.task(iv.task).After {
				for _, p := range byTask[a] {
					if p.ended && p.end > first.end {
						cs.Violatef("task %q was started by the completion of %q, which came %v after %q had failed",
							iv.task, a, p.end-first.end, first.task)
						return
					}
				}
			}
		}
		if iv.end > first.end || !iv.ended {
			after[iv.target]++
		}
	}
	for q, n := range after {
		if n > s.target(q).Concurrency {
			cs.Violatef("target %q executed %d tasks beyond the failure of %q, more than it can have had assigned",
				q, n, first.task)
			return
		}
	}
}

func checkCleanup(cs *vk.Case, s *spec, h *history) {
	if h.deadlock != "" {
		cs.Violatef("%s", h.deadlock)
		return
	}
	started := map[string]int{}
	stopped := map[string]int{}
	stoppedAt := map[string]int{}
	var startFail []string
	for i, e := range h.events {
		if i >= h.returnedAt {
			cs.Violatef("%s after Run returned", e)
			return
		}
		switch e.Kind {
		case "started":
			started[e.Target]++
		case "startfail":
			startFail = append(startFail, e.Target)
		case "stop":
			stopped[e.Target]++
			stoppedAt[e.Target] = i
		case "begin", "end", "fail":
			if stopped[e.Target] > 0 {
				cs.Violatef("target %q was stopped before it had finished %q", e.Target, e.Task)
				return
			}
			if started[e.Target] < 1 {
				cs.Violatef("target %q was given %q without having been started", e.Target, e.Task)
				return
			}
			if len(startFail) > 0 {
				cs.Violatef("task %q was executed even though target %q failed to start", e.Task, startFail[0])
				return
			}
		}
	}
	for _, t := range s.Targets {
		if started[t.ID] > 1 {
			cs.Violatef("target %q was started %d times", t.ID, started[t.ID])
			return
		}
		if started[t.ID] != stopped[t.ID] {
			cs.Violatef("target %q was started %d times, but stopped %d times", t.ID, started[t.ID], stopped[t.ID])
			return
		}
	}
	if len(startFail) > 0 {
		ok := false
		for _, id := range startFail {
			t := s.target(id)
			ok = ok || h.err != nil && demo.Matches(h.err, t.ID, t.Cause, t.Bare)
		}
		if !ok {
			cs.Violatef("target %q failed to start, but Run reported %v", startFail[0], h.err)
		}
		cs.Count("start_failures", 1)
	}
	cs.Count("targets_stopped", len(stopped))
}

func contains(a []string, s string) bool {
	for _, x := range a {
		if x == s {
			return true
		}
	}
	return false
}

func checkLimit(cs *vk.Case, s *spec, h *history) {
	running := map[string]int{}
	for _, e := range h.events {
		switch e.Kind {
		case "begin":
			running[e.Target]++
			cs.Max("max_concurrent_on_target", running[e.Target])
			if t := s.target(e.Target); t != nil && running[e.Target] > t.Concurrency {
				cs.Violatef("target %q executes %d tasks at the same time, but is limited to %d",
					e.Target, running[e.Target], t.Concurrency)
				return
			}
			total := 0
			for _, n := range running {
				total += n
			}
			cs.Max("max_concurrent", total)
		case "end", "fail":
			running[e.Target]--
		}
	}
}

func checkNoWaiting(cs *vk.Case, s *spec, h *history) {
	list, byTask := h.intervals()
	var base time.Duration
	for _, e := range h.events {
		if e.Kind == "started" && e.At > base {
			base = e.At
		}
	}
	for _, t := range s.Tasks {
		if len(byTask[t.ID]) != 1 {
			return // not this property's business
		}
		iv := byTask[t.ID][0]
		ready := base
		for _, a := range t.After {
			if p := byTask[a]; len(p) == 1 && p[0].end > ready {
				ready = p[0].end
			}
		}
		if iv.begin <= ready {
			continue
		}
		// the target has to be busy from ready to begin
		cs.Count("waits_justified", 1)
		at := ready
		var busy []*interval
		for _, o := range list {
			if o.target == t.Target && o != iv {
				busy = append(busy, o)
			}
		}
		sort.Slice(busy, func(i, j int) bool { return busy[i].begin < busy[j].begin })
		for _, o := range busy {
			if o.begin <= at && o.end > at {
				at = o.end
			}
		}
		if at < iv.begin {
			cs.Violatef("task %q was ready at %v and target %q was idle from %v on, but it only began at %v",
				t.ID, ready, t.Target, at, iv.begin)
			return
		}
	}
}

// ---------------------------------------------------------------- workloads

type opts struct {
	max       int
	failPct   int
	startFail int // percent
	delays    int // percent
	hub       bool
}

func drive(c *vk.Ctx, kind string, n int, o opts, check func(*vk.Case, *spec, *history)) {
	c.Cases(kind, n, func(cs *vk.Case) {
		s := gen(cs.R, o.max, cs.R.Intn(100) < o.failPct, cs.R.Intn(100) < o.startFail)
		if o.hub {
			s = genHub(cs.R, cs.R.Intn(100) < o.failPct)
		}
		if cs.R.Intn(100) < o.delays {
			s.Delays = 1 + cs.R.Int63()
		}
		judge(cs, s, check)
	})
}

func judge(cs *vk.Case, s *spec, check func(*vk.Case, *spec, *history)) {
	cs.Describe(s)
	h := execute(cs, s)
	if concluded(cs, h) {
		check(cs, s, h)
	}
	cs.Detail(h.String())
	cs.Count("events", len(h.events))
	cs.Distinct("interleavings", h.shape())
	deps := 0
	for _, t := range s.Tasks {
		deps += len(t.After)
	}
	if len(s.Tasks) > 1 {
		cs.Nontrivial(vk.JSON(s))
	}
	fails, startFails := s.anyFail()
	cs.Hist("runs", fmt.Sprintf("tasks=%02d", len(s.Tasks)))
	cs.Hist("kinds", fmt.Sprintf("deps=%v fail=%v startfail=%v delays=%v err=%v", deps > 0, fails, startFails, s.Delays != 0, h.err != nil))
	if len(s.Tasks) > 2 && len(s.Tasks) < 6 {
		cs.Sample(map[string]interface{}{"runbook": s, "history": strings.Split(strings.TrimSpace(h.String()), "\n")})
	}
}

func small(c *vk.Ctx, quick int, want func(*spec) bool, check func(*vk.Case, *spec, *history)) {
	n := c.N(quick, smallCount)
	c.Cases("small", n, func(cs *vk.Case) {
		i := cs.I
		if c.Quick() {
			i = cs.R.Intn(smallCount)
		}
		s := genSmall(i)
		if !want(s) {
			return
		}
		judge(cs, s, check)
	})
}

func any(*spec) bool          { return true }
func failing(s *spec) bool    { f, _ := s.anyFail(); return f }
func succeeding(s *spec) bool { f, _ := s.anyFail(); return !f }

func init() {
	vk.Register("C01", "order", func(c *vk.Ctx) {
		drive(c, "random", c.N(2500, 40000), opts{max: 10, failPct: 25, delays: 40}, checkOrder)
		drive(c, "large", c.N(40, 600), opts{max: 60, failPct: 10, delays: 30}, checkOrder)
		drive(c, "huge", c.N(8, 150), opts{max: 500, failPct: 10, delays: 30}, checkOrder)
		drive(c, "hub", c.N(16, 300), opts{max: 1, failPct: 10, delays: 30, hub: true}, checkOrder)
		small(c, 800, any, checkOrder)
	})
	vk.Register("C02", "once", func(c *vk.Ctx) {
		drive(c, "random", c.N(2500, 40000), opts{max: 10, failPct: 30, startFail: 3, delays: 40}, checkExactlyOnce)
		drive(c, "large", c.N(40, 600), opts{max: 60, failPct: 10, delays: 30}, checkExactlyOnce)
		drive(c, "huge", c.N(8, 150), opts{max: 500, failPct: 10, delays: 30}, checkExactlyOnce)
		drive(c, "hub", c.N(8, 150), opts{max: 1, failPct: 10, delays: 30, hub: true}, checkExactlyOnce)
		small(c, 800, any, checkExactlyOnce)
	})
	vk.Register("C03", "containment", func(c *vk.Ctx) {
		drive(c, "random", c.N(3000, 40000), opts{max: 12, failPct: 100, delays: 25}, checkContainment)
		drive(c, "large", c.N(40, 600), opts{max: 100, failPct: 100, delays: 25}, checkContainment)
		drive(c, "hub", c.N(8, 150), opts{max: 1, failPct: 100, delays: 25, hub: true}, checkContainment)
		small(c, 1200, failing, checkContainment)
	})
	vk.Register("C04", "cleanup", func(c *vk.Ctx) {
		drive(c, "random", c.N(2500, 40000), opts{max: 10, failPct: 45, startFail: 25, delays: 40}, checkCleanup)
		drive(c, "large", c.N(40, 600), opts{max: 200, failPct: 45, startFail: 10, delays: 40}, checkCleanup)
		small(c, 800, any, checkCleanup)
		c.Cases("empty", c.N(20, 60), func(cs *vk.Case) {
			s := gen(cs.R, 1, false, false)
			s.Tasks = nil
			judge(cs, s, checkCleanup)
		})
	})
	vk.Register("C05", "limit", func(c *vk.Ctx) {
		if c.Race {
			return
		}
		drive(c, "random", c.N(1500, 20000), opts{max: 12, failPct: 15, delays: 40}, checkLimit)
		drive(c, "large", c.N(20, 300), opts{max: 200, failPct: 10, delays: 40}, checkLimit)
		drive(c, "hub", c.N(12, 200), opts{max: 1, failPct: 10, delays: 40, hub: true}, checkLimit)
		small(c, 400, any, checkLimit)
	})
	vk.Register("C05", "race", func(c *vk.Ctx) {
		if c.Race {
			race(c)
		}
	})
	vk.Register("C06", "nowaiting", func(c *vk.Ctx) {
		drive(c, "random", c.N(3000, 40000), opts{max: 12}, checkNoWaiting)
		drive(c, "large", c.N(40, 600), opts{max: 60}, checkNoWaiting)
		drive(c, "huge", c.N(8, 150), opts{max: 500}, checkNoWaiting)
		drive(c, "hub", c.N(12, 200), opts{max: 1, hub: true}, checkNoWaiting)
		small(c, 1200, succeeding, checkNoWaiting)
	})
	vk.Register("C07", "invalid", invalid)
}

// race executes runbooks in real time, without recording anything, so that nothing
// but the code under test synchronizes its goroutines
func race(c *vk.Ctx) {
	c.Cases("race", c.N(1200, 12000), func(cs *vk.Case) {
		s := gen(cs.R, 14, cs.R.Intn(3) == 0, cs.R.Intn(12) == 0)
		for i := range s.Tasks {
			s.Tasks[i].Ms = 0
		}
		for i := range s.Targets {
			s.Targets[i].StartMs, s.Targets[i].StopMs = 0, 0
		}
		cs.Describe(s)
		file := cs.WriteFile(cs.Dir, fmt.Sprintf("runbook-%d.jsonnet", os.Getpid()), s.doc())
		demo.Event = func(kind, target, task string, obj interface{}) {}
		yields := cs.R.Intn(3)
		demo.Hold = func(string, string) {
			for i := 0; i < yields; i++ {
				runtime.Gosched()
			}
		}
		io := &sys.IO{Log: zap.NewNop().Sugar(), Stdout: io.Discard, Stderr: io.Discard}
		done := make(chan error, 1)
		go func() { done <- runbook.Run(io, file) }()
		err := <-done
		fails, startFails := s.anyFail()
		if (err != nil) != (fails || startFails) {
			cs.Violatef("Run returned %v", err)
		}
		cs.Count("raced_runs", 1)
		cs.Count("raced_tasks", len(s.Tasks))
		if len(s.Tasks) > 1 && len(s.Targets) > 1 {
			cs.Nontrivial(vk.JSON(s))
		}
	})
}

// ---------------------------------------------------------------- invalid runbooks

func genuineCycle(s *spec, cycle []string) bool {
	if len(cycle) < 1 {
		return false
	}
	has := func(from, to string) bool {
		t := s.task(from)
		return t != nil && contains(t.After, to)
	}
	fwd, rev := true, true
	for i, n := range cycle {
		m := cycle[(i+1)%len(cycle)]
		fwd = fwd && has(n, m)
		rev = rev && has(m, n)
	}
	return fwd || rev
}

func invalid(c *vk.Ctx) {
	c.Cases("invalid", c.N(2500, 40000), func(cs *vk.Case) {
		r := cs.R
		s := gen(r, 1+vk.Several(r, 10, 200), r.Intn(5) == 0, false)
		n := len(s.Tasks)
		kind := r.Intn(3)
		missing := ""
		switch kind {
		case 0: // unknown dependency
			t := &s.Tasks[r.Intn(n)]
			missing = "missing"
			if x := []string{"", "q0", "t", "t1", "T00", "t00 ", "runbook"}[r.Intn(7)]; r.Intn(3) == 0 && s.task(x) == nil {
				missing = x
			} else if r.Intn(2) == 0 {
				var ids []string
				for _, t := range s.Tasks {
					ids = append(ids, t.ID)
				}
				missing = vk.Like(r, ids)
			}
			t.After = append(t.After, missing)
			r.Shuffle(len(t.After), func(i, j int) { t.After[i], t.After[j] = t.After[j], t.After[i] })
		case 1: // cycle through existing tasks
			k := 1 + r.Intn(n)
			p := r.Perm(n)[:k]
			for i := range p {
				t := &s.Tasks[p[i]]
				t.After = append(t.After, s.Tasks[p[(i+1)%k]].ID)
			}
		case 2: // back edge
			i := r.Intn(n)
			j := r.Intn(i + 1)
			s.Tasks[j].After = append(s.Tasks[j].After, s.Tasks[i].ID)
		}
		cyclic := isCyclic(s)
		judge(cs, s, func(cs *vk.Case, s *spec, h *history) {
			if kind != 0 && !cyclic {
				if f, _ := s.anyFail(); !f && h.err != nil {
					cs.Violatef("a valid runbook was rejected: %v", h.err)
				}
				cs.Count("valid", 1)
				return
			}
			for _, e := range h.events {
				if e.Kind == "begin" || e.Kind == "message" {
					cs.Violatef("%q was executed even though the runbook is invalid", e.Task)
					return
				}
				if e.Kind == "start" {
					cs.Violatef("target %q was started even though the runbook is invalid", e.Target)
					return
				}
			}
			if h.deadlock != "" {
				cs.Violatef("%s", h.deadlock)
				return
			}
			var ce *dag.CircularDependencyError
			var ee *dag.InvalidEdgeError
			switch {
			case h.err == nil:
				cs.Violatef("an invalid runbook was reported as successful")
			case errors.As(h.err, &ee):
				t := s.task(ee.Node)
				if t == nil || !contains(t.After, ee.Edge) || s.task(ee.Edge) != nil {
					cs.Violatef("the error %q isn't about the runbook", h.err)
				}
				for _, m := range nonExistent.FindAllStringSubmatch(h.err.Error(), -1) {
					if id, err := strconv.Unquote(m[1]); err == nil && s.task(id) != nil {
						cs.Violatef("the error %q is about a task that exists", h.err)
					}
				}
				cs.Count("unknown_dependencies_reported", 1)
			case errors.As(h.err, &ce):
				if !genuineCycle(s, ce.Cycle) {
					cs.Violatef("%q isn't a cycle of the runbook", ce.Cycle)
				}
				cs.Count("cycles_reported", 1)
				cs.Hist("cycle_length", fmt.Sprint(len(ce.Cycle)))
			default:
				cs.Violatef("%q doesn't say what's wrong", h.err)
			}
			if !cs.Bad() && h.err != nil && h.err.Error() == "" {
				cs.Violatef("the error is empty")
			}
		})
	})
}

var nonExistent = regexp.MustCompile(`non-?existent (?:node|task) ("(?:[^"\\]|\\.)*")`)

func isCyclic(s *spec) bool {
	state := map[string]int{}
	var visit func(id string) bool
	visit = func(id string) bool {
		if state[id] == 1 {
			return true
		}
		if state[id] == 2 {
			return false
		}
		state[id] = 1
		if t := s.task(id); t != nil {
			for _, a := range t.After {
				if visit(a) {
					return true
				}
			}
		}
		state[id] = 2
		return false
	}
	for _, t := range s.Tasks {
		if visit(t.ID) {
			return true
		}
	}
	return false
}

var _ = filepath.Join
