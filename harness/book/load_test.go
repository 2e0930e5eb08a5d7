//go:build go1.22

// Package book monitors what the runbook commands make of runbook files.
package book

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"testing"

	"go.uber.org/zap"

	"github.com/sjansen/pgutil/internal/runbook"
	"github.com/sjansen/pgutil/internal/runbook/parser"
	"github.com/sjansen/pgutil/internal/runbook/types"
	"github.com/sjansen/pgutil/internal/sys"
	"github.com/sjansen/pgutil/internal/zverif/jn"
	"github.com/sjansen/pgutil/internal/zverif/vk"
)

func TestVerif(t *testing.T) { vk.Main(t) }

type (
	m = jn.M
	l = jn.L
)

// ---------------------------------------------------- classes of our own

type nested struct {
	A string
	B []int
}

type fakeTarget struct {
	class string
	made  []string

	Name   string
	N      int
	List   []string
	Nested nested
	Opt    *string
	Bad    bool
}

func (t *fakeTarget) Analyze() error {
	if t.Bad {
		return errors.New("bad target settings")
	}
	return nil
}
func (t *fakeTarget) ConcurrencyLimit() int                          { return 1 }
func (t *fakeTarget) Handle(context.Context, types.TaskConfig) error { panic("executed while loading") }
func (t *fakeTarget) Start() error                                   { panic("started while loading") }
func (t *fakeTarget) Stop() error                                    { panic("stopped while loading") }
func (t *fakeTarget) NewTaskConfig(class string) (types.TaskConfig, error) {
	switch class {
	case "", "x", "x/y", "/", "X":
		return &fakeTask{owner: t, class: class, Num: 11}, nil
	}
	return nil, errors.New("no such class of tasks")
}

type fakeTask struct {
	owner *fakeTarget
	class string

	Text   string
	Num    int
	Flag   bool
	Map    map[string]string
	Nested nested
	Bad    bool
}

func (t *fakeTask) Check() error {
	if t.Bad {
		return errors.New("bad task settings")
	}
	return nil
}

type factory struct {
	class string
	n     int
}

func (f *factory) NewTarget() types.Target { return &fakeTarget{class: f.class, N: f.n} }

func newParser() *parser.Parser {
	return &parser.Parser{Targets: map[string]types.TargetFactory{
		"one": &factory{"one", 1}, "two": &factory{"two", 2}, "": &factory{"", 3},
	}}
}

var words = []string{"", "a", "b c", "déjà", "it's", `"quoted"`, "tab\there", "line\nbreak", `back\slash`,
	"<&>", "${x}", "%d", "日本", "x/y", "-", "null", "🦉", "runbook", "node", "Edge", "strict", "cluster_", "a-b", "1x", "<b>", "'", "\\n", "end",
	"cr\rhere", "\r\n", "line\u2028separator", "\u00a0", "del\x7f", "e\u0301", "\ufeffmark", "\x01"}

func word(r *rand.Rand) string {
	if r.Intn(4) == 0 {
		return vk.Odd(r)
	}
	return vk.Stretch(r, words[r.Intn(len(words))], 5000)
}

func ids(r *rand.Rand, n int, prefix string, odd bool) []string {
	seen := map[string]bool{}
	var out []string
	for len(out) < n {
		id := fmt.Sprintf("%s%d", prefix, r.Intn(60+4*n))
		if odd && r.Intn(3) == 0 {
			id = word(r)
			if r.Intn(2) == 0 {
				id += fmt.Sprint(r.Intn(9))
			}
		}
		if id = vk.Stretch(r, id, 300); !seen[id] {
			seen[id] = true
			out = append(out, id)
		}
	}
	return out
}

// a document and what it means
type doc struct {
	v       m
	targets map[string]*fakeTarget
	tasks   map[string]*types.Task
	classes map[string]string
}

func genNested(r *rand.Rand) (jn.M, nested) {
	v, n := m{}, nested{}
	if r.Intn(2) == 0 {
		n.A = word(r)
		v["a"] = n.A
	}
	if r.Intn(2) == 0 {
		n.B = []int{}
		b := l{}
		for i := vk.Several(r, 4, 300); i > 0; i-- {
			x := int(vk.Int(r, -1<<52, 1<<52))
			n.B = append(n.B, x)
			b = append(b, x)
		}
		v["b"] = b
	}
	return v, n
}

func genDoc(r *rand.Rand) *doc {
	d := &doc{v: m{}, targets: map[string]*fakeTarget{}, tasks: map[string]*types.Task{}, classes: map[string]string{}}
	var targetIDs []string
	for _, id := range ids(r, vk.Several(r, 4, 60), "q", true) {
		if !strings.Contains(id, "/") {
			targetIDs = append(targetIDs, id)
		}
	}
	tv := m{}
	for _, id := range targetIDs {
		class := []string{"one", "two", ""}[r.Intn(3)]
		t := &fakeTarget{class: class, N: map[string]int{"one": 1, "two": 2, "": 3}[class]}
		v := m{"class": class}
		if class == "" && r.Intn(2) == 0 {
			delete(v, "class")
		}
		cfg := m{}
		if r.Intn(2) == 0 {
			t.Name = word(r)
			cfg["name"] = t.Name
		}
		if r.Intn(2) == 0 {
			t.N = int(vk.Int(r, -1<<52, 1<<52))
			cfg["n"] = t.N
		}
		if r.Intn(2) == 0 {
			t.List = []string{}
			list := l{}
			for i := vk.Several(r, 4, 300); i > 0; i-- {
				w := word(r)
				t.List = append(t.List, w)
				list = append(list, w)
			}
			cfg["list"] = list
		}
		if r.Intn(3) == 0 {
			var nv jn.M
			nv, t.Nested = genNested(r)
			cfg["nested"] = nv
		}
		if r.Intn(3) == 0 {
			s := word(r)
			t.Opt = &s
			cfg["opt"] = s
		}
		if len(cfg) > 0 || r.Intn(2) == 0 {
			v["config"] = cfg
		} else if r.Intn(3) == 0 {
			v["config"] = nil
		}
		tv[id] = v
		d.targets[id] = t
	}
	if len(tv) > 0 || r.Intn(2) == 0 {
		d.v["targets"] = tv
	}
	kv := m{}
	if len(targetIDs) > 0 {
		taskIDs := ids(r, vk.Several(r, 6, 200), "t", true)
		for _, id := range taskIDs {
			q := targetIDs[r.Intn(len(targetIDs))]
			class := []string{"", "", "x", "x/y", "/", "X"}[r.Intn(6)]
			cfg := m{}
			c := &fakeTask{class: class, Num: 11}
			task := &types.Task{Target: q, Config: c}
			target := q
			if class != "" || r.Intn(5) == 0 {
				target += "/" + class
			}
			v := m{"target": target}
			if q == "" && target == "" && r.Intn(2) == 0 {
				delete(v, "target")
			}
			if r.Intn(2) == 0 {
				task.After = []string{}
				after := l{}
				for i := vk.Several(r, 3, 100); i > 0; i-- {
					// unknown tasks are reported when the runbook is scheduled
					x := taskIDs[r.Intn(len(taskIDs))]
					task.After = append(task.After, x)
					after = append(after, x)
				}
				v["after"] = after
			}
			if r.Intn(2) == 0 {
				task.Message = word(r)
				v["message"] = task.Message
			}
			if r.Intn(2) == 0 {
				c.Text = word(r)
				cfg["text"] = c.Text
			}
			if r.Intn(2) == 0 {
				c.Num = int(vk.Int(r, -1<<52, 1<<52))
				cfg["num"] = c.Num
			}
			if r.Intn(2) == 0 {
				c.Flag = r.Intn(2) == 0
				cfg["flag"] = c.Flag
			}
			if r.Intn(3) == 0 {
				c.Map = map[string]string{}
				mv := m{}
				for i := vk.Several(r, 3, 100); i > 0; i-- {
					k, w := word(r), word(r)
					c.Map[k] = w
					mv[k] = w
				}
				cfg["map"] = mv
			}
			if r.Intn(3) == 0 {
				var nv jn.M
				nv, c.Nested = genNested(r)
				cfg["nested"] = nv
			}
			if len(cfg) > 0 || r.Intn(2) == 0 {
				v["config"] = cfg
			} else if r.Intn(3) == 0 {
				v["config"] = nil
			}
			kv[id] = v
			d.tasks[id] = task
			d.classes[id] = class
		}
	}
	if len(kv) > 0 || r.Intn(2) == 0 {
		d.v["tasks"] = kv
	}
	return d
}

// locations for a runbook, and how to refer to it; the returned function restores
// the working directory
func place(cs *vk.Case) (dir, file string, restore func()) {
	top := cs.Scratch()
	dir = filepath.Join(top, "some where", "books")
	other := filepath.Join(top, "else")
	for _, d := range []string{dir, other} {
		if err := os.MkdirAll(d, 0755); err != nil {
			panic(err)
		}
	}
	name := []string{"book.jsonnet", "book", "a b.json", ".hidden.jsonnet"}[cs.R.Intn(4)]
	cwd, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	chdir := func(d string) {
		if err := os.Chdir(d); err != nil {
			panic(err)
		}
	}
	switch cs.R.Intn(5) {
	case 0:
		chdir(dir)
		file = name
	case 1:
		chdir(dir)
		file = "./" + name
	case 2:
		chdir(other)
		file = "../some where/books/" + name
	case 3:
		chdir(top)
		file = "some where/books/" + name
	case 4:
		chdir(other)
		file = filepath.Join(dir, name)
	}
	return dir, file, func() {
		chdir(cwd)
		os.RemoveAll(top)
	}
}

// cwd is where files that are imported must not be looked for
func cwd() string {
	d, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	return d
}

func write(file, text string) {
	if err := os.WriteFile(file, []byte(text), 0644); err != nil {
		panic(err)
	}
}

// settings drops what a case can't predict
func settings(t *fakeTarget) fakeTarget { c := *t; c.made = nil; return c }

func faithful(cs *vk.Case) {
	d := genDoc(cs.R)
	dir, file, restore := place(cs)
	defer restore()
	w := &jn.Writer{R: cs.R, Dir: dir, Decoys: cwd(), Sugar: []int{0, 10, 30}[cs.R.Intn(3)]}
	text := w.Expr(d.v)
	write(file, text)
	cs.Describe(map[string]interface{}{"file": file, "text": text, "value": d.v})
	book, err := newParser().Parse(file)
	if err != nil {
		cs.Violatef("rejected a valid runbook: %v", err)
		return
	}
	if book == nil {
		cs.Violatef("neither a runbook nor an error")
		return
	}
	if got, want := keys(book.Targets), keys(d.targets); !reflect.DeepEqual(got, want) {
		cs.Violatef("loaded targets %q instead of %q", got, want)
		return
	}
	if got, want := keys(book.Tasks), keys(d.tasks); !reflect.DeepEqual(got, want) {
		cs.Violatef("loaded tasks %q instead of %q", got, want)
		return
	}
	for id, want := range d.targets {
		got, ok := book.Targets[id].(*fakeTarget)
		if !ok {
			cs.Violatef("target %q wasn't made by the factory of its class", id)
		} else if !reflect.DeepEqual(settings(got), settings(want)) {
			cs.Violatef("target %q was loaded as %s instead of %s", id, vk.JSON(got), vk.JSON(want))
		}
	}
	for id, want := range d.tasks {
		got := book.Tasks[id]
		c, ok := got.Config.(*fakeTask)
		if !ok {
			cs.Violatef("task %q wasn't made by its target", id)
			continue
		}
		if c.owner != book.Targets[want.Target] {
			cs.Violatef("task %q was made by another target than %q", id, want.Target)
		}
		if c.class != d.classes[id] {
			cs.Violatef("task %q is of class %q instead of %q", id, c.class, d.classes[id])
		}
		expected := *want.Config.(*fakeTask)
		actual := *c
		actual.owner, expected.owner = nil, nil
		if !reflect.DeepEqual(actual, expected) {
			cs.Violatef("task %q was configured as %s instead of %s", id, vk.JSON(actual), vk.JSON(expected))
		}
		if got.Target != want.Target || got.Message != want.Message ||
			!(reflect.DeepEqual(got.After, want.After) || len(got.After)+len(want.After) == 0) {
			cs.Violatef("task %q was loaded as %s instead of %s", id, vk.JSON(got), vk.JSON(want))
		}
	}
	cs.Count("targets_loaded", len(d.targets))
	cs.Count("tasks_loaded", len(d.tasks))
	if len(d.tasks) > 0 {
		cs.Nontrivial("faithful" + vk.JSON(d.v))
	}
	cs.Sample(map[string]interface{}{"file": file, "text": text})
}

func keys(v interface{}) []string {
	out := []string{}
	for _, k := range reflect.ValueOf(v).MapKeys() {
		out = append(out, k.String())
	}
	sort.Strings(out)
	return out
}

// ------------------------------------------------------------- mistakes

// schema of the real classes: the fields of settings, and a value of each type
type schema struct {
	fields map[string]string
	tasks  map[string]*schema
}

var envSchema = &schema{fields: map[string]string{"allow": "strings", "deny": "strings", "set": "map"}}

var classes = map[string]*schema{
	"demo": {
		fields: map[string]string{"string": "string"},
		tasks: map[string]*schema{
			"echo": {}, "fail": {}, "rev": {}, "rot13": {},
			"sleep": {fields: map[string]string{"seconds": "int"}},
		},
	},
	"pg": {
		fields: map[string]string{
			"concurrency": "int", "host": "string", "port": "port", "sslmode": "string", "username": "string",
			"password": "string", "database": "string", "connect_retries": "int",
		},
		tasks: map[string]*schema{
			"": {fields: map[string]string{"sql": "string"}}, "exec": {fields: map[string]string{"sql": "string"}},
		},
	},
	"sh": {
		fields: map[string]string{"concurrency": "int", "env": "env"},
		tasks: map[string]*schema{
			"":     {fields: map[string]string{"args": "strings", "env": "env"}},
			"exec": {fields: map[string]string{"args": "strings", "env": "env"}},
		},
	},
}

func value(r *rand.Rand, typ string) interface{} {
	switch typ {
	case "string":
		return word(r)
	case "int":
		return int(vk.Int(r, 1, 1<<31-1))
	case "port":
		return r.Intn(65536)
	case "strings":
		out := l{}
		for i := vk.Several(r, 4, 300); i > 0; i-- {
			out = append(out, word(r))
		}
		return out
	case "map":
		out := m{}
		for i := vk.Several(r, 3, 100); i > 0; i-- {
			out[word(r)] = word(r)
		}
		return out
	case "env":
		return object(r, envSchema)
	}
	panic(typ)
}

// wrong returns a value that isn't of a type
func wrong(r *rand.Rand, typ string) interface{} {
	bad := map[string][]interface{}{
		"string":  {1, 1.5, true, l{}, m{}, l{"a"}, 0, false, l{""}, m{"a": "b"}},
		"int":     {"1", 1.5, true, l{}, m{}, 1e30, "", false, l{1}, "null", -0.5, 9223372036854775808.0},
		"port":    {"5432", 1.5, true, -1, 65536, l{}, m{}, "", false, 70968, -65535, 4294967296 + 5432},
		"strings": {"a", 1, true, m{}, l{1}, l{"a", l{}}, l{m{}}, "", 0, false, m{"0": "a"}, l{"a", true}, l{l{"a"}}},
		"map":     {"a", 1, true, l{}, m{"a": 1}, m{"a": l{"b"}}, "", 0, false, l{"a=b"}, m{"a": "b", "c": true}, m{"a": m{}}},
		"env":     {"a", 1, true, l{}, m{"allow": "a"}, m{"set": l{}}, m{"deny": m{}}, "", 0, false, m{"allow": true}, m{"set": m{"A": 1}}, m{"deny": l{l{"A"}}}, l{"A"}},
		"object":  {"a", 1, true, l{}, l{m{}}, "", 0, false, "{}", "null", l{nil}},
	}[typ]
	return bad[r.Intn(len(bad))]
}

func object(r *rand.Rand, s *schema) m {
	out := m{}
	for _, f := range keys(s.fields) {
		if r.Intn(2) == 0 {
			out[f] = value(r, s.fields[f])
		}
	}
	return out
}

// realDoc is a valid runbook that uses the classes the program provides
func realDoc(r *rand.Rand) m {
	tv, kv := m{}, m{}
	targets := ids(r, 1+vk.Several(r, 3, 60), "q", false)
	classOf := map[string]string{}
	for _, id := range targets {
		class := keys(classes)[r.Intn(3)]
		classOf[id] = class
		v := m{"class": class}
		if cfg := object(r, classes[class]); len(cfg) > 0 || r.Intn(2) == 0 {
			v["config"] = cfg
		}
		tv[id] = v
	}
	tasks := ids(r, 1+vk.Several(r, 4, 200), "t", true)
	for _, id := range tasks {
		q := targets[r.Intn(len(targets))]
		class := keys(classes[classOf[q]].tasks)[r.Intn(len(classes[classOf[q]].tasks))]
		target := q
		if class != "" {
			target += "/" + class
		}
		cfg := object(r, classes[classOf[q]].tasks[class])
		switch classOf[q] {
		case "sh":
			args := l{[]string{"true", "/bin/true", "./true", "../x/true", "a b", ""}[r.Intn(6)]}
			if more, ok := value(r, "strings").(l); ok {
				args = append(args, more...)
			}
			cfg["args"] = args
		case "pg":
			cfg["sql"] = "SELECT 1; -- " + word(r)
		}
		v := m{"target": target}
		if len(cfg) > 0 || r.Intn(2) == 0 {
			v["config"] = cfg
		}
		if r.Intn(2) == 0 {
			after := l{}
			for i := vk.Several(r, 3, 100); i > 0; i-- {
				after = append(after, tasks[r.Intn(len(tasks))])
			}
			v["after"] = after
		}
		if r.Intn(2) == 0 {
			v["message"] = word(r)
		}
		kv[id] = v
	}
	return m{"targets": tv, "tasks": kv}
}

func pick(r *rand.Rand, v interface{}) (string, m) {
	x := v.(m)
	k := keys(x)[r.Intn(len(x))]
	return k, x[k].(m)
}

func config(v m) m {
	c, _ := v["config"].(m)
	if c == nil {
		c = m{}
		v["config"] = c
	}
	return c
}

// spoil makes a mistake; the document may need to be wrapped to make it
func spoil(r *rand.Rand, v m) (mistake string, text func(string) string) {
	tid, target := pick(r, v["targets"])
	kid, task := pick(r, v["tasks"])
	class := target["class"].(string)
	q := strings.SplitN(task["target"].(string)+"/", "/", 2)[0]
	owner := v["targets"].(m)[q].(m)["class"].(string)
	tclass := strings.TrimSuffix(strings.SplitN(task["target"].(string)+"/", "/", 2)[1], "/")
	taskSchema := classes[owner].tasks[tclass]
	unknown := []string{"unknown", "", "targetz", "log", "x.y", "conn", "comment", "basedir", "environ"}[r.Intn(9)]
	for {
		switch r.Intn(27) {
		case 0:
			v[unknown] = value(r, "string")
			return "unknown field " + unknown + " in the runbook", nil
		case 1:
			target[unknown] = nil
			return "unknown field " + unknown + " in target " + tid, nil
		case 2:
			task[unknown] = l{}
			return "unknown field " + unknown + " in task " + kid, nil
		case 3, 4:
			config(target)[unknown] = value(r, "string")
			return "unknown field " + unknown + " in the settings of target " + tid, nil
		case 5, 6:
			config(task)[unknown] = 3
			return "unknown field " + unknown + " in the settings of task " + kid, nil
		case 7:
			target["class"] = []string{"psql", "SH", "demo ", "pg/exec", ""}[r.Intn(5)]
			return "unknown class of target " + tid, nil
		case 8:
			delete(target, "class")
			return "target " + tid + " without a class", nil
		case 9:
			x := []string{"nowhere", "", q + "x", "/" + q, " " + q}[r.Intn(5)]
			if v["targets"].(m)[x] != nil {
				continue
			}
			task["target"] = x
			return "task " + kid + " on an unknown target", nil
		case 10:
			delete(task, "target")
			return "task " + kid + " without a target", nil
		case 11:
			task["target"] = q + "/" + []string{"execute", "Exec", "exec/", "exec ", "run/exec", "ECHO"}[r.Intn(6)]
			return "unknown class of task " + kid, nil
		case 12:
			v["targets"].(m)["zz"] = nil
			return "null target", nil
		case 13:
			v["tasks"].(m)["zz"] = nil
			return "null task", nil
		case 14:
			k := []string{"targets", "tasks"}[r.Intn(2)]
			v[k] = wrong(r, "object")
			return "wrong type of " + k, nil
		case 15:
			v["targets"].(m)[tid] = wrong(r, "object")
			return "wrong type of target " + tid, nil
		case 16:
			v["tasks"].(m)[kid] = wrong(r, "object")
			return "wrong type of task " + kid, nil
		case 17:
			k := []string{"after", "target", "message", "config"}[r.Intn(4)]
			task[k] = wrong(r, map[string]string{"after": "strings", "target": "string", "message": "string", "config": "object"}[k])
			return "wrong type of " + k + " of task " + kid, nil
		case 18:
			k := []string{"class", "config"}[r.Intn(2)]
			target[k] = wrong(r, map[string]string{"class": "string", "config": "object"}[k])
			return "wrong type of " + k + " of target " + tid, nil
		case 19, 20:
			f := keys(classes[class].fields)[r.Intn(len(classes[class].fields))]
			config(target)[f] = wrong(r, classes[class].fields[f])
			return "wrong type of setting " + f + " of target " + tid, nil
		case 21, 22:
			if len(taskSchema.fields) == 0 {
				continue
			}
			f := keys(taskSchema.fields)[r.Intn(len(taskSchema.fields))]
			config(task)[f] = wrong(r, taskSchema.fields[f])
			return "wrong type of setting " + f + " of task " + kid, nil
		case 23:
			if class == "demo" {
				continue
			}
			config(target)["concurrency"] = -r.Intn(3)
			return "concurrency below 1 on target " + tid, nil
		case 24:
			switch owner {
			case "pg":
				if r.Intn(2) == 0 {
					delete(task, "config")
				} else {
					config(task)["sql"] = ""
				}
			case "sh":
				switch r.Intn(4) {
				case 0:
					delete(task, "config")
				case 1:
					config(task)["args"] = l{}
				default:
					config(task)["args"] = l{[]string{"a/b", "bin/true", ".../x", "a/", ".hidden/x", "~/x", "..x/y", "a/../b", " ./x", "\t/x", "-/x", "é/x", "a//b"}[r.Intn(13)], "x"}
				}
			default:
				continue
			}
			return "unusable settings of task " + kid, nil
		case 25:
			if class == "sh" {
				config(target)["env"] = m{"unset": l{"A"}}
				return "unknown field in the environment of target " + tid, nil
			}
			if owner == "sh" {
				config(task)["env"] = m{"allowed": l{"A"}}
				return "unknown field in the environment of task " + kid, nil
			}
		case 26:
			return "not a program that can be evaluated", []func(string) string{
				func(s string) string { return s + " }" },
				func(s string) string { return s + " + { tasks+: { z: error 'failed' } }" },
				func(s string) string { return s + " + import 'missing.libsonnet'" },
				func(s string) string { return "local x = y; " + s },
				func(s string) string { return s[:len(s)-1] },
				func(s string) string { return s + " + { targets+: { z: function(x) x } }" },
				func(s string) string { return "assert false; " + s },
				func(s string) string { return "" },
				func(s string) string { return "function(x) " + s },
				func(s string) string { return "[" + s + "]" },
				func(s string) string { return "\"" + "text" + "\"" },
			}[r.Intn(11)]
		}
	}
}

func quiet() *sys.IO {
	return &sys.IO{Log: zap.NewNop().Sugar(), Stdout: io.Discard, Stderr: io.Discard}
}

var digits = regexp.MustCompile(`(target|task) .*|field .* in`)

func strict(cs *vk.Case) {
	v := realDoc(cs.R)
	dir, file, restore := place(cs)
	defer restore()
	mistake, wrap := "", (func(string) string)(nil)
	valid := cs.R.Intn(5) == 0
	if !valid {
		mistake, wrap = spoil(cs.R, v)
		if strings.Contains(mistake, "target") && !strings.Contains(mistake, "task") && cs.R.Intn(4) == 0 {
			// a target's mistake is one, even if nothing uses it
			if cs.R.Intn(2) == 0 {
				v["tasks"] = m{}
			} else {
				delete(v, "tasks")
			}
		}
	}
	w := &jn.Writer{R: cs.R, Dir: dir, Decoys: cwd(), Sugar: []int{0, 0, 10, 25}[cs.R.Intn(4)]}
	text := w.Expr(v)
	if wrap != nil {
		text = wrap(text)
	}
	write(file, text)
	cs.Describe(map[string]interface{}{"file": file, "text": text, "mistake": mistake})
	tasks, err := runbook.List(quiet(), file)
	switch {
	case valid && err != nil:
		cs.Violatef("rejected a valid runbook: %v", err)
	case valid && !reflect.DeepEqual(keys(tasks), keys(v["tasks"])):
		cs.Violatef("loaded tasks %q instead of %q", keys(tasks), keys(v["tasks"]))
	case !valid && err == nil:
		cs.Violatef("accepted a runbook in spite of a mistake: %s", mistake)
	case !valid && len(tasks) != 0:
		cs.Violatef("returned tasks of an invalid runbook: %q", keys(tasks))
	}
	if !valid {
		cs.Hist("mistakes", digits.ReplaceAllString(strings.SplitN(mistake, " of ", 2)[0], ""))
		cs.Nontrivial("strict" + text)
	} else {
		cs.Count("valid_runbooks", 1)
	}
}

const noise = "{}[]:,\"' \x00\xff/1en"

// garbled runbooks must not make the loader panic; whether they're valid is not known
func garbled(cs *vk.Case) {
	v := realDoc(cs.R)
	dir, file, restore := place(cs)
	defer restore()
	text := (&jn.Writer{R: cs.R, Sugar: cs.R.Intn(20)}).Expr(v)
	b := []byte(text)
	for i := 1 + cs.R.Intn(3); i > 0 && len(b) > 2; i-- {
		p := cs.R.Intn(len(b))
		switch cs.R.Intn(5) {
		case 0:
			b = append(b[:p], b[p+1:]...)
		case 1:
			b[p] = noise[cs.R.Intn(len(noise))]
		case 2:
			q := p + cs.R.Intn(len(b)-p)
			b = append(b[:q:q], b[p:]...)
		case 3:
			b = b[:p]
		case 4:
			q := p + cs.R.Intn(len(b)-p)
			b = append(append(append([]byte{}, b[:p]...), "null"...), b[q:]...)
		}
	}
	_ = dir
	write(file, string(b))
	cs.Describe(string(b))
	tasks, err := runbook.List(quiet(), file)
	if err != nil {
		cs.Count("garbled_rejected", 1)
		if len(tasks) > 0 {
			cs.Violatef("returned tasks of an invalid runbook: %q", keys(tasks))
		}
	} else {
		cs.Count("garbled_accepted", 1)
	}
	cs.Nontrivial("garbled" + string(b))
}

func missing(cs *vk.Case) {
	dir, file, restore := place(cs)
	defer restore()
	path := file + ".missing"
	if cs.R.Intn(2) == 0 {
		path = dir
	}
	cs.Describe(path)
	if tasks, err := runbook.List(quiet(), path); err == nil {
		cs.Violatef("listed %q of a runbook that can't be read", keys(tasks))
	}
	if book, err := newParser().Parse(path); err == nil || book != nil {
		cs.Violatef("loaded a runbook that can't be read")
	}
	cs.Nontrivial("missing" + path)
}

func init() {
	vk.Register("C11", "faithful", func(c *vk.Ctx) { c.Cases("doc", c.N(2500, 40000), faithful) })
	vk.Register("C11", "strict", func(c *vk.Ctx) {
		c.Cases("doc", c.N(3500, 60000), strict)
		c.Cases("garbled", c.N(1500, 40000), garbled)
		c.Cases("missing", c.N(20, 60), missing)
	})
}
