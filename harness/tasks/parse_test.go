//go:build go1.22

package tasks

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"path/filepath"
	"reflect"
	"strings"
	"unicode/utf8"

	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/taskset/base"
	"github.com/sjansen/pgutil/internal/taskset/demo"
	"github.com/sjansen/pgutil/internal/taskset/parser"
	"github.com/sjansen/pgutil/internal/taskset/pg"
	"github.com/sjansen/pgutil/internal/taskset/sh"
	"github.com/sjansen/pgutil/internal/taskset/types"
	"github.com/sjansen/pgutil/internal/zverif/vk"
)

func init() {
	vk.Register("C35", "parse", parse)
}

// factory makes stand-ins that remember where they come from
type factory struct{ typ string }

type target struct {
	typ     string
	Setting string `hcl:"setting,optional"`
	Count   int    `hcl:"count,optional"`
}

type plain struct {
	target *target
	typ    string
	Text   string `hcl:"text,optional"`
}

type child struct {
	base.Task
	target *target
	typ    string
	Text   string            `hcl:"text,optional"`
	List   []string          `hcl:"list,optional"`
	Map    map[string]string `hcl:"map,optional"`
}

func (f *factory) NewTarget() types.Target { return &target{typ: f.typ} }

func (t *target) NewTask(typ string) (types.Task, error) {
	switch {
	case strings.HasPrefix(typ, "bad"):
		return nil, errors.New("there are no such tasks: " + typ)
	case strings.HasPrefix(typ, "plain"):
		return &plain{target: t, typ: typ}, nil
	}
	return &child{target: t, typ: typ}, nil
}

func (t *target) Ready() error { return nil }
func (t *target) Start() (chan<- types.TaskBatch, <-chan types.TaskResults) {
	panic("not needed")
}
func (t *plain) Dependencies() []string { return nil }
func (t *plain) Provides() []string     { return nil }
func (t *plain) Ready() error           { return nil }
func (t *child) Ready() error           { return nil }

// what a file describes
type targetSpec struct {
	Type, ID string
	Setting  string // or the demo target's string
	Count    int    // or the demo target's limit
}

type taskSpec struct {
	Type, Sub, ID, Target  string
	NoTarget               bool // the target isn't mentioned
	After, Provide, Demand []string
	Text                   string
	List                   []string
	Map                    map[string]string
}

type setSpec struct {
	Targets []targetSpec
	Tasks   []taskSpec
}

func quoted(r *rand.Rand, s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i, c := range s {
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteRune(c)
		case c == '\n':
			b.WriteString(`\n`)
		case c == '\t':
			b.WriteString(`\t`)
		case (c == '$' || c == '%') && strings.HasPrefix(s[i+1:], "{"):
			b.WriteRune(c)
			b.WriteRune(c)
		case c > 127 && r.Intn(3) == 0:
			if c > 0xffff {
				fmt.Fprintf(&b, `\U%08x`, c)
			} else {
				fmt.Fprintf(&b, `\u%04x`, c)
			}
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

var idents = []string{"a", "b", "c", "src", "create-dir", "msg1/reverse", "with space", "é", "日本", `qu"ote`, `back\slash`, "x.y", "task:a", "", "a/b/c", "A"}
var texts = []string{"", "SELECT 1", "a\nb", `"q"`, `\`, "${x}", "%{if}", "tab\t.", "日本é", "$", "%", "#no comment", "\U0001F600"}

func pickSome(r *rand.Rand, l []string, n int) []string {
	var out []string
	for k := vk.Several(r, n, 40); k > 0; k-- {
		out = append(out, vk.Stretch(r, l[r.Intn(len(l))], 2000))
	}
	return out
}

func ident(r *rand.Rand) string {
	if r.Intn(4) == 0 {
		return fmt.Sprintf("n%d", r.Intn(400))
	}
	return vk.Stretch(r, idents[r.Intn(len(idents))], 300)
}

func anyText(r *rand.Rand) string {
	return vk.Stretch(r, texts[r.Intn(len(texts))], 20000)
}

var kinds = []string{"demo", "sh", "pg", "own", "other", "own", "ünï"}

func randomSet(r *rand.Rand) *setSpec {
	s := &setSpec{}
	seen := map[string]bool{}
	for n := vk.Several(r, 5, 60); n > 0; n-- {
		t := targetSpec{Type: kinds[r.Intn(len(kinds))], ID: ident(r)}
		if seen[t.Type+"\x00"+t.ID] {
			continue
		}
		seen[t.Type+"\x00"+t.ID] = true
		if t.Type != "sh" && t.Type != "pg" {
			t.Setting = anyText(r)
			t.Count = r.Intn(5)
			if r.Intn(8) == 0 {
				t.Count = int(vk.Int(r, 0, 1<<40))
			}
		}
		s.Targets = append(s.Targets, t)
	}
	ids := map[string]bool{}
	for n := vk.Several(r, 7, 150); n > 0; n-- {
		t := taskSpec{Type: kinds[r.Intn(len(kinds))], ID: ident(r)}
		if ids[t.ID] {
			continue
		}
		ids[t.ID] = true
		if len(s.Targets) > 0 && r.Intn(3) > 0 {
			x := s.Targets[r.Intn(len(s.Targets))]
			t.Type, t.Target = x.Type, x.ID
		} else {
			t.NoTarget = r.Intn(3) > 0
		}
		t.After = pickSome(r, idents, 4)
		t.Provide = pickSome(r, idents, 3)
		t.Demand = pickSome(r, idents, 3)
		switch t.Type {
		case "demo":
			t.Sub = []string{"echo", "rev", "rot13", "fail", "sleep"}[r.Intn(5)]
		case "sh":
			t.Sub = []string{"", "", "x"}[r.Intn(3)]
			t.List = append([]string{"true"}, pickSome(r, texts, 3)...)
		case "pg":
			t.Text = anyText(r)
		default:
			t.Sub = []string{"", "kind", "plain", "a/b", "plain/x", "é", "/"}[r.Intn(7)]
			t.Text = anyText(r)
			if !strings.HasPrefix(t.Sub, "plain") {
				t.List = pickSome(r, texts, 3)
				if r.Intn(2) == 0 {
					t.Map = map[string]string{}
					for i, k := range pickSome(r, texts, 3) {
						t.Map[fmt.Sprintf("k%d", i)] = k
					}
				}
			}
		}
		s.Tasks = append(s.Tasks, t)
	}
	return s
}

// noise is what may be anywhere between blocks
func noise(r *rand.Rand) string {
	return []string{"", "", "\n", "# comment\n", "// target \"x\" \"y\" {}\n", "/* task\n */\n", "  \t\n"}[r.Intn(7)]
}

func list(r *rand.Rand, l []string) string {
	var b strings.Builder
	b.WriteString("[")
	for i, x := range l {
		if i > 0 {
			b.WriteString(", ")
		}
		if r.Intn(8) == 0 {
			b.WriteString("\n")
		}
		b.WriteString(quoted(r, x))
	}
	if len(l) > 0 && r.Intn(5) == 0 {
		b.WriteString(",\n")
	}
	b.WriteString("]")
	return b.String()
}

func block(r *rand.Rand, head string, attrs []string) string {
	r.Shuffle(len(attrs), func(i, j int) { attrs[i], attrs[j] = attrs[j], attrs[i] })
	if len(attrs) == 0 && r.Intn(2) == 0 {
		return head + " {}\n"
	}
	s := head + " {\n"
	for _, a := range attrs {
		if r.Intn(8) == 0 {
			s += "  # comment\n"
		}
		s += "    " + a + "\n"
	}
	return s + "}\n"
}

func (s *setSpec) has(typ, id string) bool {
	for _, t := range s.Targets {
		if t.Type == typ && t.ID == id {
			return true
		}
	}
	return false
}

// misspelt is almost a known type
func misspelt(r *rand.Rand) string {
	return []string{"nope", "OWN", "Own", "own ", " own", "ow", "owns", "other.", "SH", "Pg", "Demo", "", "ÜNÏ", "uni"}[r.Intn(14)]
}

func (s *setSpec) hcl(r *rand.Rand) string {
	var blocks []string
	for _, t := range s.Targets {
		var attrs []string
		switch {
		case t.Type == "demo":
			attrs = append(attrs, "string = "+quoted(r, t.Setting))
			if t.Count > 0 {
				attrs = append(attrs, fmt.Sprintf("max_concurrency = %d", t.Count))
			}
		case t.Type == "sh" || t.Type == "pg":
		default:
			if t.Setting != "" || r.Intn(2) == 0 {
				attrs = append(attrs, "setting = "+quoted(r, t.Setting))
			}
			if t.Count > 0 || r.Intn(2) == 0 {
				attrs = append(attrs, fmt.Sprintf("count = %d", t.Count))
			}
		}
		blocks = append(blocks, block(r, "target "+quoted(r, t.Type)+" "+quoted(r, t.ID), attrs))
	}
	for _, t := range s.Tasks {
		typ := t.Type
		if t.Sub != "" {
			typ += "/" + t.Sub
		} else if r.Intn(4) == 0 {
			typ += "/"
		}
		var attrs []string
		if !t.NoTarget {
			attrs = append(attrs, "target = "+quoted(r, t.Target))
		}
		for _, x := range []struct {
			name string
			l    []string
		}{{"after", t.After}, {"provides", t.Provide}, {"requires", t.Demand}} {
			if len(x.l) > 0 || r.Intn(6) == 0 {
				attrs = append(attrs, x.name+" = "+list(r, x.l))
			}
		}
		switch t.Type {
		case "demo":
		case "sh":
			attrs = append(attrs, "args = "+list(r, t.List))
		case "pg":
			attrs = append(attrs, "sql = "+quoted(r, t.Text))
		default:
			if t.Text != "" {
				attrs = append(attrs, "text = "+quoted(r, t.Text))
			}
			if len(t.List) > 0 {
				attrs = append(attrs, "list = "+list(r, t.List))
			}
			if t.Map != nil {
				m := "map = {\n"
				for k, v := range t.Map {
					m += "        " + k + " = " + quoted(r, v) + "\n"
				}
				attrs = append(attrs, m+"    }")
			}
		}
		blocks = append(blocks, block(r, "task "+quoted(r, typ)+" "+quoted(r, t.ID), attrs))
	}
	if r.Intn(2) == 0 { // any order
		r.Shuffle(len(blocks), func(i, j int) { blocks[i], blocks[j] = blocks[j], blocks[i] })
	}
	var b strings.Builder
	for _, x := range blocks {
		b.WriteString(noise(r))
		b.WriteString(x)
	}
	b.WriteString(noise(r))
	return b.String()
}

func newSetParser() *parser.Parser {
	log := logger.Discard()
	return &parser.Parser{Targets: map[string]types.TargetFactory{
		"demo":  &demo.TargetFactory{Log: log, Stdout: &bytes.Buffer{}},
		"sh":    &sh.TargetFactory{Log: log},
		"pg":    &pg.TargetFactory{Log: log},
		"own":   &factory{"own"},
		"other": &factory{"other"},
		"ünï":   &factory{"ünï"},
	}}
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func check(s *setSpec, ts *types.TaskSet) (out []string) {
	bad := func(format string, args ...interface{}) { out = append(out, fmt.Sprintf(format, args...)) }
	type key struct{ typ, id string }
	want := map[key]targetSpec{}
	for _, typ := range []string{"demo", "sh", "pg", "own", "other", "ünï"} {
		want[key{typ, ""}] = targetSpec{Type: typ}
	}
	for _, t := range s.Targets {
		want[key{t.Type, t.ID}] = t
	}
	n := 0
	for _, m := range ts.Targets {
		n += len(m)
	}
	if n != len(want) {
		bad("there are %d targets instead of %d", n, len(want))
	}
	distinct := map[types.Target]bool{}
	for k, t := range want {
		x, ok := ts.Targets[k.typ][types.TargetID(k.id)]
		if !ok || x == nil {
			bad("target %q of type %q is missing", k.id, k.typ)
			continue
		}
		if distinct[x] {
			bad("target %q of type %q is shared", k.id, k.typ)
		}
		distinct[x] = true
		switch x := x.(type) {
		case *demo.Target:
			limit := t.Count
			if limit == 0 {
				limit = 1
			}
			if k.typ != "demo" || x.String != t.Setting || x.MaxConcurrency != limit {
				bad("target %q of type %q has the string %q and limit %d instead of %q and %d", k.id, k.typ, x.String, x.MaxConcurrency, t.Setting, limit)
			}
		case *sh.Target:
			if k.typ != "sh" {
				bad("target %q of type %q is of type sh", k.id, k.typ)
			}
		case *pg.Target:
			if k.typ != "pg" {
				bad("target %q of type %q is of type pg", k.id, k.typ)
			}
		case *target:
			if k.typ != x.typ || x.Setting != t.Setting || x.Count != t.Count {
				bad("target %q of type %q is %+v instead of %+v", k.id, k.typ, *x, t)
			}
		default:
			bad("target %q of type %q is a %T", k.id, k.typ, x)
		}
	}
	if len(ts.Tasks) != len(s.Tasks) {
		bad("there are %d tasks instead of %d", len(ts.Tasks), len(s.Tasks))
	}
	for _, t := range s.Tasks {
		x, ok := ts.Tasks[types.TaskID(t.ID)]
		if !ok || x == nil {
			bad("task %q is missing", t.ID)
			continue
		}
		var wantType interface{}
		switch t.Type {
		case "demo":
			wantType = map[string]interface{}{"echo": &demo.Echo{}, "rev": &demo.Rev{}, "rot13": &demo.Rot13{}, "fail": &demo.Fail{}, "sleep": &demo.Sleep{}}[t.Sub]
		case "sh":
			wantType = &sh.Task{}
		case "pg":
			wantType = &pg.Task{}
		default:
			wantType = &child{}
			if strings.HasPrefix(t.Sub, "plain") {
				wantType = &plain{}
			}
		}
		if reflect.TypeOf(x) != reflect.TypeOf(wantType) {
			bad("task %q is a %T instead of a %T", t.ID, x, wantType)
			continue
		}
		owner := ts.Targets[t.Type][types.TargetID(t.Target)]
		switch x := x.(type) {
		case *sh.Task:
			if !same(x.Args, t.List) {
				bad("task %q has the arguments %q instead of %q", t.ID, x.Args, t.List)
			}
		case *pg.Task:
			if x.SQL != t.Text {
				bad("task %q has the SQL %q instead of %q", t.ID, x.SQL, t.Text)
			}
		case *plain:
			if types.Target(x.target) != owner || x.typ != t.Sub || x.Text != t.Text {
				bad("task %q is %+v of %+v instead of %+v of %+v", t.ID, x, x.target, t, owner)
			}
			continue // has no relations
		case *child:
			if types.Target(x.target) != owner || x.typ != t.Sub || x.Text != t.Text || !same(x.List, t.List) ||
				fmt.Sprint(x.Map) != fmt.Sprint(t.Map) {
				bad("task %q is %+v of %+v instead of %+v of %+v", t.ID, x, x.target, t, owner)
			}
		}
		var deps []string
		for _, a := range t.After {
			deps = append(deps, "task:"+a)
		}
		deps = append(deps, t.Demand...)
		for i := 0; i < 2; i++ {
			if got := x.Dependencies(); !same(got, deps) {
				bad("task %q depends on %q instead of %q (question %d)", t.ID, got, deps, i)
			}
		}
		if got := x.Provides(); !same(got, t.Provide) {
			bad("task %q provides %q instead of %q", t.ID, got, t.Provide)
		}
		if err := x.Ready(); err != nil {
			bad("task %q isn't ready: %v", t.ID, err)
		}
	}
	return out
}

func parse(c *vk.Ctx) {
	c.Cases("generated", c.N(2500, 100000), func(cs *vk.Case) {
		s := randomSet(cs.R)
		src := s.hcl(cs.R)
		cs.Describe(src)
		p := newSetParser()
		path := cs.WriteFile(cs.Scratch(), "set.hcl", src)
		ts, err := p.Parse(path)
		if err != nil || ts == nil {
			cs.Violatef("can't parse: %v, %v", ts, err)
			return
		}
		for _, m := range check(s, ts) {
			cs.Violatef("%s", m)
		}
		// a parser can be used again
		ts2, err := p.Parse(path)
		if err != nil {
			cs.Violatef("can't parse again: %v", err)
			return
		}
		for _, m := range check(s, ts2) {
			cs.Violatef("when parsed again: %s", m)
		}
		for typ, group := range ts2.Targets {
			for id, t := range group {
				if ts.Targets[typ][id] == t {
					switch t.(type) {
					case *pg.Target, *sh.Target: // they have no settings
					default:
						cs.Violatef("target %q of type %q is shared by two task sets", id, typ)
					}
				}
			}
		}
		cs.Count("targets checked", len(s.Targets))
		cs.Count("tasks checked", len(s.Tasks))
		cs.Nontrivial(src)
		if len(s.Tasks) > 1 {
			cs.Sample(src)
		}
	})
	c.Cases("mistakes", c.N(2500, 60000), func(cs *vk.Case) {
		s := randomSet(cs.R)
		r := cs.R
		extra := ""
		name := ""
		own := taskSpec{Type: "own", ID: "new task", NoTarget: true}
		switch k := r.Intn(19); k {
		case 0:
			name, extra = "unknown type of target", fmt.Sprintf(`target %q "x y" {}`, misspelt(r))
		case 1:
			name, extra = "unknown type of task", fmt.Sprintf(`task %q "x y" {}`, misspelt(r))
		case 2:
			name, extra = "unknown type of task", fmt.Sprintf(`task %q "x y" {}`, misspelt(r)+"/kind")
		case 3:
			id := "nope"
			if i := r.Intn(len(s.Targets) + 1); i < len(s.Targets) && s.Targets[i].ID != "" {
				// like the name of a target of the right type
				x := s.Targets[i].ID
				id = []string{x + " ", " " + x, x + ".", strings.ToUpper(x), strings.Title(x), x + x, x[:len(x)-1]}[r.Intn(7)]
			}
			for _, x := range s.Targets {
				if x.ID == id || id == "" || !utf8.ValidString(id) {
					id = "nope"
				}
			}
			b, err := json.Marshal(id)
			if err != nil || strings.ContainsAny(id, "\\%$") {
				b = []byte(`"nope"`)
			}
			name, extra = "unknown target", fmt.Sprintf("task \"own\" \"x y\" {\n target = %s\n}", b)
		case 4:
			// a target of another type
			s.Targets = append(s.Targets, targetSpec{Type: "other", ID: "only"})
			name, extra = "target of another type", "task \"own\" \"x y\" {\n target = \"only\"\n}"
		case 5:
			x := targetSpec{Type: kinds[r.Intn(len(kinds))], ID: append(idents, "twice")[r.Intn(len(idents)+1)], Setting: "1"}
			if x.Type == "sh" || x.Type == "pg" {
				x.Setting = ""
			}
			y := x
			if x.Setting != "" {
				y.Setting = []string{"1", "2"}[r.Intn(2)]
			}
			s.Targets = append(s.Targets, x, y)
			name = "duplicate target"
		case 6:
			y := own
			y.Type = []string{"own", "other", "sh"}[r.Intn(3)]
			if y.Type == "sh" {
				y.List = []string{"true"}
			}
			s.Tasks = append(s.Tasks, own, y)
			name = "duplicate task"
		case 7:
			own.Sub = "bad kind"
			s.Tasks = append(s.Tasks, own)
			name = "refused type of task"
		case 8:
			name, extra = "unknown type of demo task", `task "demo/`+[]string{"unknown", "Echo", "echo ", "echo/", " rev", "ROT13", "rot", "/echo", ""}[r.Intn(9)]+`" "x y" {}`
		case 9:
			name, extra = "target without its settings", `target "demo" "x y" {}`
			if r.Intn(2) == 0 && !s.has("demo", "") {
				extra = `target "demo" "" {}`
			}
		case 10:
			name, extra = "task without its settings", `task "sh" "x y" {}`
		case 11:
			name, extra = "task without its settings", `task "pg" "x y" {}`
		case 12:
			name, extra = "unknown attribute", []string{"task \"own\" \"x y\" {\n unknown = 1\n}", "target \"sh\" \"x y\" {\n unknown = 1\n}",
				"unknown = 1", "unknown {}", "task \"sh\" \"x y\" {\n args = []\n provide = []\n}"}[r.Intn(5)]
			if r.Intn(3) == 0 && !s.has("other", "") {
				extra = "target \"other\" \"\" {\n unknown = 1\n}"
			}
		case 13:
			name, extra = "wrong labels", []string{`task "own" {}`, `task {}`, `task "own" "x" "y" {}`, `target "own" {}`, `target "own" "x" "y" {}`, `target {}`}[r.Intn(6)]
		case 14:
			name, extra = "wrong type of value", []string{"task \"own\" \"x y\" {\n after = \"a\"\n}", "task \"own\" \"x y\" {\n after = 1\n}",
				"task \"own\" \"x y\" {\n target = []\n}", "target \"own\" \"x y\" {\n count = \"many\"\n}", "task \"sh\" \"x y\" {\n args = \"a\"\n}",
				"target \"own\" \"x y\" {\n count = 1.5\n}", "task \"own\" \"x y\" {\n text = {}\n}"}[r.Intn(7)]
		case 15:
			name, extra = "syntax error", []string{`task "own" "x y" {`, `}`, `task "own" "x`, "task \"own\" \"x y\" {\n after = [\n}", `= 1`, "task \"own\" \"x y\" { text = 1", "\"task\"", "@"}[r.Intn(8)]
		case 16:
			name, extra = "duplicate attribute", "task \"own\" \"x y\" {\n text = \"a\"\n text = \"b\"\n}"
		case 17:
			name, extra = "unknown variable", "task \"own\" \"x y\" {\n text = \"${unknown}\"\n}"
		case 18:
			name = "no file"
		}
		src := s.hcl(r)
		if r.Intn(2) == 0 && extra != "" && name != "syntax error" {
			src = extra + "\n" + src
		} else {
			src += "\n" + extra
		}
		src += "\n"
		path := cs.WriteFile(cs.Scratch(), "set.hcl", src)
		if name == "no file" {
			path = filepath.Join(cs.Scratch(), "missing.hcl")
		}
		cs.Describe(map[string]string{"mistake": name, "file": src})
		ts, err := newSetParser().Parse(path)
		if err == nil {
			cs.Violatef("a file with the mistake %q was parsed: %s", name, extra)
		} else if err.Error() == "" {
			cs.Violatef("the mistake %q has an empty message", name)
		}
		if err != nil && ts != nil {
			cs.Violatef("there's both a task set and an error: %v", err)
		}
		cs.Hist("mistakes", name)
		cs.Nontrivial(src)
	})
}
