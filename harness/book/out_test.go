//go:build go1.22

package book

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"

	"go.uber.org/zap"

	"github.com/sjansen/pgutil/internal/commands"
	"github.com/sjansen/pgutil/internal/runbook"
	"github.com/sjansen/pgutil/internal/sys"
	"github.com/sjansen/pgutil/internal/zverif/jn"
	"github.com/sjansen/pgutil/internal/zverif/vk"
)

// ------------------------------------------------------- a DOT reader

type token struct {
	kind string // "id", "op"
	text string
}

// lexDot follows https://graphviz.org/doc/info/lang.html
func lexDot(s string) (out []token, err error) {
	for len(s) > 0 {
		c := s[0]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			s = s[1:]
		case strings.HasPrefix(s, "->") || strings.HasPrefix(s, "--"):
			out = append(out, token{"op", s[:2]})
			s = s[2:]
		case strings.ContainsRune("{}[];,=:", rune(c)):
			out = append(out, token{"op", s[:1]})
			s = s[1:]
		case c == '"':
			i, text := 1, ""
			for {
				if i >= len(s) {
					return nil, errors.New("unterminated string")
				}
				if s[i] == '"' {
					break
				}
				if s[i] == '\\' && i+1 < len(s) {
					// names are displayed, so what \\ stands for matters
					switch s[i+1] {
					case '"', '\\':
						text += s[i+1 : i+2]
					default:
						return nil, fmt.Errorf("escape sequence %q", s[i:i+2])
					}
					i += 2
					continue
				}
				text += s[i : i+1]
				i++
			}
			out = append(out, token{"id", text})
			s = s[i+1:]
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80:
			i := 0
			for i < len(s) && (s[i] == '_' || s[i] >= 'a' && s[i] <= 'z' || s[i] >= 'A' && s[i] <= 'Z' ||
				s[i] >= '0' && s[i] <= '9' || s[i] >= 0x80) {
				i++
			}
			switch strings.ToLower(s[:i]) {
			case "node", "edge", "graph", "digraph", "subgraph", "strict":
				out = append(out, token{"op", strings.ToLower(s[:i])})
			default:
				out = append(out, token{"id", s[:i]})
			}
			s = s[i:]
		default:
			num := dotNumber.FindString(s)
			if num == "" {
				return nil, fmt.Errorf("unexpected %q", s[:1])
			}
			out = append(out, token{"id", num})
			s = s[len(num):]
		}
	}
	return out, nil
}

var dotNumber = regexp.MustCompile(`^-?(\.[0-9]+|[0-9]+(\.[0-9]*)?)`)

type dotGraph struct {
	name   string
	attrs  map[string]string
	nodes  map[string]string // node -> innermost cluster
	edges  map[[2]string]int
	labels map[string]string // cluster -> label
	subs   map[string]int
}

type dotReader struct {
	toks []token
	g    *dotGraph
}

func (d *dotReader) peek(text string) bool {
	return len(d.toks) > 0 && d.toks[0].kind == "op" && d.toks[0].text == text
}

func (d *dotReader) op(text string) error {
	if !d.peek(text) {
		return fmt.Errorf("expected %q at %v", text, d.toks)
	}
	d.toks = d.toks[1:]
	return nil
}

func (d *dotReader) id() (string, error) {
	if len(d.toks) == 0 || d.toks[0].kind != "id" {
		return "", fmt.Errorf("expected an ID at %v", d.toks)
	}
	t := d.toks[0].text
	d.toks = d.toks[1:]
	return t, nil
}

func readDot(s string) (*dotGraph, error) {
	toks, err := lexDot(s)
	if err != nil {
		return nil, err
	}
	d := &dotReader{toks: toks, g: &dotGraph{attrs: map[string]string{}, nodes: map[string]string{},
		edges: map[[2]string]int{}, labels: map[string]string{}, subs: map[string]int{}}}
	if err = d.op("digraph"); err != nil {
		return nil, err
	}
	if d.g.name, err = d.id(); err != nil {
		return nil, err
	}
	if err = d.block("", d.g.attrs); err != nil {
		return nil, err
	}
	if len(d.toks) > 0 {
		return nil, fmt.Errorf("unexpected %v", d.toks)
	}
	return d.g, nil
}

func (d *dotReader) attrList() (map[string]string, error) {
	attrs := map[string]string{}
	for d.peek("[") {
		d.op("[")
		for !d.peek("]") {
			k, err := d.id()
			if err != nil {
				return nil, err
			}
			if err = d.op("="); err != nil {
				return nil, err
			}
			if attrs[k], err = d.id(); err != nil {
				return nil, err
			}
			if d.peek(",") || d.peek(";") {
				d.toks = d.toks[1:]
			}
		}
		d.op("]")
	}
	return attrs, nil
}

func (d *dotReader) block(cluster string, attrs map[string]string) error {
	if err := d.op("{"); err != nil {
		return err
	}
	for !d.peek("}") {
		switch {
		case len(d.toks) == 0:
			return errors.New("unterminated block")
		case d.peek(";"):
			d.op(";")
		case d.peek("subgraph"):
			d.op("subgraph")
			name, err := d.id()
			if err != nil {
				return err
			}
			d.g.subs[name]++
			sub := map[string]string{}
			if err := d.block(name, sub); err != nil {
				return err
			}
			if label, ok := sub["label"]; ok {
				d.g.labels[name] = label
			}
		case d.peek("node"), d.peek("edge"), d.peek("graph"):
			which := d.toks[0].text
			d.toks = d.toks[1:]
			a, err := d.attrList()
			if err != nil {
				return err
			}
			if which == "graph" {
				for k, v := range a {
					attrs[k] = v
				}
			}
		default:
			name, err := d.id()
			if err != nil {
				return err
			}
			if d.peek("=") {
				d.op("=")
				if attrs[name], err = d.id(); err != nil {
					return err
				}
				continue
			}
			chain := []string{name}
			for d.peek("->") {
				d.op("->")
				next, err := d.id()
				if err != nil {
					return err
				}
				chain = append(chain, next)
			}
			if _, err = d.attrList(); err != nil {
				return err
			}
			for i, n := range chain {
				if c, ok := d.g.nodes[n]; !ok || c == "" {
					d.g.nodes[n] = cluster
				} else if cluster != "" && c != cluster {
					return fmt.Errorf("node %q is in two clusters", n)
				}
				if i > 0 {
					d.g.edges[[2]string{chain[i-1], n}]++
				}
			}
		}
	}
	return d.op("}")
}

// ------------------------------------------------------- runbooks

type simple struct {
	v      m
	target map[string]string
	after  map[string][]string
	qids   []string
}

// simpleDoc is a runbook of tasks that do nothing
func simpleDoc(r *rand.Rand, odd bool) *simple {
	s := &simple{target: map[string]string{}, after: map[string][]string{}}
	tv, kv := m{}, m{}
	n := vk.Several(r, 5, 60)
	for _, q := range ids(r, n, []string{"q", "cluster_q", "node", "", "_q"}[r.Intn(5)], odd) {
		if !strings.Contains(q, "/") {
			s.qids = append(s.qids, q)
			tv[q] = m{"class": "demo"}
		}
	}
	if len(s.qids) > 0 {
		tasks := ids(r, vk.Several(r, 9, 200), []string{"t", "edge", "n-", "cluster_q", "1", "cluster__q"}[r.Intn(6)], odd)
		for _, id := range tasks {
			q := s.qids[r.Intn(len(s.qids))]
			s.target[id] = q
			v := m{"target": q + "/" + []string{"echo", "rev", "rot13"}[r.Intn(3)]}
			after := l{}
			for i := vk.Several(r, 4, 60); i > 0; i-- {
				x := tasks[r.Intn(len(tasks))]
				after = append(after, x)
				s.after[id] = append(s.after[id], x)
			}
			if len(after) > 0 {
				v["after"] = after
			}
			kv[id] = v
		}
	}
	s.v = m{"targets": tv, "tasks": kv}
	return s
}

func odd(r *rand.Rand) bool { return r.Intn(3) > 0 }

type capture struct {
	bytes.Buffer
	writes int
}

func (c *capture) Write(p []byte) (int, error) { c.writes++; return c.Buffer.Write(p) }

func base(w io.Writer) (*commands.Base, *bytes.Buffer) {
	stderr := &bytes.Buffer{}
	return &commands.Base{IO: sys.IO{Log: zap.NewNop().Sugar(), Stdout: w, Stderr: stderr}}, stderr
}

func dots(cs *vk.Case) {
	s := simpleDoc(cs.R, odd(cs.R))
	dir, file, restore := place(cs)
	defer restore()
	dangling := len(s.target) > 0 && cs.R.Intn(12) == 0
	missing, dependent := "", ""
	if dangling {
		id, task := pick(cs.R, s.v["tasks"])
		x := []string{"missing", "runbook", "cluster_q", " "}[cs.R.Intn(4)]
		if cs.R.Intn(2) == 0 {
			var ids []string
			for id := range s.target {
				ids = append(ids, id)
			}
			sort.Strings(ids)
			x = vk.Like(cs.R, ids)
		}
		if _, ok := s.target[x]; ok {
			dangling = false
		} else {
			after, _ := task["after"].(l)
			task["after"] = append(append(l{}, after...), x)
			s.after[id] = append(s.after[id], x)
			missing, dependent = x, id
		}
	}
	w := &jn.Writer{R: cs.R, Dir: dir, Decoys: cwd(), Sugar: []int{0, 10}[cs.R.Intn(2)]}
	write(file, w.Expr(s.v))
	splines := []string{"", "curved", "line", "ortho"}[cs.R.Intn(4)]
	cs.Describe(map[string]interface{}{"runbook": s.v, "splines": splines})
	var out bytes.Buffer
	err := runbook.Dot(quiet(), file, &out, splines)
	if dangling {
		cs.Nontrivial("dangling" + vk.JSON(s.v))
		if err == nil {
			cs.Violatef("graphed a runbook with a dependency on a task that doesn't exist")
		} else {
			for _, name := range []string{missing, dependent} {
				if msg := err.Error(); !strings.Contains(msg, name) && !strings.Contains(msg, strings.Trim(strconv.Quote(name), `"`)) {
					cs.Violatef("%q comes after %q, which doesn't exist, but the error doesn't name %q: %v", dependent, missing, name, err)
				}
			}
		}
		if out.Len() > 0 {
			cs.Violatef("wrote a graph of an invalid runbook")
		}
		return
	}
	if err != nil {
		cs.Violatef("rejected a valid runbook: %v", err)
		return
	}
	g, err := readDot(out.String())
	defer func() { cs.Detail(out.String()) }()
	if err != nil {
		cs.Violatef("the output isn't a DOT file: %v", err)
		return
	}
	if g.attrs["splines"] != splines {
		cs.Violatef("splines=%q instead of %q", g.attrs["splines"], splines)
	}
	if !reflect.DeepEqual(keys(g.nodes), keys(s.target)) {
		cs.Violatef("nodes %q instead of tasks %q", keys(g.nodes), keys(s.target))
	}
	for id, q := range s.target {
		if c := g.nodes[id]; !strings.HasPrefix(c, "cluster") || g.labels[c] != q {
			cs.Violatef("task %q of target %q is in cluster %q, labelled %q", id, q, c, g.labels[c])
		}
		want := map[string]bool{}
		for _, x := range s.after[id] {
			want[x] = true
		}
		for e := range g.edges {
			if e[1] == id && !want[e[0]] {
				cs.Violatef("an edge from %q to %q, which doesn't depend on it", e[0], e[1])
			}
		}
		for x := range want {
			if g.edges[[2]string{x, id}] == 0 {
				cs.Violatef("no edge from %q to %q, which depends on it", x, id)
			}
		}
	}
	for _, q := range s.qids {
		n := 0
		for c, label := range g.labels {
			if label == q && strings.HasPrefix(c, "cluster") {
				n += g.subs[c]
			}
		}
		if n != 1 {
			cs.Violatef("%d clusters for target %q", n, q)
		}
	}
	if len(g.subs) != len(s.qids) {
		cs.Violatef("%d clusters for %d targets", len(g.subs), len(s.qids))
	}
	for i := 0; i < 4 && !cs.Bad(); i++ {
		var again bytes.Buffer
		if err := runbook.Dot(quiet(), file, &again, splines); err != nil || again.String() != out.String() {
			cs.Violatef("the same runbook was graphed differently: %v\n%s", err, again.String())
		}
	}
	cs.Count("edges_checked", len(g.edges))
	cs.Count("nodes_checked", len(g.nodes))
	if len(g.edges) > 0 {
		cs.Nontrivial("dot" + vk.JSON(s.v))
	}
	cs.Sample(map[string]interface{}{"runbook": s.v, "dot": out.String()})
}

// ------------------------------------------------------- eval

func randomValue(r *rand.Rand, depth int) interface{} {
	k := r.Intn(9)
	if depth <= 0 && k > 6 {
		k = r.Intn(7)
	}
	switch k {
	case 0:
		return nil
	case 1:
		return r.Intn(2) == 0
	case 2:
		return float64(r.Intn(1000) - 500)
	case 3:
		if r.Intn(2) == 0 {
			return float64(vk.Int(r, -1<<53, 1<<53))
		}
		return []float64{0, 0.1, -2.5, 1e21, 123456789012, 1 << 52, 9007199254740991, 1e-7, 1e300, 1.0 / 3, 4294967296, -1e15}[r.Intn(12)]
	case 4, 5, 6:
		w := word(r)
		if r.Intn(3) == 0 {
			w += word(r)
		}
		if r.Intn(8) == 0 {
			w += string(rune(1 + r.Intn(0x2fff)))
		}
		return w
	case 7:
		out := l{}
		for i := vk.Several(r, 5, 60); i > 0; i-- {
			out = append(out, randomValue(r, depth-1))
		}
		return out
	default:
		out := m{}
		for i := vk.Several(r, 5, 60); i > 0; i-- {
			k := word(r)
			if r.Intn(2) == 0 {
				k += fmt.Sprint(r.Intn(10))
			}
			out[k] = randomValue(r, depth-1)
		}
		return out
	}
}

var colored = regexp.MustCompile("\x1b\\[[0-9;]+m[^\x1b]*\x1b\\[0m")
var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

// exact compares JSON values; strings may only differ in how they're spelled
func decode(b []byte) (interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	var more interface{}
	if err := d.Decode(&more); err != io.EOF {
		return nil, fmt.Errorf("more than one value: %v", err)
	}
	return v, nil
}

func plainKeys(v interface{}) bool {
	switch x := v.(type) {
	case l:
		for _, y := range x {
			if !plainKeys(y) {
				return false
			}
		}
	case m:
		for k, y := range x {
			if b, _ := json.Marshal(k); string(b) != `"`+k+`"` || !plainKeys(y) {
				return false
			}
		}
	}
	return true
}

func scalars(v interface{}) bool {
	switch x := v.(type) {
	case l:
		for _, y := range x {
			if scalars(y) {
				return true
			}
		}
		return false
	case m:
		return len(x) > 0
	}
	return v != nil
}

func evals(cs *vk.Case) {
	var v interface{}
	if cs.R.Intn(3) == 0 {
		v = interface{}(realDoc(cs.R))
	} else {
		v = randomValue(cs.R, 1+cs.R.Intn(4))
	}
	b, _ := json.Marshal(v)
	want, err := decode(b)
	if err != nil {
		panic(err)
	}
	dir, file, restore := place(cs)
	defer restore()
	w := &jn.Writer{R: cs.R, Dir: dir, Decoys: cwd(), Sugar: []int{0, 10, 30}[cs.R.Intn(3)]}
	text := w.Expr(v)
	write(file, text)
	color := []string{"auto", "false", "false", "true"}[cs.R.Intn(4)]
	cs.Describe(map[string]interface{}{"text": text, "color": color})
	out := &capture{}
	bs, stderr := base(out)
	err = (&commands.RunBookEvalCmd{File: file, Color: color}).Run(bs)
	defer func() { cs.Detail(out.String()) }()
	if err != nil {
		cs.Violatef("can't evaluate a valid file: %v", err)
		return
	}
	if stderr.Len() > 0 {
		cs.Violatef("wrote to stderr: %q", stderr.String())
	}
	got := out.Bytes()
	if color == "true" {
		if !plainKeys(want) {
			return // colored output doesn't escape keys; it's meant for people
		}
		if !ansi.Match(got) && scalars(want) {
			cs.Violatef("no colors, although they were requested: %q", got)
		}
		if rest := colored.ReplaceAll(got, nil); len(bytes.Trim(rest, "{}[],: \n")) > 0 {
			cs.Violatef("only parts of it are colored, although colors were requested: %q remains", rest)
		}
		got = ansi.ReplaceAll(got, nil)
	} else if bytes.Contains(got, []byte("\x1b")) {
		cs.Violatef("colored output, although it wasn't requested: %q", got)
	}
	value, err := decode(got)
	if err != nil {
		cs.Violatef("the output isn't JSON: %v", err)
		return
	}
	if !reflect.DeepEqual(value, want) {
		cs.Violatef("evaluated as %s instead of %s", vk.JSON(value), vk.JSON(want))
	}
	again := &capture{}
	bs, _ = base(again)
	if err := (&commands.RunBookEvalCmd{File: file, Color: color}).Run(bs); err != nil || again.String() != out.String() {
		cs.Violatef("the same file was evaluated differently: %v, %q", err, again.String())
	}
	cs.Hist("color", color)
	cs.Count("bytes_compared", len(got))
	if len(got) > 8 {
		cs.Nontrivial("eval" + color + text)
	}
	cs.Sample(map[string]interface{}{"text": text, "output": out.String()})
}

// onTerminal evaluates a runbook with a terminal as its output
func onTerminal(cs *vk.Case) {
	master, slave, err := vk.Terminal()
	if err != nil {
		return
	}
	defer master.Close()
	defer slave.Close()
	v := interface{}(realDoc(cs.R))
	b, _ := json.Marshal(v)
	want, err := decode(b)
	if err != nil {
		panic(err)
	}
	dir, file, restore := place(cs)
	defer restore()
	write(file, jn.Plain(v))
	color := []string{"auto", "auto", "false", "true"}[cs.R.Intn(4)]
	output := []string{"", "-", "", filepath.Join(dir, "output")}[cs.R.Intn(4)]
	cs.Describe(map[string]interface{}{"text": jn.Plain(v), "color": color, "output": output})
	bs, _ := base(slave)
	done := make(chan []byte)
	go func() {
		var all []byte
		p := make([]byte, 4096)
		for !bytes.HasSuffix(all, []byte("<end>")) {
			n, err := master.Read(p)
			if all = append(all, p[:n]...); err != nil {
				break
			}
		}
		done <- bytes.Replace(bytes.TrimSuffix(all, []byte("<end>")), []byte("\r\n"), []byte("\n"), -1)
	}()
	err = (&commands.RunBookEvalCmd{File: file, Color: color, Output: output}).Run(bs)
	io.WriteString(slave, "<end>")
	got := <-done
	if err != nil {
		cs.Violatef("can't evaluate a valid file: %v", err)
		return
	}
	colors := color == "true" || color == "auto"
	if output != "" && output != "-" {
		if len(got) > 0 {
			cs.Violatef("wrote %q to the terminal instead of a file", got)
		}
		if got, err = os.ReadFile(output); err != nil {
			cs.Violatef("%v", err)
		}
		colors = color == "true"
	}
	cs.Detail(string(got))
	if !colors && bytes.Contains(got, []byte("\x1b")) {
		cs.Violatef("colored output, although it wasn't requested: %q", got)
	}
	if colors {
		if !plainKeys(want) {
			return
		}
		if !ansi.Match(got) && scalars(want) {
			cs.Violatef("no colors on a terminal: %q", got)
		}
		got = ansi.ReplaceAll(got, nil)
	}
	value, err := decode(got)
	if err != nil || !reflect.DeepEqual(value, want) {
		cs.Violatef("%v: evaluated as %s instead of %s", err, vk.JSON(value), vk.JSON(want))
	}
	cs.Count("terminals", 1)
	cs.Nontrivial("terminal" + color + vk.JSON(v))
}

// ------------------------------------------------------- list

// printable drops what would break the lines of a list
func printable(s string) bool {
	return !strings.ContainsAny(s, "\n\t\r") && utf8.ValidString(s)
}

func lists(cs *vk.Case) {
	var s *simple
	for s == nil {
		s = simpleDoc(cs.R, odd(cs.R))
		for id, q := range s.target {
			if !printable(id) || !printable(q) {
				s = nil
				break
			}
		}
	}
	dir, file, restore := place(cs)
	defer restore()
	w := &jn.Writer{R: cs.R, Dir: dir, Decoys: cwd(), Sugar: []int{0, 10}[cs.R.Intn(2)]}
	write(file, w.Expr(s.v))
	cs.Describe(s.v)
	got, err := runbook.List(quiet(), file)
	if err != nil {
		cs.Violatef("rejected a valid runbook: %v", err)
		return
	}
	want := map[runbook.TaskID]runbook.TargetID{}
	for id, q := range s.target {
		want[runbook.TaskID(id)] = runbook.TargetID(q)
	}
	if !reflect.DeepEqual(got, want) {
		cs.Violatef("listed %v instead of %v", got, want)
	}
	out := &capture{}
	bs, stderr := base(out)
	if err = (&commands.RunBookListCmd{File: file}).Run(bs); err != nil {
		cs.Violatef("rejected a valid runbook: %v", err)
		return
	}
	defer func() { cs.Detail(out.String()) }()
	if stderr.Len() > 0 {
		cs.Violatef("wrote to stderr: %q", stderr.String())
	}
	if !strings.HasSuffix(out.String(), "\n") {
		cs.Violatef("the last line is incomplete")
	}
	lines := strings.Split(strings.TrimSuffix(out.String(), "\n"), "\n")
	taskIDs := keys(s.target)
	sort.Strings(taskIDs)
	if len(lines) != 1+len(taskIDs) || strings.HasPrefix(lines[0], " ") {
		cs.Violatef("%d lines for a heading and %d tasks", len(lines), len(taskIDs))
		return
	}
	column := -1
	for i, id := range taskIDs {
		line, q := lines[i+1], s.target[id]
		if !strings.HasPrefix(line, "  "+id) || !strings.HasSuffix(line, "  "+q) ||
			strings.Trim(line[2+len(id):len(line)-len(q)], " ") != "" {
			cs.Violatef("line %d is %q instead of task %q and target %q", i+2, line, id, q)
			continue
		}
		if c := utf8.RuneCountInString(line[:len(line)-len(q)]); column >= 0 && c != column {
			cs.Violatef("line %d isn't aligned: %q", i+2, line)
		} else {
			column = c
		}
	}
	cs.Count("lines_checked", len(taskIDs))
	if len(taskIDs) > 1 {
		cs.Nontrivial("list" + vk.JSON(s.v))
	}
	cs.Sample(map[string]interface{}{"runbook": s.v, "output": out.String()})
}

// ------------------------------------------------------- failures

// writing fails with any of these
var writeErrors = []error{errors.New("no space left on device"), syscall.ENOSPC, syscall.EPIPE, syscall.EIO, syscall.EINTR, syscall.EAGAIN,
	&os.PathError{Op: "write", Path: "/dev/stdout", Err: syscall.EPIPE}, &os.PathError{Op: "write", Path: "|1", Err: os.ErrClosed},
	os.ErrClosed, io.ErrShortWrite, io.ErrClosedPipe, io.EOF, io.ErrUnexpectedEOF, io.ErrNoProgress, context.Canceled, os.ErrDeadlineExceeded}

// full accepts some bytes before it fails
type full struct {
	room    int
	partial bool
	err     error
	got     []byte
	failed  bool
}

func (f *full) Write(p []byte) (int, error) {
	if len(p) <= f.room {
		f.room -= len(p)
		f.got = append(f.got, p...)
		return len(p), nil
	}
	f.failed = true
	n := 0
	if f.partial {
		n = f.room
		f.got = append(f.got, p[:n]...)
	}
	f.room = 0
	return n, f.err
}

type cmd struct {
	name string
	run  func(*commands.Base) error
}

func cmds(r *rand.Rand, file string) []cmd {
	color := []string{"auto", "true", "false"}[r.Intn(3)]
	info, _ := debug.ReadBuildInfo()
	return []cmd{
		{"list", (&commands.RunBookListCmd{File: file}).Run},
		{"dot", (&commands.RunBookDotCmd{File: file}).Run},
		{"dot", (&commands.RunBookDotCmd{File: file, Output: "-", AutoOut: r.Intn(2) == 0}).Run},
		{"eval", (&commands.RunBookEvalCmd{File: file, Color: color}).Run},
		{"eval", (&commands.RunBookEvalCmd{File: file, Color: color, Output: "-"}).Run},
		{"version", (&commands.VersionCmd{App: "pgutil", Build: "1", BuildInfo: info}).Run},
		{"version --long", (&commands.VersionCmd{App: "pgutil", Build: "1", BuildInfo: info, Verbose: true}).Run},
		{"run", (&commands.RunBookRunCmd{File: file}).Run},
	}
}

// echoDoc prints with tasks of both kinds
func echoDoc(r *rand.Rand) m {
	v := m{"targets": m{"d": m{"class": "demo", "config": m{"string": "text " + word(r)}}, "s": m{"class": "sh"}},
		"tasks": m{"t0": m{"target": "d/echo"}}}
	if r.Intn(3) == 0 {
		v["tasks"].(m)["t1"] = m{"target": "s", "config": m{"args": l{"printf", "%s", "some text"}}}
	}
	return v
}

func failing(cs *vk.Case) {
	_, file, restore := place(cs)
	defer restore()
	v := echoDoc(cs.R)
	write(file, (&jn.Writer{R: cs.R}).Expr(v))
	list := cmds(cs.R, file)
	c := list[cs.R.Intn(len(list))]
	healthy := &capture{}
	bs, _ := base(healthy)
	if err := c.run(bs); err != nil {
		cs.Violatef("%s failed: %v", c.name, err)
		return
	}
	n := healthy.Len()
	if n == 0 {
		cs.Violatef("%s printed nothing", c.name)
		return
	}
	room := cs.R.Intn(n)
	f := &full{room: room, partial: cs.R.Intn(2) == 0, err: writeErrors[cs.R.Intn(len(writeErrors))]}
	cs.Describe(map[string]interface{}{"command": c.name, "output": healthy.String(), "room": room, "error": f.err.Error()})
	bs, _ = base(f)
	err := c.run(bs)
	if !f.failed {
		return // nothing failed, e.g. as the output varies
	}
	cs.Hist("failed_writes", c.name)
	cs.Nontrivial(fmt.Sprint("full", c.name, room, f.partial, f.err, healthy.String()))
	if err == nil {
		cs.Violatef("%s succeeded, although %d of %d bytes couldn't be written", c.name, n-room, n)
	}
}

func outputs(cs *vk.Case) {
	dir, file, restore := place(cs)
	defer restore()
	s := simpleDoc(cs.R, odd(cs.R))
	v := s.v
	valid := cs.R.Intn(2) == 0
	wrap := func(s string) string { return s }
	command := []string{"dot", "dot -O", "eval"}[cs.R.Intn(3)]
	mistake := ""
	if !valid {
		v = realDoc(cs.R)
		if command == "eval" {
			mistake = "not a program"
			wrap = func(s string) string { return s + " + error 'failed'" }
		} else {
			var w func(string) string
			if mistake, w = spoil(cs.R, v); w != nil {
				wrap = w
			}
		}
	}
	write(file, wrap((&jn.Writer{R: cs.R}).Expr(v)))
	out := filepath.Join(dir, []string{"out", "out file.dot", "x.json"}[cs.R.Intn(3)])
	switch {
	case command == "dot -O":
		ext := filepath.Ext(file)
		out = strings.TrimSuffix(file, ext) + ".dot"
	case cs.R.Intn(4) == 0: // the parent of a symbolic link isn't the directory it's in
		link, far := filepath.Join(dir, "link"), filepath.Join(cs.Scratch(), "far")
		if err := os.MkdirAll(filepath.Join(far, "d"), 0755); err != nil {
			panic("monitor panic: " + err.Error())
		}
		if err := os.Symlink(filepath.Join(far, "d"), link); err != nil {
			panic("monitor panic: " + err.Error())
		}
		out = link + []string{"/../out", "//.//out", "/out"}[cs.R.Intn(3)]
	}
	state := []string{"absent", "short", "long", "unwritable"}[cs.R.Intn(4)]
	before := map[string]string{"short": "x", "long": strings.Repeat("previous contents\n", 2000)}[state]
	switch state {
	case "short", "long":
		write(out, before)
	case "unwritable":
		if err := os.Mkdir(out, 0755); err != nil {
			panic(err)
		}
	}
	make := func(output string) func(*commands.Base) error {
		switch command {
		case "dot":
			return (&commands.RunBookDotCmd{File: file, Output: output}).Run
		case "dot -O":
			return (&commands.RunBookDotCmd{File: file, Output: output, AutoOut: output == ""}).Run
		default:
			return (&commands.RunBookEvalCmd{File: file, Output: output, Color: "auto"}).Run
		}
	}
	cs.Describe(map[string]interface{}{"command": command, "runbook": v, "mistake": mistake, "output": out, "state": state})
	stdout := &capture{}
	bs, stderr := base(stdout)
	var err error
	if command == "dot -O" {
		err = make("")(bs)
	} else {
		err = make(out)(bs)
	}
	if stdout.Len()+stderr.Len() > 0 {
		cs.Violatef("also wrote to stdout or stderr: %q %q", stdout.String(), stderr.String())
	}
	cs.Hist("outputs", fmt.Sprintf("%s, valid=%v, %s", command, valid, state))
	cs.Nontrivial(fmt.Sprint("output", command, state, vk.JSON(v)))
	after, readErr := os.ReadFile(out)
	if valid && state != "unwritable" {
		if err != nil {
			cs.Violatef("%s failed: %v", command, err)
			return
		}
		want := &capture{}
		bs, _ := base(want)
		if err := make("-")(bs); err != nil {
			cs.Violatef("%s to stdout failed: %v", command, err)
		} else if readErr != nil || !bytes.Equal(after, want.Bytes()) {
			cs.Violatef("the file has %d bytes (%v), but stdout gets %d bytes", len(after), readErr, want.Len())
		}
		return
	}
	if err == nil {
		cs.Violatef("%s succeeded (mistake: %q, output file: %s)", command, mistake, state)
	}
	switch state {
	case "absent":
		if !os.IsNotExist(readErr) {
			cs.Violatef("%s failed, but created its output file: %q", command, after)
		}
	case "short", "long":
		if readErr != nil || string(after) != before {
			cs.Violatef("%s failed, but replaced the contents of its output file: %v, %q", command, readErr, after)
		}
	}
}

// spared checks that no command changes the runbook, or other files next to it
func spared(cs *vk.Case) {
	dir := cs.Scratch()
	sub := filepath.Join(dir, []string{"d", "d.x", "a.b c", ".d"}[cs.R.Intn(4)])
	if err := os.MkdirAll(sub, 0755); err != nil {
		panic(err)
	}
	name := []string{"book.jsonnet", "book", "book.dot", "a.b.dot", "dot", "x.dot.dot", "a.b.c", "x.DOT", ".x.dot", "two words.json", "trailing."}[cs.R.Intn(11)]
	file := filepath.Join(sub, name)
	text := (&jn.Writer{R: cs.R}).Expr(simpleDoc(cs.R, odd(cs.R)).v)
	write(file, text)
	write(filepath.Join(sub, "other.dot"), "other")
	before, _ := os.ReadDir(sub)
	var c cmd
	auto := false
	switch cs.R.Intn(4) {
	case 0:
		c = cmd{"list", (&commands.RunBookListCmd{File: file}).Run}
	case 1:
		c = cmd{"eval", (&commands.RunBookEvalCmd{File: file, Color: "auto"}).Run}
	default:
		auto = true
		c = cmd{"dot -O", (&commands.RunBookDotCmd{File: file, AutoOut: true}).Run}
	}
	cs.Describe(map[string]string{"command": c.name, "file": file})
	bs, _ := base(&capture{})
	if err := c.run(bs); err != nil {
		cs.Violatef("%s failed: %v", c.name, err)
		return
	}
	if b, err := os.ReadFile(file); err != nil || string(b) != text {
		cs.Violatef("%s of %q changed the runbook (%v)", c.name, name, err)
	}
	if b, err := os.ReadFile(filepath.Join(sub, "other.dot")); err != nil || string(b) != "other" {
		cs.Violatef("%s of %q changed another file (%v)", c.name, name, err)
	}
	after, _ := os.ReadDir(sub)
	created := []string{}
	had := map[string]bool{}
	for _, f := range before {
		had[f.Name()] = true
	}
	for _, f := range after {
		if !had[f.Name()] {
			created = append(created, f.Name())
		}
	}
	switch {
	case !auto && len(created) > 0:
		cs.Violatef("%s of %q created %q", c.name, name, created)
	case auto && (len(created) != 1 || !strings.HasSuffix(created[0], ".dot")):
		cs.Violatef("%s of %q created %q", c.name, name, created)
	}
	cs.Hist("files spared by", c.name)
	cs.Nontrivial(c.name + file)
}

func full2(cs *vk.Case) {
	_, file, restore := place(cs)
	defer restore()
	write(file, (&jn.Writer{R: cs.R}).Expr(echoDoc(cs.R)))
	which := cs.R.Intn(2)
	cs.Describe(which)
	bs, _ := base(&capture{})
	var err error
	if which == 0 {
		err = (&commands.RunBookDotCmd{File: file, Output: "/dev/full"}).Run(bs)
	} else {
		err = (&commands.RunBookEvalCmd{File: file, Output: "/dev/full", Color: "auto"}).Run(bs)
	}
	if err == nil {
		cs.Violatef("succeeded, although nothing could be written to the output file")
	}
}

// pipes: the reader of a named pipe reads all of the output, or goes away before that
func pipes(cs *vk.Case) {
	_, file, restore := place(cs)
	defer restore()
	big := strings.Repeat(string(rune('a'+cs.R.Intn(26))), 80000+cs.R.Intn(150000))
	which := []string{"dot", "eval", "list"}[cs.R.Intn(3)]
	switch cs.R.Intn(3) {
	case 0: // one big piece
		write(file, fmt.Sprintf(`{targets: {a: {class: 'demo', config: {string: %q}}}, tasks: {%q: {target: 'a/echo'}}}`, big, big))
	default: // many small pieces
		var b strings.Builder
		b.WriteString("{targets: {a: {class: 'demo', config: {string: 'x'}}}, tasks: {\n")
		for i := 0; i < 500; i++ {
			fmt.Fprintf(&b, "%q: {target: 'a/echo'},\n", fmt.Sprint(i, big[:300]))
		}
		b.WriteString("}}\n")
		write(file, b.String())
	}
	run := func(w io.Writer, output string) error {
		bs, _ := base(w)
		switch which {
		case "dot":
			return (&commands.RunBookDotCmd{File: file, Output: output}).Run(bs)
		case "eval":
			return (&commands.RunBookEvalCmd{File: file, Output: output, Color: "false"}).Run(bs)
		}
		return (&commands.RunBookListCmd{File: file}).Run(bs)
	}
	var want capture
	if err := run(&want, ""); err != nil {
		cs.Violatef("failed: %v", err)
		return
	}
	if want.Len() < 75000 {
		cs.Violatef("the output has only %d bytes", want.Len())
		return
	}
	name := filepath.Join(cs.Scratch(), "pipe")
	if err := syscall.Mkfifo(name, 0600); err != nil {
		panic("monitor panic: " + err.Error())
	}
	r, err := os.OpenFile(name, os.O_RDWR, 0)
	if err != nil {
		panic("monitor panic: " + err.Error())
	}
	// more than what fits into the pipe remains
	k := want.Len()
	whole := cs.R.Intn(4) == 0
	if !whole {
		k = cs.R.Intn(want.Len() - 70000)
	}
	cs.Describe([]interface{}{which, want.Len(), k})
	got := make([]byte, k)
	done := make(chan int)
	go func() {
		r.SetReadDeadline(time.Now().Add(60 * time.Second))
		n, _ := io.ReadFull(r, got)
		r.Close()
		done <- n
	}()
	if which == "list" || cs.R.Intn(2) == 0 {
		var w *os.File
		if w, err = os.OpenFile(name, os.O_WRONLY, 0); err != nil {
			panic("monitor panic: " + err.Error())
		}
		err = run(w, "")
		w.Close()
	} else {
		err = run(&capture{}, name)
	}
	if err != nil && whole {
		// otherwise the reader might wait for the rest
		r.SetReadDeadline(time.Now())
	}
	n := <-done
	os.Remove(name)
	switch {
	case n < k || !bytes.Equal(got, want.Bytes()[:k]):
		cs.Violatef("%s: the output to a pipe isn't the one to a buffer (error %v, %d of %d bytes)", which, err, n, k)
	case whole && err != nil:
		cs.Violatef("%s: %v", which, err)
	case !whole && err == nil:
		cs.Violatef("%s succeeded, although only %d of %d bytes were read", which, k, want.Len())
	}
	cs.Count("pipes", 1)
	cs.Nontrivial(fmt.Sprint(which, want.Len(), k))
}

func init() {
	vk.Register("C13", "dot", func(c *vk.Ctx) { c.Cases("doc", c.N(3500, 60000), dots) })
	vk.Register("C14", "eval", func(c *vk.Ctx) {
		c.Cases("doc", c.N(4500, 80000), evals)
		c.Cases("terminal", c.N(40, 400), onTerminal)
	})
	vk.Register("C15", "list", func(c *vk.Ctx) { c.Cases("doc", c.N(4500, 80000), lists) })
	vk.Register("C16", "outputs", func(c *vk.Ctx) {
		c.Cases("writer", c.N(1500, 20000), failing)
		c.Cases("file", c.N(2500, 40000), outputs)
		c.Cases("full", 8, full2)
		c.Cases("pipe", c.N(40, 600), pipes)
		c.Cases("spared", c.N(300, 5000), spared)
	})
}
