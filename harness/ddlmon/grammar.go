//go:build go1.22

package ddlmon

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
)

// A grammar of definitions, from which both a matcher of prefixes and a regular
// expression with captures are made. The two have nothing in common, except that
// they're generated from the same tree.
type node interface {
	re() string
	// nfa returns the entry of a fragment that continues at next
	nfa(m *machine, next int) int
	// gen writes a member of the language, n is how much it may repeat
	gen(c *choice) string
}

type choice struct {
	intn func(int) int
}

type machine struct {
	set  []func(byte) bool // nil: no transition on a byte
	next []int
	eps  [][]int
}

func (m *machine) state(set func(byte) bool, next int, eps ...int) int {
	m.set, m.next, m.eps = append(m.set, set), append(m.next, next), append(m.eps, eps)
	return len(m.set) - 1
}

func (m *machine) closure(in map[int]bool, s int) {
	if in[s] {
		return
	}
	in[s] = true
	for _, e := range m.eps[s] {
		m.closure(in, e)
	}
}

// a set of states is a state of the deterministic automaton, which is built on demand.
// State 0 is the empty set.
type dfa struct {
	sets  [][]int
	index map[string]int
	next  [][256]int // -1: not known yet
	final []bool
}

func (g *grammar) dstate(in map[int]bool) int {
	l := make([]int, 0, len(in))
	for s := range in {
		l = append(l, s)
	}
	sort.Ints(l)
	k := fmt.Sprint(l)
	if i, ok := g.d.index[k]; ok {
		return i
	}
	var row [256]int
	for i := range row {
		row[i] = -1
	}
	g.d.index[k] = len(g.d.sets)
	g.d.sets, g.d.next, g.d.final = append(g.d.sets, l), append(g.d.next, row), append(g.d.final, in[g.final])
	return len(g.d.sets) - 1
}

func (g *grammar) begin() int { return 1 }

func (g *grammar) step(cur int, b byte) int {
	if n := g.d.next[cur][b]; n >= 0 {
		return n
	}
	next := map[int]bool{}
	for _, s := range g.d.sets[cur] {
		if f := g.m.set[s]; f != nil && f(b) {
			g.m.closure(next, g.m.next[s])
		}
	}
	n := g.dstate(next)
	g.d.next[cur][b] = n
	return n
}

// run returns how many bytes can be the beginning of a member, and whether all of
// data is a member
func (g *grammar) run(data string) (int, bool) {
	cur := g.begin()
	for i := 0; i < len(data); i++ {
		if cur = g.step(cur, data[i]); cur == 0 {
			return i, false
		}
	}
	return len(data), g.d.final[cur]
}

type lit string // case insensitive keyword

func (l lit) re() string {
	var b strings.Builder
	for _, c := range string(l) {
		if c >= 'A' && c <= 'Z' {
			fmt.Fprintf(&b, "[%c%c]", c, c|0x20)
		} else {
			b.WriteString(regexp.QuoteMeta(string(c)))
		}
	}
	return b.String()
}
func (l lit) nfa(m *machine, next int) int {
	for i := len(l) - 1; i >= 0; i-- {
		c := l[i]
		next = m.state(func(x byte) bool {
			return x == c || c >= 'A' && c <= 'Z' && x == c|0x20
		}, next)
	}
	return next
}
func (l lit) gen(c *choice) string {
	switch c.intn(3) {
	case 0:
		return strings.ToLower(string(l))
	case 1:
		b := []byte(l)
		for i := range b {
			if b[i] >= 'A' && b[i] <= 'Z' && c.intn(2) == 0 {
				b[i] |= 0x20
			}
		}
		return string(b)
	}
	return string(l)
}

type class struct {
	expr string
	has  func(byte) bool
	pick func(*choice) string
}

func (k class) re() string                   { return k.expr }
func (k class) nfa(m *machine, next int) int { return m.state(k.has, next) }
func (k class) gen(c *choice) string         { return k.pick(c) }

type seq []node

func (s seq) re() string {
	var b strings.Builder
	for _, n := range s {
		b.WriteString(n.re())
	}
	return b.String()
}
func (s seq) nfa(m *machine, next int) int {
	for i := len(s) - 1; i >= 0; i-- {
		next = s[i].nfa(m, next)
	}
	return next
}
func (s seq) gen(c *choice) string {
	var b strings.Builder
	for _, n := range s {
		b.WriteString(n.gen(c))
	}
	return b.String()
}

type alt []node

func (a alt) re() string {
	l := make([]string, len(a))
	for i, n := range a {
		l[i] = n.re()
	}
	return "(?:" + strings.Join(l, "|") + ")"
}
func (a alt) nfa(m *machine, next int) int {
	l := make([]int, len(a))
	for i, n := range a {
		l[i] = n.nfa(m, next)
	}
	return m.state(nil, -1, l...)
}
func (a alt) gen(c *choice) string { return a[c.intn(len(a))].gen(c) }

type rep struct {
	n        node
	min, max int // max: 1, or -1 for unlimited
}

func (r rep) re() string {
	op := map[[2]int]string{{0, 1}: "?", {0, -1}: "*", {1, -1}: "+"}[[2]int{r.min, r.max}]
	return "(?:" + r.n.re() + ")" + op
}
func (r rep) nfa(m *machine, next int) int {
	if r.max == 1 {
		return m.state(nil, -1, r.n.nfa(m, next), next)
	}
	loop := m.state(nil, -1)
	entry := r.n.nfa(m, loop)
	m.eps[loop] = []int{entry, next}
	if r.min == 1 {
		return entry
	}
	return loop
}
func (r rep) gen(c *choice) string {
	n := r.min
	if r.max == 1 {
		n = c.intn(2)
	} else {
		for c.intn(3) == 0 {
			n++
		}
	}
	s := ""
	for i := 0; i < n; i++ {
		s += r.n.gen(c)
	}
	return s
}

type capture struct {
	name string
	n    node
}

func (k capture) re() string                   { return "(?P<" + k.name + ">" + k.n.re() + ")" }
func (k capture) nfa(m *machine, next int) int { return k.n.nfa(m, next) }
func (k capture) gen(c *choice) string         { return k.n.gen(c) }

func opt(n ...node) node  { return rep{seq(n), 0, 1} }
func many(n ...node) node { return rep{seq(n), 0, -1} }
func some(n node) node    { return rep{n, 1, -1} }

func isSpace(c byte) bool { return c == ' ' || c >= '\t' && c <= '\r' }
func isAlpha(c byte) bool { return c|0x20 >= 'a' && c|0x20 <= 'z' }
func isIdent(c byte) bool { return isAlpha(c) || c == '_' || c >= '0' && c <= '9' }

func oneOf(s string) func(*choice) string {
	return func(c *choice) string { i := c.intn(len(s)); return s[i : i+1] }
}

var (
	space = class{`[ \t\n\v\f\r]`, isSpace, oneOf("    \t\n\r\f")}
	first = class{`[a-zA-Z]`, isAlpha, oneOf("abxzABXZnoOfw")}
	rest  = class{`[_a-zA-Z0-9]`, isIdent, oneOf("abxzABXZ_019dest")}
	any_  = class{`(?s:.)`, func(byte) bool { return true }, oneOf("abc  (())''\"\",.=<>\n\t%$\x00\x80\xff_OR12")}
	unpar = class{`[^)]`, func(c byte) bool { return c != ')' }, oneOf("abc  ((''\"\",.=<>\n\t%$\x00\x80\xff_OR12")}
	ws    = some(space)
	ows   = rep{space, 0, -1}
	ident = seq{first, rep{rest, 0, -1}}
	cons  = opt(alt{
		seq{ws, lit("NOT"), ws, lit("DEFERRABLE")},
		seq{ws, opt(capture{"deferrable", lit("DEFERRABLE")}, ws),
			opt(lit("INITIALLY"), ws, alt{lit("IMMEDIATE"), capture{"deferred", lit("DEFERRED")}})},
	})
	idents = seq{ident, many(opt(ws), lit(","), opt(ws), ident)}
	action = alt{seq{lit("NO"), ws, lit("ACTION")}, lit("RESTRICT"), lit("CASCADE"), seq{lit("SET"), ws, lit("NULL")}, seq{lit("SET"), ws, lit("DEFAULT")}}
	event  = alt{lit("INSERT"), lit("DELETE"), lit("TRUNCATE"), seq{lit("UPDATE"), opt(ws, lit("OF"), ws, idents)}}
)

var checkGrammar = seq{ows, lit("CHECK"), ows, lit("("), capture{"expr", rep{any_, 0, -1}}, lit(")"), cons, ows}

var fkGrammar = seq{ows, lit("FOREIGN"), ws, lit("KEY"), ws, lit("("), opt(ws), capture{"columns", idents}, opt(ws), lit(")"),
	ws, lit("REFERENCES"), ws, capture{"table", ident}, lit("("), opt(ws), capture{"referenced", idents}, opt(ws), lit(")"),
	opt(ws, lit("MATCH"), ws, capture{"match", alt{lit("FULL"), lit("PARTIAL"), lit("SIMPLE")}}),
	opt(ws, lit("ON"), ws, lit("DELETE"), ws, capture{"ondelete", action}),
	opt(ws, lit("ON"), ws, lit("UPDATE"), ws, capture{"onupdate", action}),
	cons, ows}

var indexGrammar = seq{ows, lit("CREATE"), ws, opt(capture{"unique", lit("UNIQUE")}, ws), lit("INDEX"), ws, capture{"name", ident},
	ws, lit("ON"), ws, capture{"table", ident}, opt(ws, lit("USING"), ws, capture{"using", ident}),
	ws, lit("("), opt(ws),
	alt{
		capture{"expr", seq{lit("("), some(unpar), lit(")")}},
		capture{"fncall", seq{ident, lit("("), rep{unpar, 0, -1}, lit(")")}},
		capture{"column", ident},
	},
	opt(ws, capture{"opclass", ident}),
	capture{"more", many(opt(ws), lit(","), opt(ws), ident, opt(ws, ident))},
	opt(ws), lit(")"),
	alt{seq{ws, lit("WHERE"), ws, capture{"where", some(any_)}}, ows}}

var triggerGrammar = seq{ows, lit("CREATE"), ws, opt(capture{"constraint", lit("CONSTRAINT")}, ws), lit("TRIGGER"), ws, capture{"name", ident},
	ws, capture{"when", alt{lit("BEFORE"), lit("AFTER"), seq{lit("INSTEAD"), ws, lit("OF")}}},
	ws, capture{"events", seq{event, many(ws, lit("OR"), ws, event)}},
	ws, lit("ON"), ws, capture{"table", ident},
	cons,
	opt(ws, lit("FOR"), ws, opt(lit("EACH"), ws), alt{capture{"row", lit("ROW")}, lit("STATEMENT")}),
	ws, lit("EXECUTE"), ws, alt{lit("FUNCTION"), lit("PROCEDURE")}, ws, capture{"function", ident}, lit("()"), ows}

type grammar struct {
	name         string
	root         node
	m            *machine
	start, final int
	re           *regexp.Regexp
	d            dfa
}

func compile(name string, root node) *grammar {
	g := &grammar{name: name, root: root, m: &machine{}}
	g.final = g.m.state(nil, -1)
	g.start = root.nfa(g.m, g.final)
	g.d.index = map[string]int{}
	g.dstate(map[int]bool{})
	all := map[int]bool{}
	g.m.closure(all, g.start)
	g.dstate(all)
	g.re = regexp.MustCompile(`\A(?:` + root.re() + `)\z`)
	return g
}

// match returns the named captures, or nil
func (g *grammar) match(data string) map[string]string {
	m := g.re.FindStringSubmatchIndex(data)
	if m == nil {
		return nil
	}
	out := map[string]string{}
	for i, n := range g.re.SubexpNames() {
		if n != "" && m[2*i] >= 0 {
			out[n] = data[m[2*i]:m[2*i+1]]
		}
	}
	return out
}

var (
	checks   = compile("check", checkGrammar)
	fks      = compile("foreign key", fkGrammar)
	indexes  = compile("index", indexGrammar)
	triggers = compile("trigger", triggerGrammar)
)
