//go:build go1.22

// Package ddlmon monitors the package that describes databases: the parsers of
// definitions, the configuration files, and the SQL it generates.
package ddlmon

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"testing"

	"github.com/sjansen/pgutil/internal/ddl"
	"github.com/sjansen/pgutil/internal/zverif/dgen"
	"github.com/sjansen/pgutil/internal/zverif/vk"
)

func TestVerif(t *testing.T) { vk.Main(t) }

type parser struct {
	g     *grammar
	parse func(string) (interface{}, error)
	want  func(data string, m map[string]string) interface{}
	make  func(g *dgen.G) (string, interface{})
	// members that use every part of the grammar
	samples []string
}

func list(s string) []string {
	l := strings.Split(s, ",")
	for i := range l {
		l[i] = strings.Trim(l[i], " \t\n\v\f\r")
	}
	return l
}

func words(s string) string { return strings.ToUpper(strings.Join(strings.Fields(s), " ")) }

func has(m map[string]string, k string) bool { _, ok := m[k]; return ok }

func key(k *ddl.IndexKey, op string) *ddl.IndexKey {
	switch strings.ToUpper(op) {
	case "", "ASC":
	case "DESC":
		k.Descending = true
	default:
		k.OpClass = op
	}
	return k
}

// a typed nil pointer in an interface isn't nil
func nilness(v interface{}, err error) (interface{}, error) {
	if rv := reflect.ValueOf(v); rv.Kind() == reflect.Ptr && rv.IsNil() {
		return nil, err
	}
	return v, err
}

var parsers = []*parser{
	{
		g: checks,
		parse: func(s string) (interface{}, error) {
			c, err := ddl.ParseCheck(s)
			return nilness(c, err)
		},
		want: func(data string, m map[string]string) interface{} {
			return &ddl.Check{Expression: strings.TrimSpace(m["expr"]), Deferrable: has(m, "deferrable"), InitiallyDeferred: has(m, "deferred")}
		},
		make: func(g *dgen.G) (string, interface{}) { s, c := g.Check(); return s, c },
		samples: []string{
			"CHECK ((a > 0))", " check(a)\n", "CHECK (a) NOT DEFERRABLE", "CHECK (a) DEFERRABLE INITIALLY IMMEDIATE ",
			"CHECK ('x)') DEFERRABLE INITIALLY DEFERRED", "CHECK(a) INITIALLY DEFERRED", "CHECK (a)INITIALLY DEFERRED)", "CHECK ()",
		},
	},
	{
		g: fks,
		parse: func(s string) (interface{}, error) {
			c, err := ddl.ParseForeignKey(s)
			return nilness(c, err)
		},
		want: func(data string, m map[string]string) interface{} {
			return &ddl.ForeignKey{Table: m["table"], Columns: list(m["columns"]), Referenced: list(m["referenced"]), Match: words(m["match"]),
				OnDelete: words(m["ondelete"]), OnUpdate: words(m["onupdate"]), Deferrable: has(m, "deferrable"), InitiallyDeferred: has(m, "deferred")}
		},
		make: func(g *dgen.G) (string, interface{}) { s, c := g.ForeignKey("", nil); return s, c },
		samples: []string{
			"FOREIGN KEY (a) REFERENCES t(b)", "foreign key ( a , b ) references t( c , d ) ",
			"FOREIGN KEY (a, b) REFERENCES t(c, d) MATCH FULL ON DELETE SET NULL ON UPDATE CASCADE DEFERRABLE INITIALLY DEFERRED",
			"FOREIGN KEY (a_1) REFERENCES t2(b) MATCH PARTIAL ON DELETE NO ACTION ON UPDATE RESTRICT NOT DEFERRABLE",
			"FOREIGN KEY (a) REFERENCES t(b) MATCH SIMPLE ON UPDATE SET DEFAULT INITIALLY IMMEDIATE",
			"FOREIGN KEY (a) REFERENCES t(b) ON DELETE CASCADE DEFERRABLE ", "FOREIGN KEY (a) REFERENCES t(b) ON UPDATE NO ACTION",
			"FOREIGN KEY (a) REFERENCES t(b) ON DELETE RESTRICT ON UPDATE SET NULL DEFERRABLE INITIALLY IMMEDIATE",
			"FOREIGN KEY (a) REFERENCES t(b) ON DELETE SET DEFAULT INITIALLY DEFERRED",
		},
	},
	{
		g: indexes,
		parse: func(s string) (interface{}, error) {
			c, err := ddl.ParseIndex(s)
			return nilness(c, err)
		},
		want: func(data string, m map[string]string) interface{} {
			ix := &ddl.Index{Table: m["table"], Name: m["name"], Unique: has(m, "unique"), Using: m["using"], Where: dgen.Collapse(m["where"])}
			k := &ddl.IndexKey{Column: m["column"], Expression: m["expr"]}
			if has(m, "fncall") {
				k.Expression = m["fncall"]
			}
			ix.Keys = []*ddl.IndexKey{key(k, m["opclass"])}
			for _, item := range list(m["more"])[1:] {
				f := append(strings.Fields(item), "")
				ix.Keys = append(ix.Keys, key(&ddl.IndexKey{Column: f[0]}, f[1]))
			}
			return ix
		},
		make: func(g *dgen.G) (string, interface{}) { s, c := g.Index("", "", g.R.Intn(2) == 0, nil); return s, c },
		samples: []string{
			"CREATE INDEX i ON t (a)", "create unique index I_1 on T_2 using btree ( a , b ) ",
			"CREATE UNIQUE INDEX i ON t USING gin (lower(a) text_ops, b DESC, c ASC, d x_ops) WHERE (a = 'b  c')",
			"CREATE INDEX i ON t USING hash ((a + b) desc)", "CREATE INDEX i ON t (f() ASC)", "CREATE INDEX i ON t ( (a) ,b)  WHERE  b",
		},
	},
	{
		g: triggers,
		parse: func(s string) (interface{}, error) {
			c, err := ddl.ParseTrigger(s)
			return nilness(c, err)
		},
		want: func(data string, m map[string]string) interface{} {
			t := &ddl.Trigger{Table: m["table"], Name: m["name"], Function: m["function"], When: words(m["when"]), Constraint: has(m, "constraint"),
				Deferrable: has(m, "deferrable"), InitiallyDeferred: has(m, "deferred"), ForEachRow: has(m, "row")}
			tok := strings.Fields(strings.Replace(m["events"], ",", " , ", -1))
			for i := 0; i < len(tok); i++ {
				switch strings.ToUpper(tok[i]) {
				case "INSERT":
					t.Insert = true
				case "DELETE":
					t.Delete = true
				case "TRUNCATE":
					t.Truncate = true
				case "UPDATE":
					t.Update = true
					if i+1 < len(tok) && strings.ToUpper(tok[i+1]) == "OF" {
						t.Columns = append(t.Columns, tok[i+2])
						for i += 2; i+1 < len(tok) && tok[i+1] == ","; i += 2 {
							t.Columns = append(t.Columns, tok[i+2])
						}
					}
				default:
					panic("monitor panic: event " + tok[i])
				}
				i++ // OR
			}
			return t
		},
		make: func(g *dgen.G) (string, interface{}) { s, c := g.Trigger("", "", nil); return s, c },
		samples: []string{
			"CREATE TRIGGER a BEFORE INSERT ON t FOR EACH ROW EXECUTE PROCEDURE f()", "create trigger A_1 instead of truncate on T_2 for statement execute function F_3() ",
			"CREATE CONSTRAINT TRIGGER a AFTER INSERT OR DELETE OR UPDATE OF x, y OR TRUNCATE ON t DEFERRABLE INITIALLY DEFERRED FOR EACH ROW EXECUTE FUNCTION f()",
			"CREATE TRIGGER a AFTER UPDATE OF x , y_1,z OR DELETE ON t NOT DEFERRABLE FOR EACH STATEMENT EXECUTE PROCEDURE f()",
			"CREATE TRIGGER a BEFORE DELETE OR UPDATE ON t INITIALLY IMMEDIATE FOR ROW EXECUTE PROCEDURE f()",
			"CREATE TRIGGER a AFTER TRUNCATE OR UPDATE OF c ON t DEFERRABLE INITIALLY IMMEDIATE EXECUTE PROCEDURE f()",
			"CREATE TRIGGER a AFTER UPDATE OR INSERT ON t DEFERRABLE  FOR STATEMENT EXECUTE PROCEDURE f()",
		},
	},
}

func init() {
	vk.Register("C27", "definitions", definitions)
	vk.Register("C27", "options", options)
	vk.Register("C27", "edits", func(c *vk.Ctx) { edits(c, true) })
	vk.Register("C27", "sentences", func(c *vk.Ctx) { sentences(c, true) })
	vk.Register("C27", "server", server)
	vk.Register("C28", "edits", func(c *vk.Ctx) { edits(c, false) })
	vk.Register("C28", "sentences", func(c *vk.Ctx) { sentences(c, false) })
	vk.Register("C28", "noise", noise)
}

func show(v interface{}) string {
	if v == nil {
		return "nothing"
	}
	return vk.JSON(v)
}

func same(got, want interface{}) bool {
	if reflect.DeepEqual(got, want) {
		return true
	}
	a, ok1 := got.(*ddl.Index)
	b, ok2 := want.(*ddl.Index)
	if ok1 && ok2 && balanced(b.Where) == false {
		// what's inside of quotes isn't defined if they're unbalanced
		x, y := *a, *b
		x.Where, y.Where = strings.Join(strings.Fields(x.Where), " "), strings.Join(strings.Fields(y.Where), " ")
		return reflect.DeepEqual(&x, &y)
	}
	return false
}

func balanced(s string) bool {
	var quote rune
	for _, c := range s {
		switch {
		case quote != 0 && c == quote:
			quote = 0
		case quote == 0 && (c == '\'' || c == '"'):
			quote = c
		case c == 0x85 || c == 0xA0 || c == 0xFFFD || c >= 0x1680:
			return false // Unicode's idea of whitespace differs
		}
	}
	return quote == 0
}

// judge parses data and compares with the reference. n is how much of it can begin
// a definition, ok whether all of it is one.
func judge(cs *vk.Case, p *parser, data string, n int, ok, meaning bool) bool {
	var got interface{}
	var err error
	if r, stack := vk.Recover(func() { got, err = p.parse(data) }); r != nil {
		cs.Violatef("parsing the %s %q panicked: %v\n%s", p.g.name, data, r, stack)
		return false
	}
	cs.Count("definitions", 1)
	if meaning {
		switch {
		case ok && err != nil:
			cs.Violatef("the %s %q was rejected: %v", p.g.name, data, err)
			return false
		case !ok && err == nil:
			cs.Violatef("%q isn't a %s, because of what's at byte %d, but it was accepted as %s", data, p.g.name, n, show(got))
			return false
		case ok:
			m := p.g.match(data)
			if m == nil {
				panic("monitor panic: the two matchers disagree about " + data)
			}
			if want := p.want(data, m); !same(got, want) {
				cs.Violatef("the %s %q was parsed as %s, expected %s", p.g.name, data, show(got), show(want))
				return false
			}
			cs.Count("accepted", 1)
		}
		return true
	}
	switch {
	case err != nil && got != nil:
		cs.Violatef("parsing the %s %q returned both %s and the error %v", p.g.name, data, show(got), err)
		return false
	case err == nil && got == nil:
		cs.Violatef("parsing the %s %q returned neither a result nor an error", p.g.name, data)
		return false
	case err == nil:
		cs.Count("accepted", 1)
		return true
	case ok:
		return true // C27's business
	}
	cs.Count("rejected", 1)
	var msg string
	if r, stack := vk.Recover(func() { msg = err.Error() }); r != nil {
		cs.Violatef("the message of the error about %q panicked: %v\n%s", data, r, stack)
		return false
	}
	if n == len(data) {
		cs.Count("rejected because of its end", 1)
		if msg == "" || strings.HasSuffix(msg, "^") {
			cs.Violatef("the %s %q is incomplete, but the error points elsewhere: %q", p.g.name, data, msg)
			return false
		}
		return true
	}
	begin := strings.LastIndexByte(data[:n], '\n') + 1
	line := data[begin:]
	if i := strings.IndexByte(data[n:], '\n'); i >= 0 {
		line = data[begin : n+i]
	}
	for i := 0; i < len(data[begin:n]); i++ {
		if data[begin+i] >= 0x80 {
			return true // what a column is isn't defined
		}
	}
	if want := line + "\n" + strings.Repeat(" ", n-begin) + "^"; !strings.HasSuffix(msg, want) {
		cs.Violatef("the %s %q can't continue with what's at byte %d, but the error says %q", p.g.name, brief(data), n, brief(msg))
		return false
	}
	return true
}

func brief(s string) string {
	if len(s) > 5000 {
		return s[:2000] + " ... " + s[len(s)-2000:]
	}
	return s
}

func definitions(c *vk.Ctx) {
	c.Cases("generated", c.N(4000, 200000), func(cs *vk.Case) {
		p := parsers[cs.I%len(parsers)]
		g := &dgen.G{R: cs.R, PG: cs.R.Intn(3) == 0}
		data, want := p.make(g)
		cs.Describe(data)
		if n, ok := p.g.run(data); !ok {
			panic(fmt.Sprintf("monitor panic: %q doesn't match at %d", data, n))
		}
		got, err := p.parse(data)
		switch {
		case err != nil:
			cs.Violatef("the %s %q was rejected: %v", p.g.name, data, err)
		case !reflect.DeepEqual(got, want):
			cs.Violatef("the %s %q was parsed as %s, expected %s", p.g.name, data, show(got), show(want))
		}
		// the same text again: nothing is remembered
		again, err := p.parse(data)
		if err != nil || !reflect.DeepEqual(again, got) {
			cs.Violatef("parsing %q again resulted in %s (%v) instead of %s", data, show(again), err, show(got))
		}
		cs.Nontrivial(data)
		cs.Hist("definitions of a", p.g.name)
	})
}

// options enumerates all combinations of options
func options(c *vk.Ctx) {
	tails := []string{"", " NOT DEFERRABLE", " DEFERRABLE ", " DEFERRABLE INITIALLY DEFERRED", " DEFERRABLE INITIALLY IMMEDIATE", " INITIALLY DEFERRED", " INITIALLY IMMEDIATE", "\n"}
	acts := []string{"", "NO ACTION", "RESTRICT", "CASCADE", "SET NULL", "SET DEFAULT"}
	run := func(name string, p *parser, all func(emit func(string))) {
		c.One(name, func(cs *vk.Case) {
			cs.Describe("every combination of the options of a " + name)
			bad := 0
			all(func(data string) {
				n, ok := p.g.run(data)
				cs.Nontrivial(data)
				if bad < 5 && !judge(cs, p, data, n, ok, true) {
					bad++
				}
			})
		})
	}
	run("check", parsers[0], func(emit func(string)) {
		for _, e := range []string{"", "a", "(a)", "a)", "(a", "')'", "a) DEFERRABLE INITIALLY DEFERRED", "a) INITIALLY DEFERRED\n", "x) NOT DEFERRABLE", ")", "("} {
			for _, sp := range []string{"", " ", "\n\n"} {
				for _, t := range tails {
					emit("CHECK" + sp + "(" + sp + e + sp + ")" + t)
				}
			}
		}
	})
	run("foreign key", parsers[1], func(emit func(string)) {
		for _, m := range []string{"", " MATCH FULL", " MATCH PARTIAL", " MATCH SIMPLE"} {
			for _, d := range acts {
				for _, u := range acts {
					for _, t := range tails {
						for _, cols := range []string{"a", "a, b"} {
							s := "FOREIGN KEY (" + cols + ") REFERENCES t(" + cols + ")" + m
							if d != "" {
								s += " ON DELETE " + d
							}
							if u != "" {
								s += " ON UPDATE " + u
							}
							emit(s + t)
						}
					}
				}
			}
		}
	})
	run("index", parsers[2], func(emit func(string)) {
		for _, u := range []string{"", "UNIQUE "} {
			for _, us := range []string{"", " USING btree", "\tusing GIN"} {
				for _, k := range []string{"a", "(a + 1)", "f(a)", "f()"} {
					for _, o := range []string{"", " ASC", " DESC", " desc", " Asc", " x_ops", " descending", " asc_"} {
						for _, more := range []string{"", ", b", " , b DESC,c", ",b ops_b, c asc"} {
							for _, w := range []string{"", "\n", " WHERE (a = 'x  y')", " WHERE  a   >\n0 "} {
								emit("CREATE " + u + "INDEX i ON t" + us + " (" + k + o + more + ")" + w)
							}
						}
					}
				}
			}
		}
	})
	run("trigger", parsers[3], func(emit func(string)) {
		var events []string
		each := []string{"INSERT", "DELETE", "UPDATE", "UPDATE OF x, y", "TRUNCATE"}
		for mask := 1; mask < 32; mask++ {
			if mask&12 == 12 {
				continue
			}
			var l, rev []string
			for i, e := range each {
				if mask>>i&1 == 1 {
					l, rev = append(l, e), append([]string{e}, rev...)
				}
			}
			events = append(events, strings.Join(l, " OR "), strings.Join(rev, " or "))
		}
		for _, con := range []string{"", "CONSTRAINT "} {
			for _, when := range []string{"BEFORE", "AFTER", "INSTEAD OF"} {
				for _, ev := range events {
					for _, t := range tails {
						for _, row := range []string{"", " FOR ROW", " FOR EACH ROW", " FOR STATEMENT", " FOR EACH STATEMENT"} {
							for _, fn := range []string{"FUNCTION", "PROCEDURE"} {
								emit("CREATE " + con + "TRIGGER tr " + when + " " + ev + " ON tab" + t + row + " EXECUTE " + fn + " fn()")
							}
						}
					}
				}
			}
		}
	})
}

func extent(c *vk.Ctx) {
	for _, p := range parsers {
		n := 0
		for _, row := range p.g.d.next {
			for _, x := range row {
				if x > 0 {
					n++
				}
			}
		}
		c.Max("states visited in the automaton of a "+p.g.name, len(p.g.d.sets)-1)
		c.Max("transitions taken in the automaton of a "+p.g.name, n)
	}
}

// edits tries all the strings that differ in one byte from members of the language
func edits(c *vk.Ctx, meaning bool) {
	defer extent(c)
	try := func(cs *vk.Case, p *parser, s string) {
		cs.Describe(s)
		bad := 0
		test := func(data string) {
			if bad > 3 {
				return
			}
			n, ok := p.g.run(data)
			if !judge(cs, p, data, n, ok, meaning) {
				bad++
			}
		}
		var at []int
		cur := p.g.begin()
		for i := 0; ; i++ {
			at = append(at, cur)
			if i == len(s) {
				break
			}
			cur = p.g.step(cur, s[i])
		}
		if !p.g.d.final[cur] {
			panic("monitor panic: not a member: " + s)
		}
		for i := 0; i <= len(s); i++ {
			test(s[:i])
			if i < len(s) {
				test(s[:i] + s[i+1:])
				test(s[i:])
			}
			if i+1 < len(s) {
				test(s[:i] + s[i+1:i+2] + s[i:i+1] + s[i+2:])
			}
			for b := 0; b < 256; b++ {
				x := string([]byte{byte(b)})
				next := p.g.step(at[i], byte(b))
				var replaced, inserted string
				if i < len(s) {
					replaced = s[:i] + x + s[i+1:]
				}
				inserted = s[:i] + x + s[i:]
				if next == 0 { // the common case needn't be simulated
					if bad <= 3 && i < len(s) && !judge(cs, p, replaced, i, false, meaning) {
						bad++
					}
					if bad <= 3 && !judge(cs, p, inserted, i, false, meaning) {
						bad++
					}
					continue
				}
				if i < len(s) {
					test(replaced)
				}
				test(inserted)
			}
			if bad > 3 {
				return
			}
		}
		cs.Nontrivial(s)
	}
	// the beginnings of members, followed by the ends of others
	for _, p := range parsers {
		p := p
		c.Cases("splice "+p.g.name, len(p.samples), func(cs *vk.Case) {
			bad := 0
			head := p.samples[cs.I]
			for _, tail := range p.samples {
				cs.Describe([]string{head, tail})
				for i := range head {
					for k := range tail {
						data := head[:i] + tail[k:]
						n, ok := p.g.run(data)
						if bad < 4 && !judge(cs, p, data, n, ok, meaning) {
							bad++
						}
						data = head[:i] + "@" + tail[k:]
						n, ok = p.g.run(data)
						if bad < 4 && !judge(cs, p, data, n, ok, meaning) {
							bad++
						}
					}
				}
			}
			cs.Nontrivial("splices of " + head)
		})
	}
	for _, p := range parsers {
		p := p
		c.Cases("sample "+p.g.name, len(p.samples), func(cs *vk.Case) { try(cs, p, p.samples[cs.I]) })
	}
	c.Cases("generated", c.N(200, 6000), func(cs *vk.Case) {
		p := parsers[cs.I%len(parsers)]
		s, _ := p.make(&dgen.G{R: cs.R})
		for len(s) > 160 {
			s, _ = p.make(&dgen.G{R: cs.R})
		}
		try(cs, p, s)
	})
}

// sentences are generated from the grammar, and mutated
func sentences(c *vk.Ctx, meaning bool) {
	c.Cases("generated", c.N(4000, 150000), func(cs *vk.Case) {
		p := parsers[cs.I%len(parsers)]
		ch := &choice{intn: cs.R.Intn}
		s := p.g.root.gen(ch)
		cs.Describe(s)
		for k := 0; k < 6; k++ {
			n, ok := p.g.run(s)
			if k == 0 && !ok {
				panic("monitor panic: generated " + s)
			}
			if !judge(cs, p, s, n, ok, meaning) {
				return
			}
			cs.Nontrivial(s)
			if ok {
				cs.Hist("sentences", "valid "+p.g.name)
			} else {
				cs.Hist("sentences", "invalid "+p.g.name)
			}
			s = mutate(cs.R, s, p.g.root.gen(ch))
		}
	})
}

func mutate(r *rand.Rand, s, other string) string {
	if s == "" {
		return other
	}
	i, j := r.Intn(len(s)+1), r.Intn(len(s)+1)
	if i > j {
		i, j = j, i
	}
	switch r.Intn(7) {
	case 0:
		return s[:i] + s[j:]
	case 1:
		if j-i > 40 {
			j = i + 40
		}
		return s[:j] + s[i:j] + s[j:]
	case 2:
		w := []string{"DEFERRABLE", "INITIALLY", "DEFERRED", "NOT", "ON", "OR", "WHERE", "UPDATE", "OF", "(", ")", "()", ",", "'", "\"", " ", "\n", "\x00", "é", "\xff", "\v"}[r.Intn(21)]
		return s[:i] + w + s[i:]
	case 3:
		k := r.Intn(len(other) + 1)
		return s[:i] + other[k:]
	case 4: // swap words
		f := strings.Split(s, " ")
		a, b := r.Intn(len(f)), r.Intn(len(f))
		f[a], f[b] = f[b], f[a]
		return strings.Join(f, " ")
	case 5:
		f := strings.Split(s, " ")
		a := r.Intn(len(f))
		return strings.Join(append(f[:a:a], f[a+1:]...), " ")
	}
	b := []byte(s)
	k := r.Intn(len(b))
	b[k] ^= 1 << uint(r.Intn(8))
	return string(b)
}

func noise(c *vk.Ctx) {
	c.Cases("bytes", c.N(3000, 100000), func(cs *vk.Case) {
		b := make([]byte, vk.Several(cs.R, 60, 20000))
		for i := range b {
			switch cs.R.Intn(3) {
			case 0:
				b[i] = byte(cs.R.Intn(256))
			case 1:
				b[i] = " \n()'"[cs.R.Intn(5)]
			default:
				b[i] = byte('A' + cs.R.Intn(26))
			}
		}
		s := []string{"", "CHECK (", "CREATE INDEX ", "CREATE TRIGGER ", "FOREIGN KEY (", "\n\n"}[cs.R.Intn(6)] + string(b)
		cs.Describe(s)
		for _, p := range parsers {
			n, ok := p.g.run(s)
			if !judge(cs, p, s, n, ok, false) {
				return
			}
		}
		cs.Nontrivial(s)
	})
	c.Cases("long", c.N(12, 100), func(cs *vk.Case) {
		// as large as PostgreSQL's definitions can get, and then some
		p := parsers[cs.I%len(parsers)]
		size := 1 << uint(10+cs.R.Intn(11))
		if cs.I%12 == 2 {
			size = 1 << 17
		}
		name := strings.Repeat("x", size)
		s := []string{
			"CHECK (" + strings.Repeat("(", size) + ")", "FOREIGN KEY (" + strings.Repeat("a, ", size) + "b) REFERENCES " + name + "(c)",
			"CREATE INDEX " + name + " ON t (" + strings.Repeat("a DESC ,", size) + "b) WHERE " + name,
			"CREATE TRIGGER " + name + " BEFORE UPDATE OF " + strings.Repeat("a,", size) + "b ON t EXECUTE FUNCTION f()",
		}[cs.I%4]
		cs.Describe(fmt.Sprintf("%s of %d bytes", p.g.name, len(s)))
		var err error
		if r, stack := vk.Recover(func() { _, err = p.parse(s) }); r != nil {
			cs.Violatef("parsing a %s of %d bytes panicked: %v\n%s", p.g.name, len(s), r, stack)
		}
		if err != nil {
			cs.Violatef("a %s of %d bytes was rejected: %v", p.g.name, len(s), err)
		}
		// with a mistake in it, early, late, or anywhere
		for i := 0; i < 4; i++ {
			at := []int{cs.R.Intn(1 + len(s)/1000), len(s) - 1 - cs.R.Intn(len(s)/1000), cs.R.Intn(len(s)), cs.R.Intn(len(s))}[i]
			bad := s[:at] + []string{"\x00", "@", "é", "\n\x00", "\n@\n"}[cs.R.Intn(5)] + s[at:]
			if i == 3 {
				bad = s[:at]
			}
			if cs.R.Intn(3) == 0 && size < 40000 {
				at = cs.R.Intn(len(bad) + 1)
				bad = bad[:at] + "\n" + bad[at:]
			}
			n, ok := p.g.run(bad)
			if !judge(cs, p, bad, n, ok, false) {
				return
			}
			cs.Max("columns before a mistake", n)
		}
		cs.Max("bytes of a definition", len(s))
	})
}

// server has what PostgreSQL prints
func server(c *vk.Ctx) {
	for _, x := range []struct {
		key, text string
		p         *parser
		want      interface{}
	}{
		{"foreign-key/update-before-delete", "FOREIGN KEY (a) REFERENCES t(b) ON UPDATE CASCADE ON DELETE SET NULL", parsers[1],
			&ddl.ForeignKey{Table: "t", Columns: []string{"a"}, Referenced: []string{"b"}, OnUpdate: "CASCADE", OnDelete: "SET NULL"}},
		{"foreign-key/deferrable", "FOREIGN KEY (a) REFERENCES t(b) DEFERRABLE", parsers[1],
			&ddl.ForeignKey{Table: "t", Columns: []string{"a"}, Referenced: []string{"b"}, Deferrable: true}},
		{"trigger/not-deferrable", "CREATE CONSTRAINT TRIGGER a AFTER INSERT ON t NOT DEFERRABLE INITIALLY IMMEDIATE FOR EACH ROW EXECUTE PROCEDURE f()", parsers[3],
			&ddl.Trigger{Table: "t", Name: "a", Function: "f", When: "AFTER", Constraint: true, Insert: true, ForEachRow: true}},
		{"", "FOREIGN KEY (a) REFERENCES t(b) DEFERRABLE INITIALLY DEFERRED", parsers[1],
			&ddl.ForeignKey{Table: "t", Columns: []string{"a"}, Referenced: []string{"b"}, Deferrable: true, InitiallyDeferred: true}},
		{"", "CREATE CONSTRAINT TRIGGER a AFTER INSERT ON t DEFERRABLE INITIALLY IMMEDIATE FOR EACH ROW EXECUTE PROCEDURE f()", parsers[3],
			&ddl.Trigger{Table: "t", Name: "a", Function: "f", When: "AFTER", Constraint: true, Insert: true, ForEachRow: true, Deferrable: true}},
	} {
		x := x
		c.One("as printed: "+x.text, func(cs *vk.Case) {
			cs.Describe(x.text)
			got, err := x.p.parse(x.text)
			switch {
			case err == nil && reflect.DeepEqual(got, x.want):
			case err != nil && x.key != "":
				cs.Findingf(x.key, "%q, as PostgreSQL prints it, was rejected: %v", x.text, err)
			default:
				cs.Violatef("%q was parsed as %s (%v), expected %s", x.text, show(got), err, show(x.want))
			}
			cs.Nontrivial(x.text)
		})
	}
}
