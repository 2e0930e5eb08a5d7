//go:build go1.22

package pgfake

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// Value is nil, bool, int64, string, or a list of values
type Value interface{}

func text(v Value) string {
	switch v := v.(type) {
	case bool:
		if v {
			return "t"
		}
		return "f"
	case int64:
		return strconv.FormatInt(v, 10)
	case string:
		return v
	case []Value:
		var l []string
		for _, x := range v {
			l = append(l, text(x))
		}
		return "{" + strings.Join(l, ",") + "}"
	}
	panic(fmt.Sprintf("monitor panic: value %T", v))
}

// Table of the catalog
type Table struct {
	Cols []Col
	Rows [][]Value
	// columns that exist, but whose values aren't modeled
	Opaque map[string]bool

	defaults []Value
	absent   map[string]bool
}

func (t *Table) col(name string) int {
	for i, c := range t.Cols {
		if c.Name == name {
			return i
		}
	}
	return -1
}

// DB is a set of tables, by schema and name, and functions
type DB struct {
	Tables map[string]map[string]*Table
	Path   []string // the schemas of unqualified names
	Funcs  map[string]Func
	Shows  map[string]string

	regText func(kind string, oid int64) Value
}

// Func is a function of the catalog
type Func struct {
	OID uint32
	Fn  func(args []Value) Value
}

type sqlError struct{ Error }

func raise(code, format string, args ...interface{}) {
	panic(sqlError{Error{code, fmt.Sprintf(format, args...)}})
}

func unsupported(format string, args ...interface{}) {
	panic("monitor panic: unsupported SQL: " + fmt.Sprintf(format, args...))
}

// --------------------------------------------------------------- lexer

type tok struct {
	kind string // "word", "ident" (quoted), "string", "num", "param", "op", "end"
	s    string
}

var ops = []string{"!~~*", "!~~", "!~*", "~~*", "~~", "~*", "<>", "!=", "<=", ">=", "!~", "::", "||", "(", ")", ",", ".", ";", "=", "<", ">", "~", "+", "-", "*", "[", "]"}

func lex(sql string) []tok {
	var out []tok
outer:
	for i := 0; i < len(sql); {
		c := sql[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(sql[i:], "--"):
			for i < len(sql) && sql[i] != '\n' {
				i++
			}
		case strings.HasPrefix(sql[i:], "/*"):
			j := strings.Index(sql[i:], "*/")
			if j < 0 {
				raise("42601", "unterminated comment")
			}
			i += j + 2
		case c == '\'' || c == '"':
			var b strings.Builder
			j := i + 1
			for ; ; j++ {
				if j >= len(sql) {
					raise("42601", "unterminated quoted string")
				}
				if sql[j] == c {
					if j+1 < len(sql) && sql[j+1] == c {
						j++
					} else {
						break
					}
				}
				b.WriteByte(sql[j])
			}
			if c == '"' && b.Len() == 0 {
				raise("42601", "zero-length delimited identifier")
			}
			out = append(out, tok{map[byte]string{'\'': "string", '"': "ident"}[c], b.String()})
			i = j + 1
		case c == '$':
			j := i + 1
			for j < len(sql) && sql[j] >= '0' && sql[j] <= '9' {
				j++
			}
			if j == i+1 {
				unsupported("dollar quotes")
			}
			out = append(out, tok{"param", sql[i+1 : j]})
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(sql) && (sql[j] >= '0' && sql[j] <= '9' || sql[j] == '.') {
				j++
			}
			out = append(out, tok{"num", sql[i:j]})
			i = j
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c >= 0x80:
			j := i
			for j < len(sql) && (sql[j] >= 'a' && sql[j] <= 'z' || sql[j] >= 'A' && sql[j] <= 'Z' || sql[j] == '_' ||
				sql[j] >= 0x80 || sql[j] >= '0' && sql[j] <= '9' || sql[j] == '$') {
				j++
			}
			if j < len(sql) && sql[j] == '\'' && j-i == 1 && strings.ContainsRune("eEbBxXnN", rune(c)) {
				if c != 'e' && c != 'E' {
					unsupported("prefixed string")
				}
				s, n := escaped(sql[j:])
				out = append(out, tok{"string", s})
				i = j + n
				continue
			}
			out = append(out, tok{"word", strings.ToLower(sql[i:j])})
			i = j
		default:
			for _, op := range ops {
				if strings.HasPrefix(sql[i:], op) {
					out = append(out, tok{"op", op})
					i += len(op)
					continue outer
				}
			}
			raise("42601", "syntax error at or near %q", string(c))
		}
	}
	return append(out, tok{"end", ""})
}

// escaped reads a string with escapes, and its length
func escaped(sql string) (string, int) {
	var b strings.Builder
	for i := 1; i < len(sql); i++ {
		switch c := sql[i]; {
		case c == '\'' && i+1 < len(sql) && sql[i+1] == '\'':
			b.WriteByte(c)
			i++
		case c == '\'':
			return b.String(), i + 1
		case c == '\\' && i+1 < len(sql):
			i++
			switch c := sql[i]; {
			case c == 'x' || c == 'u' || c == 'U' || '0' <= c && c <= '7':
				unsupported("escape")
			default:
				if k := strings.IndexByte("bfnrt", c); k >= 0 {
					c = "\b\f\n\r\t"[k]
				}
				b.WriteByte(c)
			}
		default:
			b.WriteByte(c)
		}
	}
	raise("42601", "unterminated quoted string")
	return "", 0
}

// --------------------------------------------------------------- parser

type expr struct {
	op   string // lit, param, col, call, cast, and, or, not, isnull, in, exists, sub, =, <, ~, ...
	val  Value
	name []string
	args []*expr
	sub  *query

	// of aggregates
	star     bool
	distinct bool
	filter   *expr
	order    []order
}

type item struct {
	e     *expr
	alias string
}

type source struct {
	table []string
	sub   *query
	alias string
	left  bool
	on    *expr

	cols    []string // their names
	using   []string
	lateral bool
	fn      *expr // a function that returns rows
	ord     bool  // WITH ORDINALITY
}

type order struct {
	e    *expr
	pos  int
	name string
	desc bool

	nulls string
}

type query struct {
	items []item
	from  []source
	where *expr
	order []order
	limit *expr

	distinct   bool
	distinctOn []*expr
	group      []*expr
	having     *expr
	offset     *expr
	union      []*query // what's added to the results
	unionAll   []bool
}

// cte is a query with a name
type cte struct {
	name string
	cols []string
	q    *query
}

type parser struct {
	t    []tok
	i    int
	ctes []cte
}

func (p *parser) peek() tok { return p.t[p.i] }
func (p *parser) next() tok { t := p.t[p.i]; p.i++; return t }
func (p *parser) isWord(s ...string) bool {
	for k, w := range s {
		if p.i+k >= len(p.t) || p.t[p.i+k].kind != "word" || p.t[p.i+k].s != w {
			return false
		}
	}
	return true
}
func (p *parser) word(s ...string) bool {
	if p.isWord(s...) {
		p.i += len(s)
		return true
	}
	return false
}
func (p *parser) op(s string) bool {
	if t := p.peek(); t.kind == "op" && t.s == s {
		p.i++
		return true
	}
	return false
}
func (p *parser) need(s string) {
	if !p.op(s) {
		raise("42601", "syntax error at or near %q", p.peek().s)
	}
}

var reserved = map[string]bool{"from": true, "where": true, "order": true, "join": true, "left": true, "inner": true,
	"on": true, "and": true, "or": true, "not": true, "as": true, "group": true, "limit": true, "union": true, "select": true,
	"in": true, "is": true, "asc": true, "desc": true, "having": true, "window": true, "cross": true, "right": true, "full": true, "outer": true,
	"then": true, "when": true, "else": true, "end": true, "case": true, "using": true, "nulls": true, "offset": true, "like": true,
	"between": true, "distinct": true, "all": true, "any": true, "array": true, "with": true,
	"collate": true, "ilike": true, "some": true, "natural": true, "intersect": true, "except": true, "lateral": true, "only": true}

func (p *parser) ident() string {
	t := p.next()
	if t.kind == "ident" || t.kind == "word" && !reserved[t.s] {
		return t.s
	}
	raise("42601", "syntax error at or near %q", t.s)
	return ""
}

func parse(sql string) *query {
	p := &parser{t: lex(sql)}
	q := p.query()
	p.op(";")
	if p.peek().kind != "end" {
		if p.peek().kind == "word" && (reserved[p.peek().s]) {
			unsupported("%q", p.peek().s)
		}
		raise("42601", "syntax error at or near %q", p.peek().s)
	}
	return q
}

func (p *parser) query() *query {
	if p.word("with") {
		n := len(p.ctes)
		defer func() { p.ctes = p.ctes[:n] }()
		if p.isWord("recursive") {
			unsupported("with recursive")
		}
		for {
			c := cte{name: p.ident()}
			c.cols = p.names()
			if !p.word("as") {
				raise("42601", "syntax error at or near %q", p.peek().s)
			}
			if !p.word("materialized") {
				p.word("not", "materialized")
			}
			p.need("(")
			if !p.isWord("select") && !p.isWord("with") {
				unsupported("with %q", p.peek().s)
			}
			c.q = p.query()
			p.need(")")
			p.ctes = append(p.ctes, c)
			if !p.op(",") {
				break
			}
		}
	}
	if !p.word("select") {
		raise("42601", "syntax error at or near %q", p.peek().s)
	}
	q := &query{}
	if p.word("distinct") {
		q.distinct = true
		if p.word("on") {
			p.need("(")
			for {
				q.distinctOn = append(q.distinctOn, p.expr())
				if !p.op(",") {
					break
				}
			}
			p.need(")")
			q.distinct = false
		}
	} else {
		p.word("all")
	}
	for {
		if p.op("*") {
			q.items = append(q.items, item{e: &expr{op: "star"}})
			if !p.op(",") {
				break
			}
			continue
		}
		if t := p.t[p.i:]; len(t) > 3 && t[1] == (tok{"op", "."}) && t[2] == (tok{"op", "*"}) {
			q.items = append(q.items, item{e: &expr{op: "star", name: []string{p.ident()}}})
			p.i += 2
			if !p.op(",") {
				break
			}
			continue
		}
		it := item{e: p.expr()}
		if p.word("as") {
			t := p.next()
			if t.kind != "ident" && t.kind != "word" {
				raise("42601", "syntax error at or near %q", t.s)
			}
			it.alias = t.s
		} else if t := p.peek(); t.kind == "ident" || t.kind == "word" && !reserved[t.s] {
			it.alias = p.next().s
		}
		q.items = append(q.items, it)
		if !p.op(",") {
			break
		}
	}
	if p.word("from") {
		q.from = append(q.from, p.source(false))
		for {
			switch {
			case p.op(","):
				q.from = append(q.from, p.source(false))
				continue
			case p.word("join"), p.word("inner", "join"):
				s := p.source(false)
				p.on(&s)
				q.from = append(q.from, s)
				continue
			case p.word("left", "join"), p.word("left", "outer", "join"):
				s := p.source(true)
				p.on(&s)
				q.from = append(q.from, s)
				continue
			case p.word("cross", "join"):
				q.from = append(q.from, p.source(false))
				continue
			case p.isWord("right"), p.isWord("full"), p.isWord("natural"):
				unsupported("join")
			}
			break
		}
	}
	if p.word("where") {
		q.where = p.expr()
	}
	if p.word("group", "by") {
		for {
			q.group = append(q.group, p.expr())
			if !p.op(",") {
				break
			}
		}
	}
	if p.word("having") {
		q.having = p.expr()
	}
	if p.isWord("intersect") || p.isWord("except") || p.isWord("window") {
		unsupported("%s", p.peek().s)
	}
	if p.word("union") {
		all := p.word("all")
		if p.isWord("distinct") {
			p.next()
		}
		paren := p.op("(")
		u := p.query()
		if paren {
			p.need(")")
		}
		if u.limit != nil || len(u.union) > 0 {
			unsupported("union")
		}
		q.union, q.unionAll = append(q.union, u), append(q.unionAll, all)
		if !paren {
			// it belongs to the whole
			q.order, u.order = u.order, nil
		}
	}
	if p.isWord("order") {
		q.order = p.orderBy()
	}
	for {
		if p.word("limit") {
			if !p.word("all") {
				q.limit = p.primary()
			}
			continue
		}
		if p.word("offset") {
			q.offset = p.primary()
			continue
		}
		break
	}
	return q
}

func (p *parser) orderBy() (l []order) {
	p.next()
	if !p.word("by") {
		raise("42601", "syntax error at or near %q", p.peek().s)
	}
	for {
		o := order{e: p.expr()}
		if o.e.op == "lit" {
			if n, ok := o.e.val.(int64); ok {
				o.pos = int(n)
			}
		}
		if o.e.op == "col" && len(o.e.name) == 1 {
			o.name = o.e.name[0]
		}
		if p.word("desc") {
			o.desc = true
		} else {
			p.word("asc")
		}
		if p.word("nulls", "first") {
			o.nulls = "first"
		} else if p.word("nulls", "last") {
			o.nulls = "last"
		}
		l = append(l, o)
		if !p.op(",") {
			return l
		}
	}
}

// names in parentheses
func (p *parser) names() (l []string) {
	if !p.op("(") {
		return nil
	}
	for {
		l = append(l, p.ident())
		if !p.op(",") {
			break
		}
	}
	p.need(")")
	return l
}

func (p *parser) on(s *source) {
	if p.word("using") {
		s.using = p.names()
		for _, n := range s.using {
			e := &expr{op: "=", args: []*expr{{op: "col", name: []string{n}}, {op: "col", name: []string{s.alias, n}}}}
			if s.on != nil {
				e = &expr{op: "and", args: []*expr{s.on, e}}
			}
			s.on = e
		}
		if s.on != nil {
			return
		}
	}
	if !p.word("on") {
		raise("42601", "syntax error at or near %q", p.peek().s)
	}
	s.on = p.expr()
}

func (p *parser) source(left bool) source {
	p.word("only")
	lateral := p.word("lateral")
	if p.op("(") {
		s := source{left: left, sub: p.query(), lateral: lateral}
		p.need(")")
		p.word("as")
		s.alias = p.ident()
		s.cols = p.names()
		return s
	}
	s := source{left: left, table: []string{p.ident()}}
	for p.op(".") {
		s.table = append(s.table, p.ident())
	}
	s.alias = s.table[len(s.table)-1]
	if p.isOp("(") {
		p.i -= 2*len(s.table) - 1
		s.fn, s.lateral = p.primary(), true
		switch s.alias {
		case "unnest", "generate_series", "generate_subscripts":
		default:
			unsupported("function %s in FROM", s.alias)
		}
		if p.word("with") {
			if !p.word("ordinality") {
				raise("42601", "syntax error at or near %q", p.peek().s)
			}
			s.ord = true
		}
	}
	if p.word("as") {
		s.alias = p.ident()
	} else if t := p.peek(); t.kind == "ident" || t.kind == "word" && !reserved[t.s] {
		s.alias = p.next().s
	}
	s.cols = p.names()
	if s.fn != nil {
		if len(s.cols) == 0 {
			s.cols = []string{s.alias}
		}
		if s.ord && len(s.cols) == 1 {
			s.cols = append(s.cols, "ordinality")
		}
		return s
	}
	for i := len(p.ctes) - 1; len(s.table) == 1 && i >= 0; i-- {
		if c := p.ctes[i]; c.name == s.table[0] {
			s.sub = c.q
			if s.cols == nil {
				s.cols = c.cols
			}
			return s
		}
	}
	if len(s.cols) > 0 {
		unsupported("names of columns in FROM")
	}
	return s
}

func (p *parser) isOp(s string) bool { return p.peek() == tok{"op", s} }

func (p *parser) expr() *expr {
	l := p.and()
	for p.word("or") {
		l = &expr{op: "or", args: []*expr{l, p.and()}}
	}
	return l
}

func (p *parser) and() *expr {
	l := p.not()
	for p.word("and") {
		l = &expr{op: "and", args: []*expr{l, p.not()}}
	}
	return l
}

func (p *parser) not() *expr {
	if p.word("not") {
		return &expr{op: "not", args: []*expr{p.not()}}
	}
	return p.cmp()
}

func (p *parser) cmp() *expr {
	l := p.add()
	for {
		switch {
		case p.word("is", "not", "null"):
			l = &expr{op: "not", args: []*expr{{op: "isnull", args: []*expr{l}}}}
			continue
		case p.word("is", "null"):
			l = &expr{op: "isnull", args: []*expr{l}}
			continue
		case p.isWord("is"):
			p.next()
			neg := p.word("not")
			var e *expr
			switch {
			case p.word("true"):
				e = &expr{op: "istrue", args: []*expr{l}}
			case p.word("false"):
				e = &expr{op: "istrue", args: []*expr{{op: "not", args: []*expr{l}}}}
			case p.word("unknown"):
				e = &expr{op: "isnull", args: []*expr{l}}
			case p.word("distinct", "from"):
				e = &expr{op: "not", args: []*expr{{op: "notdistinct", args: []*expr{l, p.add()}}}}
			default:
				raise("42601", "syntax error at or near %q", p.peek().s)
			}
			l = e
			if neg {
				l = &expr{op: "not", args: []*expr{e}}
			}
			continue
		case p.isWord("in"), p.isWord("not", "in"):
			neg := p.word("not")
			p.word("in")
			p.need("(")
			e := &expr{op: "in", args: []*expr{l}}
			if p.isWord("select") {
				e = &expr{op: "insub", args: []*expr{l}, sub: p.query()}
			} else {
				for {
					e.args = append(e.args, p.expr())
					if !p.op(",") {
						break
					}
				}
			}
			p.need(")")
			l = e
			if neg {
				l = &expr{op: "not", args: []*expr{e}}
			}
			continue
		case p.isWord("like"), p.isWord("not", "like"), p.isWord("ilike"), p.isWord("not", "ilike"):
			neg := p.word("not")
			e := &expr{op: p.next().s, args: []*expr{l, p.add()}}
			if p.word("escape") {
				e.args = append(e.args, p.add())
			}
			l = e
			if neg {
				l = &expr{op: "not", args: []*expr{e}}
			}
			continue
		case p.isWord("between"), p.isWord("not", "between"):
			neg := p.word("not")
			p.next()
			p.word("symmetric")
			lo := p.add()
			if !p.word("and") {
				raise("42601", "syntax error at or near %q", p.peek().s)
			}
			e := &expr{op: "and", args: []*expr{{op: ">=", args: []*expr{l, lo}}, {op: "<=", args: []*expr{l, p.add()}}}}
			l = e
			if neg {
				l = &expr{op: "not", args: []*expr{e}}
			}
			continue
		}
		t := p.peek()
		if t.kind == "op" {
			switch t.s {
			case "=", "<>", "!=", "<", ">", "<=", ">=", "~", "!~", "~*", "!~*", "~~", "!~~", "~~*", "!~~*":
				p.next()
				if p.isWord("any") || p.isWord("all") || p.isWord("some") {
					all := p.next().s == "all"
					p.need("(")
					e := &expr{op: "quantified", name: []string{t.s}, val: all, args: []*expr{l}}
					if p.isWord("select") {
						e.sub = p.query()
					} else {
						e.args = append(e.args, p.expr())
					}
					p.need(")")
					l = e
					continue
				}
				l = &expr{op: t.s, args: []*expr{l, p.add()}}
				continue
			case "[":
				unsupported("operator %s", t.s)
			}
		}
		return l
	}
}

func (p *parser) add() *expr {
	l := p.cast()
	for {
		t := p.peek()
		if t.kind != "op" || t.s != "||" && t.s != "+" && t.s != "-" && t.s != "*" {
			return l
		}
		p.next()
		l = &expr{op: t.s, args: []*expr{l, p.cast()}}
	}
}

func (p *parser) typeName() []string {
	name := []string{p.ident()}
	for p.op(".") {
		name = append(name, p.ident())
	}
	if p.op("[") {
		p.need("]")
		name[len(name)-1] += "[]"
	}
	return name
}

func (p *parser) cast() *expr {
	e := p.primary()
	for {
		if p.word("collate") {
			for p.ident(); p.op("."); p.ident() {
			}
			continue
		}
		if !p.op("::") {
			break
		}
		name := p.typeName()
		e = &expr{op: "cast", name: name, args: []*expr{e}}
	}
	return e
}

func (p *parser) primary() *expr {
	t := p.next()
	switch t.kind {
	case "string":
		return &expr{op: "lit", val: t.s}
	case "num":
		n, err := strconv.ParseInt(t.s, 10, 64)
		if err != nil {
			unsupported("number %s", t.s)
		}
		return &expr{op: "lit", val: n}
	case "param":
		n, _ := strconv.Atoi(t.s)
		return &expr{op: "param", val: int64(n)}
	case "op":
		if t.s == "-" && p.peek().kind == "num" {
			e := p.primary()
			e.val = -e.val.(int64)
			return e
		}
		if t.s == "(" {
			if p.isWord("select") {
				q := p.query()
				p.need(")")
				return &expr{op: "sub", sub: q}
			}
			e := p.expr()
			p.need(")")
			return e
		}
	case "word":
		switch t.s {
		case "null":
			return &expr{op: "lit"}
		case "true":
			return &expr{op: "lit", val: true}
		case "false":
			return &expr{op: "lit", val: false}
		case "exists":
			p.need("(")
			q := p.query()
			p.need(")")
			return &expr{op: "exists", sub: q}
		case "cast":
			p.need("(")
			e := &expr{op: "cast", args: []*expr{p.expr()}}
			if !p.word("as") {
				raise("42601", "syntax error at or near %q", p.peek().s)
			}
			e.name = p.typeName()
			p.need(")")
			return e
		case "array":
			p.need("[")
			e := &expr{op: "array"}
			if !p.op("]") {
				for {
					e.args = append(e.args, p.expr())
					if !p.op(",") {
						break
					}
				}
				p.need("]")
			}
			return e
		case "case":
			// pairs of conditions and results, and the last result
			e := &expr{op: "case"}
			var subject *expr
			if !p.isWord("when") {
				subject = p.expr()
			}
			for p.word("when") {
				c := p.expr()
				if subject != nil {
					c = &expr{op: "=", args: []*expr{subject, c}}
				}
				if !p.word("then") {
					raise("42601", "syntax error at or near %q", p.peek().s)
				}
				e.args = append(e.args, c, p.expr())
			}
			if p.word("else") {
				e.args = append(e.args, p.expr())
			} else {
				e.args = append(e.args, &expr{op: "lit"})
			}
			if !p.word("end") {
				raise("42601", "syntax error at or near %q", p.peek().s)
			}
			return e
		case "left", "right":
			if p.peek() == (tok{"op", "("}) {
				p.i--
				name := p.next().s
				p.next()
				e := &expr{op: "call", name: []string{name}}
				e.args = append(e.args, p.expr())
				p.need(",")
				e.args = append(e.args, p.expr())
				p.need(")")
				return e
			}
		}
		if reserved[t.s] {
			break
		}
		fallthrough
	case "ident":
		name := []string{t.s}
		for p.op(".") {
			name = append(name, p.ident())
		}
		if p.op("(") {
			e := &expr{op: "call", name: name}
			if !p.op(")") {
				e.distinct = p.word("distinct")
				for {
					if p.op("*") {
						if len(name) > 2 || name[len(name)-1] != "count" {
							unsupported("%v(*)", name)
						}
						e.star = true
						break
					}
					e.args = append(e.args, p.expr())
					if !p.op(",") && !(name[len(name)-1] == "substring" && (p.word("from") || p.word("for"))) {
						break
					}
				}
				if p.isWord("order") {
					e.order = p.orderBy()
				}
				p.need(")")
			}
			if p.word("filter") {
				p.need("(")
				if !p.word("where") {
					raise("42601", "syntax error at or near %q", p.peek().s)
				}
				e.filter = p.expr()
				p.need(")")
			}
			if p.isWord("over") || p.isWord("within") {
				unsupported("%s", p.peek().s)
			}
			if _, ok := aggregates[name[len(name)-1]]; !ok && (e.distinct || e.filter != nil || e.order != nil) {
				raise("42809", "%v is not an aggregate function", name)
			}
			return e
		}
		return &expr{op: "col", name: name}
	}
	raise("42601", "syntax error at or near %q", t.s)
	return nil
}

// --------------------------------------------------------------- execution

type binding struct {
	alias string
	t     *Table
	row   []Value // nil: no match of a left join
	using []string
}

type env struct {
	db     *DB
	parent *env
	b      []binding
	params []string
	group  []*env // the rows of a group
}

func (db *DB) find(name []string) *Table {
	switch len(name) {
	case 1:
		for _, s := range db.Path {
			if t := db.Tables[s][name[0]]; t != nil {
				return t
			}
		}
	case 2:
		if db.Tables[name[0]] == nil {
			raise("3F000", "schema %q does not exist", name[0])
		}
		if t := db.Tables[name[0]][name[1]]; t != nil {
			return t
		}
	}
	if n := name[len(name)-1]; (len(name) == 1 || name[0] == "pg_catalog") && knownTables[n] || len(name) == 2 && name[0] == "information_schema" {
		unsupported("table %s", n)
	}
	raise("42P01", "relation %q does not exist", strings.Join(name, "."))
	return nil
}

// tables PostgreSQL has, but this doesn't
var knownTables = map[string]bool{"pg_tables": true, "pg_views": true, "pg_indexes": true, "pg_attribute_encoding": true, "pg_database": true,
	"pg_am": true, "pg_opclass": true, "pg_enum": true, "pg_collation": true,
	"pg_rewrite": true, "pg_shdescription": true, "pg_tablespace": true, "pg_partitioned_table": true, "pg_sequences": true, "pg_matviews": true}

func (v *env) lookup(name []string) (binding, int) {
	for e := v; e != nil; e = e.parent {
		hit, col := -1, -1
		for i, b := range e.b {
			if len(name) == 2 && b.alias != name[0] {
				continue
			}
			if len(name) == 1 && has(b.using, name[0]) {
				continue // it's the same as the other one
			}
			c := b.t.col(name[len(name)-1])
			if c < 0 {
				if b.t.Opaque[name[len(name)-1]] {
					unsupported("column %v", name)
				}
				if len(name) == 2 {
					raise("42703", "column %s does not exist", strings.Join(name, "."))
				}
				continue
			}
			if hit >= 0 {
				raise("42702", "column reference %q is ambiguous", name[len(name)-1])
			}
			hit, col = i, c
		}
		if hit >= 0 {
			return e.b[hit], col
		}
	}
	if len(name) > 2 {
		unsupported("column %v", name)
	}
	if len(name) == 2 {
		raise("42P01", "missing FROM-clause entry for table %q", name[0])
	}
	raise("42703", "column %q does not exist", name[0])
	return binding{}, 0
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// aggregates and their types; 0: that of the argument
var aggregates = map[string]uint32{"count": 20, "array_agg": 1009, "string_agg": 25, "min": 0, "max": 0, "bool_or": 16, "bool_and": 16, "every": 16}

// isAggregate tells whether an expression has an aggregate
func isAggregate(e *expr) bool {
	if e == nil {
		return false
	}
	if e.op == "call" {
		if _, ok := aggregates[e.name[len(e.name)-1]]; ok {
			return true
		}
	}
	for _, a := range e.args {
		if isAggregate(a) {
			return true
		}
	}
	return false
}

func (v *env) aggregate(n string, e *expr) Value {
	if v.group == nil {
		raise("42803", "aggregate functions are not allowed here")
	}
	if !e.star && len(e.args) != map[bool]int{true: 2, false: 1}[n == "string_agg"] {
		raise("42883", "function %s does not exist", n)
	}
	type keyed struct{ val, key []Value }
	var l []keyed
	seen := map[string]bool{}
	for _, g := range v.group {
		if e.filter != nil {
			if ok, _ := truth(g.eval(e.filter)); !ok {
				continue
			}
		}
		var k keyed
		for _, a := range e.args {
			k.val = append(k.val, g.eval(a))
		}
		if id := fmt.Sprintf("%#v", k.val); e.distinct && seen[id] {
			continue
		} else {
			seen[id] = true
		}
		for _, o := range e.order {
			k.key = append(k.key, g.eval(o.e))
		}
		l = append(l, k)
	}
	sort.SliceStable(l, func(i, j int) bool { return before(e.order, l[i].key, l[j].key) })
	var out Value
	var list []Value
	count := int64(0)
	for _, k := range l {
		if !e.star && k.val[0] == nil {
			if n == "array_agg" {
				list = append(list, nil)
			}
			continue
		}
		count++
		switch n {
		case "array_agg":
			list = append(list, k.val[0])
		case "string_agg":
			if count == 1 {
				out = text(k.val[0])
			} else if k.val[1] != nil {
				out = out.(string) + text(k.val[1]) + text(k.val[0])
			} else {
				out = out.(string) + text(k.val[0])
			}
		case "min", "max":
			if c := 0; out != nil {
				if c = compare(k.val[0], out); c < 0 != (n == "min") || c == 0 {
					continue
				}
			}
			out = k.val[0]
		case "bool_or", "bool_and", "every":
			b, _ := truth(k.val[0])
			if x, ok := out.(bool); ok && n == "bool_or" {
				b = b || x
			} else if ok {
				b = b && x
			}
			out = b
		}
	}
	switch {
	case n == "count":
		return count
	case n == "array_agg" && len(list) > 0:
		return list
	}
	return out
}

// before compares rows by their keys
func before(by []order, x, y []Value) bool {
	for n, o := range by {
		a, b := x[n], y[n]
		c := 0
		switch {
		case a == nil && b == nil:
		case a == nil || b == nil:
			c = 1
			if b == nil {
				c = -1
			}
			if o.nulls == "first" || o.nulls == "" && o.desc {
				c = -c
			}
		default:
			c = compare(a, b)
			if o.desc {
				c = -c
			}
		}
		if c != 0 {
			return c < 0
		}
	}
	return false
}

func (v *env) fn(name []string) Func {
	n := name[len(name)-1]
	f, ok := v.db.Funcs[n]
	if !ok {
		f, ok = plainFuncs[n]
	}
	if !ok || len(name) > 2 || len(name) == 2 && name[0] != "pg_catalog" {
		if knownFuncs[n] {
			unsupported("function %v", name)
		}
		raise("42883", "function %s does not exist", strings.Join(name, "."))
	}
	return f
}

// plainFuncs have nothing to do with the catalog
var plainFuncs = map[string]Func{
	"lower":       strict(25, 1, func(a []Value) Value { return strings.ToLower(text(a[0])) }),
	"upper":       strict(25, 1, func(a []Value) Value { return strings.ToUpper(text(a[0])) }),
	"length":      strict(23, 1, func(a []Value) Value { return int64(len([]rune(text(a[0])))) }),
	"char_length": strict(23, 1, func(a []Value) Value { return int64(len([]rune(text(a[0])))) }),
	"btrim":       strict(25, -1, func(a []Value) Value { return strings.Trim(text(a[0]), cutset(a)) }),
	"ltrim":       strict(25, -1, func(a []Value) Value { return strings.TrimLeft(text(a[0]), cutset(a)) }),
	"rtrim":       strict(25, -1, func(a []Value) Value { return strings.TrimRight(text(a[0]), cutset(a)) }),
	"trim":        strict(25, -1, func(a []Value) Value { return strings.Trim(text(a[0]), cutset(a)) }),
	"starts_with": strict(16, 2, func(a []Value) Value { return strings.HasPrefix(text(a[0]), text(a[1])) }),
	"replace":     strict(25, 3, func(a []Value) Value { return strings.ReplaceAll(text(a[0]), text(a[1]), text(a[2])) }),
	"quote_ident": strict(25, 1, func(a []Value) Value { return quoteIdent(text(a[0])) }),
	"substring":   strict(25, -1, substring),
	"substr":      strict(25, -1, substring),
	"left":        strict(25, 2, func(a []Value) Value { return cut([]rune(text(a[0])), a[1], false) }),
	"right":       strict(25, 2, func(a []Value) Value { return cut([]rune(text(a[0])), a[1], true) }),
	"concat": {25, func(a []Value) Value {
		var b strings.Builder
		for _, x := range a {
			if x != nil {
				b.WriteString(text(x))
			}
		}
		return b.String()
	}},
	"regexp_replace": strict(25, -1, func(a []Value) Value {
		if len(a) < 3 || len(a) > 4 {
			unsupported("regexp_replace with %d arguments", len(a))
		}
		flags := ""
		if len(a) == 4 {
			flags = text(a[3])
		}
		pattern := text(a[1])
		if strings.Contains(flags, "i") {
			pattern = "(?i)" + pattern
		}
		re, err := regexp.Compile(pattern)
		if err != nil {
			raise("2201B", "invalid regular expression")
		}
		repl := strings.ReplaceAll(text(a[2]), "$", "$$")
		repl = regexp.MustCompile(`\\([0-9&])`).ReplaceAllString(repl, "$${$1}")
		repl = strings.ReplaceAll(repl, "${&}", "${0}")
		s := text(a[0])
		if strings.Contains(flags, "g") {
			return re.ReplaceAllString(s, repl)
		}
		if m := re.FindStringSubmatchIndex(s); m != nil {
			return s[:m[0]] + string(re.ExpandString(nil, repl, s, m)) + s[m[1]:]
		}
		return s
	}),
	"format": {25, func(a []Value) Value {
		if len(a) < 1 || a[0] == nil {
			return nil
		}
		var b strings.Builder
		f, n := text(a[0]), 1
		for i := 0; i < len(f); i++ {
			if f[i] != '%' || i+1 == len(f) {
				b.WriteByte(f[i])
				continue
			}
			i++
			if f[i] == '%' {
				b.WriteByte('%')
				continue
			}
			if n >= len(a) {
				raise("22023", "too few arguments for format()")
			}
			x := ""
			if a[n] != nil {
				x = text(a[n])
			}
			switch f[i] {
			case 's':
			case 'I':
				x = quoteIdent(x)
			case 'L':
				x = "'" + strings.ReplaceAll(x, "'", "''") + "'"
			default:
				unsupported("format %q", f)
			}
			n++
			b.WriteString(x)
		}
		return b.String()
	}},
	"quote_literal": strict(25, 1, func(a []Value) Value { return "'" + strings.ReplaceAll(text(a[0]), "'", "''") + "'" }),
	"cardinality": strict(23, 1, func(a []Value) Value {
		l, _ := a[0].([]Value)
		return int64(len(l))
	}),
	"array_length": strict(23, 2, func(a []Value) Value {
		if l, _ := a[0].([]Value); len(l) > 0 {
			return int64(len(l))
		}
		return nil
	}),
	"array_position": strict(23, 2, func(a []Value) Value {
		l, _ := a[0].([]Value)
		for i, x := range l {
			if eq, _ := same(x, a[1]); eq {
				return int64(i + 1)
			}
		}
		return nil
	}),
	"strpos": strict(23, 2, func(a []Value) Value {
		s := text(a[0])
		i := strings.Index(s, text(a[1]))
		if i < 0 {
			return int64(0)
		}
		return int64(len([]rune(s[:i])) + 1)
	}),
	"split_part": strict(25, 3, func(a []Value) Value {
		l := strings.Split(text(a[0]), text(a[1]))
		if n, ok := a[2].(int64); ok && n > 0 && int(n) <= len(l) {
			return l[n-1]
		}
		return ""
	}),
	"concat_ws": {25, func(a []Value) Value {
		if len(a) < 1 || a[0] == nil {
			return nil
		}
		var l []string
		for _, x := range a[1:] {
			if x != nil {
				l = append(l, text(x))
			}
		}
		return strings.Join(l, text(a[0]))
	}},
	"pg_my_temp_schema":       {26, func(a []Value) Value { return int64(0) }},
	"pg_is_other_temp_schema": strict(16, 1, func(a []Value) Value { return false }),
	"has_table_privilege":     strict(16, -1, func(a []Value) Value { return true }),
	"has_schema_privilege":    strict(16, -1, func(a []Value) Value { return true }),
	"array_to_string": strict(25, 2, func(a []Value) Value {
		list, ok := a[0].([]Value)
		if !ok {
			unsupported("array_to_string")
		}
		var l []string
		for _, x := range list {
			if x != nil {
				l = append(l, text(x))
			}
		}
		return strings.Join(l, text(a[1]))
	}),
}

func strict(oid uint32, n int, fn func([]Value) Value) Func {
	return Func{oid, func(a []Value) Value {
		if n >= 0 && len(a) != n || len(a) < 1 {
			raise("42883", "function does not exist")
		}
		for _, x := range a {
			if x == nil {
				return nil
			}
		}
		return fn(a)
	}}
}

func cutset(a []Value) string {
	if len(a) > 1 {
		return text(a[1])
	}
	return " "
}

func cut(r []rune, count Value, right bool) Value {
	n, ok := count.(int64)
	if !ok {
		raise("42883", "function does not exist")
	}
	if n < 0 {
		n += int64(len(r))
		if n < 0 {
			n = 0
		}
	}
	if n > int64(len(r)) {
		n = int64(len(r))
	}
	if right {
		return string(r[int64(len(r))-n:])
	}
	return string(r[:n])
}

func substring(a []Value) Value {
	if len(a) == 2 {
		if pattern, ok := a[1].(string); ok {
			re, err := regexp.Compile(pattern)
			if err != nil {
				raise("2201B", "invalid regular expression")
			}
			m := re.FindStringSubmatch(text(a[0]))
			switch len(m) {
			case 0:
				return nil
			case 1:
				return m[0]
			}
			return m[1]
		}
	}
	r := []rune(text(a[0]))
	from, ok := a[1].(int64)
	end := int64(len(r)) + 1
	if len(a) > 2 {
		n, ok2 := a[2].(int64)
		ok = ok && ok2
		if n < 0 {
			raise("22011", "negative substring length not allowed")
		}
		if from+n < end {
			end = from + n
		}
	}
	if !ok {
		raise("42883", "function does not exist")
	}
	if from < 1 {
		from = 1
	}
	if from >= end {
		return ""
	}
	return string(r[from-1 : end-1])
}

// like decides if text matches a pattern
func like(s, pattern, escape string, fold bool) bool {
	var b strings.Builder
	b.WriteString("(?s")
	if fold {
		b.WriteString("i")
	}
	b.WriteString(")^")
	esc, quoted := []rune(escape), false
	for _, r := range pattern {
		switch {
		case quoted:
			b.WriteString(regexp.QuoteMeta(string(r)))
			quoted = false
		case len(esc) > 0 && r == esc[0]:
			quoted = true
		case r == '%':
			b.WriteString(".*")
		case r == '_':
			b.WriteString(".")
		default:
			b.WriteString(regexp.QuoteMeta(string(r)))
		}
	}
	if quoted {
		raise("22025", "LIKE pattern must not end with escape character")
	}
	return regexp.MustCompile(b.String() + "$").MatchString(s)
}

// arrayLiteral understands arrays of simple elements
func arrayLiteral(s string) Value {
	if len(s) < 2 || s[0] != '{' || s[len(s)-1] != '}' {
		raise("22P02", "malformed array literal: %q", s)
	}
	list := []Value{}
	for _, x := range strings.Split(s[1:len(s)-1], ",") {
		if strings.ContainsAny(x, `"\{}`) {
			unsupported("array %s", s)
		}
		if x = strings.TrimSpace(x); x != "" || s != "{}" {
			list = append(list, x)
		}
	}
	return list
}

// functions PostgreSQL has, but this doesn't
var knownFuncs = map[string]bool{"format": true, "regexp_replace": true, "concat_ws": true, "split_part": true, "strpos": true,
	"shobj_description": true, "array_agg": true, "string_agg": true, "count": true, "min": true, "max": true, "row_number": true,
	"to_regclass": true, "current_setting": true, "pg_get_function_arguments": true, "pg_get_functiondef": true, "array_position": true,
	"generate_series": true, "current_schemas": true, "current_schema": true, "bool_or": true, "bool_and": true, "has_table_privilege": true,
	"has_schema_privilege": true, "pg_get_function_identity_arguments": true, "quote_literal": true, "array_length": true, "cardinality": true,
	"position": true, "now": true, "version": true, "pg_is_other_temp_schema": true, "pg_my_temp_schema": true, "lpad": true, "rpad": true}

func same(a, b Value) (eq, null bool) {
	if a == nil || b == nil {
		return false, true
	}
	switch x := a.(type) {
	case int64:
		if y, ok := b.(string); ok {
			n, err := strconv.ParseInt(y, 10, 64)
			if err != nil {
				raise("22P02", "invalid input syntax for integer: %q", y)
			}
			return x == n, false
		}
	case string:
		if _, ok := b.(int64); ok {
			return same(b, a)
		}
	case bool:
		if y, ok := b.(string); ok {
			return x == (strings.HasPrefix("true", strings.ToLower(y)) || y == "1"), false
		}
	}
	if fmt.Sprintf("%T", a) != fmt.Sprintf("%T", b) {
		raise("42883", "operator does not exist")
	}
	return compare(a, b) == 0, false
}

func compare(a, b Value) int {
	switch x := a.(type) {
	case int64:
		y := b.(int64)
		switch {
		case x < y:
			return -1
		case x > y:
			return 1
		}
		return 0
	case string:
		return strings.Compare(x, b.(string))
	case bool:
		y := b.(bool)
		switch {
		case x == y:
			return 0
		case y:
			return -1
		}
		return 1
	case []Value:
		y := b.([]Value)
		for i := range x {
			if i >= len(y) {
				return 1
			}
			if c := compare(x[i], y[i]); c != 0 {
				return c
			}
		}
		if len(x) < len(y) {
			return -1
		}
		return 0
	}
	panic(fmt.Sprintf("monitor panic: value %T", a))
}

// typ is the type of an expression
func (v *env) typ(e *expr) uint32 {
	switch e.op {
	case "lit":
		switch e.val.(type) {
		case bool:
			return 16
		case int64:
			return 23
		}
		return 25
	case "param":
		return 25
	case "col":
		b, c := v.lookup(e.name)
		return b.t.Cols[c].OID
	case "call":
		n := e.name[len(e.name)-1]
		if n == "coalesce" || n == "nullif" {
			return v.typ(e.args[0])
		}
		if oid, ok := aggregates[n]; ok {
			if oid == 0 && len(e.args) > 0 {
				return v.typ(e.args[0])
			}
			return oid
		}
		return v.fn(e.name).OID
	case "cast":
		n := e.name[len(e.name)-1]
		if n == "regclass" || n == "regproc" || n == "regtype" {
			return 2205
		}
		if n == "integer" || n == "int" {
			n = "int4"
		}
		if n == "bigint" {
			n = "int8"
		}
		if n == "boolean" {
			n = "bool"
		}
		if strings.HasSuffix(n, "[]") {
			return 1009
		}
		oid := typeOIDs[n]
		if oid == 0 {
			unsupported("cast to %v", e.name)
		}
		return uint32(oid)
	case "case":
		for i := 1; i < len(e.args); i += 2 {
			if a := e.args[i]; a.op != "lit" || a.val != nil {
				return v.typ(a)
			}
		}
		return v.typ(e.args[len(e.args)-1])
	case "||":
		return 25
	case "+", "-", "*":
		return v.typ(e.args[0])
	case "array":
		return 1009
	case "sub":
		sv := v.db.scope(v, e.sub)
		return sv.typ(e.sub.items[0].e)
	}
	return 16
}

func truth(x Value) (val, null bool) {
	if x == nil {
		return false, true
	}
	b, ok := x.(bool)
	if !ok {
		raise("42804", "argument must be type boolean")
	}
	return b, false
}

func (v *env) eval(e *expr) Value {
	switch e.op {
	case "lit":
		return e.val
	case "param":
		n := int(e.val.(int64))
		for x := v; x != nil; x = x.parent {
			if x.params != nil {
				if n < 1 || n > len(x.params) {
					raise("08P01", "there is no parameter $%d", n)
				}
				return x.params[n-1]
			}
		}
		raise("42P02", "there is no parameter $%d", n)
	case "col":
		b, c := v.lookup(e.name)
		if b.row == nil {
			return nil
		}
		return b.row[c]
	case "call":
		n := e.name[len(e.name)-1]
		if n == "coalesce" {
			for _, a := range e.args {
				if x := v.eval(a); x != nil {
					return x
				}
			}
			return nil
		}
		if n == "nullif" && len(e.args) == 2 {
			a, b := v.eval(e.args[0]), v.eval(e.args[1])
			if eq, _ := same(a, b); eq {
				return nil
			}
			return a
		}
		if _, ok := aggregates[n]; ok && (len(e.name) == 1 || e.name[0] == "pg_catalog") {
			return v.aggregate(n, e)
		}
		f := v.fn(e.name)
		var args []Value
		for _, a := range e.args {
			args = append(args, v.eval(a))
		}
		return f.Fn(args)
	case "cast":
		x := v.eval(e.args[0])
		if x == nil {
			return nil
		}
		switch n := e.name[len(e.name)-1]; n {
		case "regclass", "regtype":
			s, ok := x.(string)
			if !ok {
				return x
			}
			return v.db.Funcs["to_"+n+"!"].Fn([]Value{s})
		case "text", "name", "varchar":
			if a := e.args[0]; a.op == "cast" && strings.HasPrefix(a.name[len(a.name)-1], "reg") {
				return v.db.regText(a.name[len(a.name)-1], x.(int64))
			}
			if b, ok := x.(bool); ok {
				return strconv.FormatBool(b)
			}
			return text(x)
		case "int8", "int4", "oid", "integer", "int", "bigint":
			if s, ok := x.(string); ok {
				i, err := strconv.ParseInt(s, 10, 64)
				if err != nil {
					raise("22P02", "invalid input syntax")
				}
				return i
			}
			return x
		case "char", "bool", "boolean":
			return x
		case "text[]", "name[]", "varchar[]":
			if s, ok := x.(string); ok {
				return arrayLiteral(s)
			}
			return x
		default:
			unsupported("cast to %v", e.name)
		}
	case "and", "or":
		a, an := truth(v.eval(e.args[0]))
		stop := e.op == "or"
		if !an && a == stop {
			return stop
		}
		b, bn := truth(v.eval(e.args[1]))
		if !bn && b == stop {
			return stop
		}
		if an || bn {
			return nil
		}
		return !stop
	case "not":
		a, an := truth(v.eval(e.args[0]))
		if an {
			return nil
		}
		return !a
	case "isnull":
		return v.eval(e.args[0]) == nil
	case "in":
		x := v.eval(e.args[0])
		null := false
		for _, a := range e.args[1:] {
			eq, n := same(x, v.eval(a))
			if eq {
				return true
			}
			null = null || n
		}
		if null {
			return nil
		}
		return false
	case "exists":
		_, rows := v.db.rows(v, e.sub)
		return len(rows) > 0
	case "sub":
		_, rows := v.db.rows(v, e.sub)
		if len(e.sub.items) != 1 {
			raise("42601", "subquery must return only one column")
		}
		if len(rows) > 1 {
			raise("21000", "more than one row returned by a subquery used as an expression")
		}
		if len(rows) == 0 {
			return nil
		}
		return rows[0][0]
	case "insub", "quantified":
		x := v.eval(e.args[0])
		op, all := "=", false
		if e.op == "quantified" {
			op, all = e.name[0], e.val.(bool)
		}
		var list []Value
		if e.sub != nil {
			_, rows := v.db.rows(v, e.sub)
			for _, r := range rows {
				list = append(list, r[0])
			}
		} else {
			y := v.eval(e.args[1])
			if y == nil {
				return nil
			}
			if s, ok := y.(string); ok {
				y = arrayLiteral(s)
			}
			var ok bool
			if list, ok = y.([]Value); !ok {
				raise("42809", "op ANY/ALL (array) requires array on right side")
			}
		}
		null := false
		for _, y := range list {
			r, n := truth(v.eval(&expr{op: op, args: []*expr{{op: "lit", val: x}, {op: "lit", val: y}}}))
			if !n && r != all {
				return r
			}
			null = null || n
		}
		if null {
			return nil
		}
		return all
	case "istrue":
		x, null := truth(v.eval(e.args[0]))
		return x && !null
	case "notdistinct":
		a, b := v.eval(e.args[0]), v.eval(e.args[1])
		if a == nil || b == nil {
			return a == nil && b == nil
		}
		eq, _ := same(a, b)
		return eq
	case "case":
		n := len(e.args) - 1
		for i := 0; i < n; i += 2 {
			if x, _ := truth(v.eval(e.args[i])); x {
				return v.eval(e.args[i+1])
			}
		}
		return v.eval(e.args[n])
	case "array":
		list := []Value{}
		for _, a := range e.args {
			list = append(list, v.eval(a))
		}
		return list
	case "||":
		a, b := v.eval(e.args[0]), v.eval(e.args[1])
		if a == nil || b == nil {
			return nil
		}
		if _, ok := a.([]Value); ok {
			unsupported("array || array")
		}
		return text(a) + text(b)
	case "+", "-", "*":
		a, b := v.eval(e.args[0]), v.eval(e.args[1])
		if a == nil || b == nil {
			return nil
		}
		x, ok1 := a.(int64)
		y, ok2 := b.(int64)
		if !ok1 || !ok2 {
			unsupported("operator %s", e.op)
		}
		switch e.op {
		case "+":
			return x + y
		case "-":
			return x - y
		}
		return x * y
	case "like", "ilike", "~~", "!~~", "~~*", "!~~*":
		a, b := v.eval(e.args[0]), v.eval(e.args[1])
		if a == nil || b == nil {
			return nil
		}
		esc := `\`
		if len(e.args) > 2 {
			esc, _ = v.eval(e.args[2]).(string)
		}
		return like(text(a), text(b), esc, e.op == "ilike" || strings.HasSuffix(e.op, "*")) != (e.op[0] == '!')
	case "=", "<>", "!=":
		eq, null := same(v.eval(e.args[0]), v.eval(e.args[1]))
		if null {
			return nil
		}
		return eq == (e.op == "=")
	case "<", ">", "<=", ">=":
		a, b := v.eval(e.args[0]), v.eval(e.args[1])
		if _, null := same(a, b); null {
			return nil
		}
		c := compare(a, b)
		switch e.op {
		case "<":
			return c < 0
		case ">":
			return c > 0
		case "<=":
			return c <= 0
		}
		return c >= 0
	case "~", "!~", "~*", "!~*":
		a, b := v.eval(e.args[0]), v.eval(e.args[1])
		if a == nil || b == nil {
			return nil
		}
		pattern := text(b)
		if strings.HasSuffix(e.op, "*") {
			pattern = "(?i)" + pattern
		}
		re, err := regexp.Compile(pattern)
		if err != nil {
			raise("2201B", "invalid regular expression")
		}
		return re.MatchString(text(a)) == (e.op[0] == '~')
	}
	panic("monitor panic: expression " + e.op)
}

// scope binds the tables of a query, without rows
func (db *DB) scope(parent *env, q *query) *env {
	v := &env{db: db, parent: parent}
	for _, s := range q.from {
		p := parent
		if s.lateral {
			p = v
		}
		var t *Table
		switch {
		case s.fn != nil:
			for _, a := range s.fn.args {
				p.check(a)
			}
			t = &Table{Cols: []Col{{s.cols[0], 25}}}
			if s.alias != "unnest" && s.fn.name[len(s.fn.name)-1] != "unnest" {
				t.Cols[0].OID = 23
			}
			if s.ord {
				t.Cols = append(t.Cols, Col{s.cols[1], 20})
			}
		case s.sub != nil:
			_, cols, _ := db.columns(p, s.sub)
			if len(s.cols) > len(cols) {
				raise("42P10", "table %q has %d columns available but %d columns specified", s.alias, len(cols), len(s.cols))
			}
			t = &Table{Cols: append([]Col(nil), cols...)}
			for i, n := range s.cols {
				t.Cols[i].Name = n
			}
		default:
			t = db.find(s.table)
		}
		v.b = append(v.b, binding{alias: s.alias, t: t, using: s.using})
	}
	return v
}

// generated rows of a function
func (v *env) generated(s source) (rows [][]Value) {
	var args []Value
	for _, a := range s.fn.args {
		args = append(args, v.eval(a))
		if args[len(args)-1] == nil {
			return nil
		}
	}
	switch n := s.fn.name[len(s.fn.name)-1]; {
	case n == "unnest" && len(args) == 1:
		l, _ := args[0].([]Value)
		for _, x := range l {
			rows = append(rows, []Value{x})
		}
	case n == "generate_series" && len(args) == 2:
		for i := args[0].(int64); i <= args[1].(int64); i++ {
			rows = append(rows, []Value{i})
		}
	case n == "generate_subscripts" && len(args) == 2:
		l, _ := args[0].([]Value)
		for i := range l {
			rows = append(rows, []Value{int64(i + 1)})
		}
	default:
		unsupported("%v with %d arguments", s.fn.name, len(args))
	}
	for i := range rows {
		if s.ord {
			rows[i] = append(rows[i], int64(i+1))
		}
	}
	return rows
}

func (db *DB) columns(parent *env, q *query) (full *env, cols []Col, srf int) {
	full = db.scope(parent, q)
	seen := map[string]bool{}
	for _, b := range full.b {
		if seen[b.alias] {
			raise("42712", "table name %q specified more than once", b.alias)
		}
		seen[b.alias] = true
	}
	for i := 0; i < len(q.items); i++ {
		if q.items[i].e.op != "star" {
			continue
		}
		var list []item
		of := q.items[i].e.name
		for _, b := range full.b {
			if len(of) > 0 && of[0] != b.alias {
				continue
			}
			if len(b.t.Opaque) > 0 {
				unsupported("*")
			}
			for _, c := range b.t.Cols {
				if len(of) > 0 || !has(b.using, c.Name) {
					list = append(list, item{e: &expr{op: "col", name: []string{b.alias, c.Name}}})
				}
			}
		}
		if len(list) == 0 {
			raise("42P01", "missing FROM-clause entry")
		}
		q.items = append(append(append([]item(nil), q.items[:i]...), list...), q.items[i+1:]...)
		i += len(list) - 1
	}
	srf = -1
	for i, it := range q.items {
		name := it.alias
		if name == "" {
			name = "?column?"
			if it.e.op == "col" || it.e.op == "call" {
				name = it.e.name[len(it.e.name)-1]
			}
			if it.e.op == "exists" {
				name = "exists"
			}
		}
		if it.e.op == "call" && it.e.name[len(it.e.name)-1] == "unnest" {
			srf = i
		}
		full.check(it.e)
		cols = append(cols, Col{name, full.typ(it.e)})
		if cols[len(cols)-1].OID == 2205 && parent != nil && parent.parent == nil && len(parent.b) == 0 {
			unsupported("results of reg types")
		}
	}
	// names are wrong even if there are no rows
	if q.where != nil {
		full.check(q.where)
	}
	for _, u := range q.union {
		if _, ucols, _ := db.columns(parent, u); len(ucols) != len(cols) {
			raise("42601", "each UNION query must have the same number of columns")
		}
	}
	for i, s := range q.from {
		if s.on != nil {
			(&env{db: db, parent: parent, b: full.b[:i+1]}).check(s.on)
		}
	}
	if q.having != nil {
		full.check(q.having)
	}
	for _, o := range q.order {
		known := o.pos > 0 && o.pos <= len(cols)
		for _, c := range cols {
			known = known || o.name != "" && c.Name == o.name
		}
		if !known {
			if o.pos > 0 {
				raise("42P10", "ORDER BY position %d is not in select list", o.pos)
			}
			full.check(o.e)
		}
	}
	return
}

func (db *DB) rows(parent *env, q *query) ([]Col, [][]Value) {
	full, cols, srf := db.columns(parent, q)
	envs := []*env{{db: db, parent: parent}}
	for i, s := range q.from {
		t := full.b[i].t
		if s.sub != nil && !s.lateral {
			_, rows := db.rows(parent, s.sub)
			t = &Table{Cols: t.Cols, Rows: rows}
		}
		var out []*env
		for _, v := range envs {
			hit := false
			if s.fn != nil {
				t = &Table{Cols: t.Cols, Rows: v.generated(s)}
			} else if s.lateral {
				_, rows := db.rows(v, s.sub)
				t = &Table{Cols: t.Cols, Rows: rows}
			}
			for _, row := range t.Rows {
				w := &env{db: db, parent: parent, b: append(append([]binding(nil), v.b...), binding{s.alias, t, row, s.using})}
				if s.on != nil {
					if ok, _ := truth(w.eval(s.on)); !ok {
						continue
					}
				}
				hit = true
				out = append(out, w)
			}
			if s.left && !hit {
				out = append(out, &env{db: db, parent: parent, b: append(append([]binding(nil), v.b...), binding{s.alias, t, nil, s.using})})
			}
		}
		envs = out
	}
	type keyed struct {
		row, key []Value
	}
	var all []keyed
	if q.where != nil {
		var out []*env
		for _, v := range envs {
			if ok, _ := truth(v.eval(q.where)); ok {
				out = append(out, v)
			}
		}
		envs = out
	}
	grouped := len(q.group) > 0 || q.having != nil
	for _, it := range q.items {
		grouped = grouped || isAggregate(it.e)
	}
	for _, o := range q.order {
		grouped = grouped || isAggregate(o.e)
	}
	if grouped {
		envs = full.grouped(q, cols, envs)
	}
	for _, v := range envs {
		row := make([]Value, len(q.items))
		for i, it := range q.items {
			row[i] = v.eval(it.e)
		}
		expanded := [][]Value{row}
		if srf >= 0 {
			expanded = nil
			list, _ := row[srf].([]Value)
			for _, x := range list {
				r := append([]Value(nil), row...)
				r[srf] = x
				expanded = append(expanded, r)
			}
		}
		for _, r := range expanded {
			k := keyed{row: r}
			for _, o := range q.order {
				switch {
				case o.pos > 0:
					if o.pos > len(r) {
						raise("42P10", "ORDER BY position %d is not in select list", o.pos)
					}
					k.key = append(k.key, r[o.pos-1])
				default:
					hit := -1
					if o.name != "" {
						for i, it := range q.items {
							if it.alias == o.name || it.alias == "" && cols[i].Name == o.name {
								hit = i
							}
						}
					}
					if hit >= 0 {
						k.key = append(k.key, r[hit])
					} else {
						k.key = append(k.key, v.eval(o.e))
					}
				}
			}
			all = append(all, k)
		}
	}
	if len(q.distinctOn) > 0 {
		if srf >= 0 || len(q.union) > 0 || grouped {
			unsupported("DISTINCT ON")
		}
		keys := map[string]bool{}
		order := make([]int, len(all))
		for i := range order {
			order[i] = i
		}
		sort.SliceStable(order, func(i, j int) bool { return before(q.order, all[order[i]].key, all[order[j]].key) })
		var list []keyed
		for _, i := range order {
			id := ""
			for _, e := range q.distinctOn {
				id += fmt.Sprintf("%#v,", envs[i].eval(e))
			}
			if !keys[id] {
				keys[id] = true
				list = append(list, all[i])
			}
		}
		all = list
	}
	for i, u := range q.union {
		ucols, rows := db.rows(parent, u)
		if len(ucols) != len(cols) {
			raise("42601", "each UNION query must have the same number of columns")
		}
		for _, r := range rows {
			k := keyed{row: r}
			for _, o := range q.order {
				hit := o.pos - 1
				for c := range cols {
					if o.pos < 1 && o.name != "" && cols[c].Name == o.name {
						hit = c
					}
				}
				if hit < 0 {
					raise("0A000", "invalid UNION ORDER BY clause")
				}
				k.key = append(k.key, r[hit])
			}
			all = append(all, k)
		}
		q.distinct = q.distinct || !q.unionAll[i]
	}
	if q.distinct {
		seen := map[string]bool{}
		var list []keyed
		for _, k := range all {
			id := fmt.Sprintf("%#v", k.row)
			if !seen[id] {
				seen[id] = true
				list = append(list, k)
			}
		}
		all = list
	}
	sort.SliceStable(all, func(i, j int) bool { return before(q.order, all[i].key, all[j].key) })
	var rows [][]Value
	for _, k := range all {
		rows = append(rows, k.row)
	}
	if q.offset != nil {
		n := full.eval(q.offset).(int64)
		if int64(len(rows)) < n {
			n = int64(len(rows))
		}
		rows = rows[n:]
	}
	if q.limit != nil {
		n := full.eval(q.limit).(int64)
		if int64(len(rows)) > n {
			rows = rows[:n]
		}
	}
	return cols, rows
}

// grouped has an env for each group
func (v *env) grouped(q *query, cols []Col, envs []*env) (out []*env) {
	by := map[string]*env{}
	var groups []*env
	if len(q.group) == 0 {
		w := &env{db: v.db, parent: v.parent, b: v.b, group: []*env{}}
		by[""], groups = w, append(groups, w)
	}
	exprs := append([]*expr(nil), q.group...)
	for i, e := range exprs {
		if n, ok := e.val.(int64); ok && e.op == "lit" {
			if n < 1 || int(n) > len(q.items) {
				raise("42P10", "GROUP BY position %d is not in select list", n)
			}
			exprs[i] = q.items[n-1].e
		}
		if e.op == "col" && len(e.name) == 1 {
			input := false
			for _, b := range v.b {
				input = input || b.t.col(e.name[0]) >= 0
			}
			for k, c := range cols {
				if !input && c.Name == e.name[0] {
					exprs[i] = q.items[k].e
				}
			}
		}
	}
	for _, w := range envs {
		key := ""
		for _, e := range exprs {
			key += fmt.Sprintf("%#v,", w.eval(e))
		}
		if by[key] == nil {
			x := *w
			x.group = []*env{}
			by[key] = &x
			groups = append(groups, &x)
		}
		if len(by[key].group) == 0 {
			by[key].b = w.b
		}
		by[key].group = append(by[key].group, w)
	}
	for _, w := range groups {
		if q.having != nil {
			if ok, _ := truth(w.eval(q.having)); !ok {
				continue
			}
		}
		out = append(out, w)
	}
	return out
}

func (v *env) check(e *expr) {
	switch e.op {
	case "col":
		v.lookup(e.name)
	case "call":
		n := e.name[len(e.name)-1]
		if _, ok := aggregates[n]; !ok && n != "coalesce" && n != "nullif" {
			v.fn(e.name)
		}
		if e.filter != nil {
			v.check(e.filter)
		}
		for _, o := range e.order {
			v.check(o.e)
		}
	}
	for _, a := range e.args {
		v.check(a)
	}
	if e.sub != nil {
		v.db.columns(v, e.sub)
	}
}

func countParams(e *expr, n *int) {
	if e == nil {
		return
	}
	if e.op == "param" && int(e.val.(int64)) > *n {
		*n = int(e.val.(int64))
	}
	for _, a := range e.args {
		countParams(a, n)
	}
	countParams(e.filter, n)
	if e.sub != nil {
		e.sub.params(n)
	}
}

func (q *query) params(n *int) {
	for _, it := range q.items {
		countParams(it.e, n)
	}
	for _, s := range q.from {
		countParams(s.on, n)
		countParams(s.fn, n)
		if s.sub != nil {
			s.sub.params(n)
		}
	}
	for _, u := range q.union {
		u.params(n)
	}
	countParams(q.where, n)
	countParams(q.having, n)
	for _, e := range q.distinctOn {
		countParams(e, n)
	}
	for _, e := range q.group {
		countParams(e, n)
	}
	for _, o := range q.order {
		countParams(o.e, n)
	}
}

// Describe a statement
func (db *DB) Describe(sql string) (params int, cols []Col, err *Error) {
	defer catch(&err)
	if name, ok := show(sql); ok {
		if _, ok := db.Shows[name]; !ok {
			raise("42704", "unrecognized configuration parameter %q", name)
		}
		return 0, []Col{{name, 25}}, nil
	}
	q := parse(sql)
	q.params(&params)
	_, cols, _ = db.columns(&env{db: db}, q)
	return params, cols, nil
}

// Exec executes a statement
func (db *DB) Exec(sql string, args []string) (res *Result, err *Error) {
	defer catch(&err)
	if name, ok := show(sql); ok {
		return &Result{Cols: []Col{{name, 25}}, Rows: [][]Value{{db.Shows[name]}}, Tag: "SHOW"}, nil
	}
	if args == nil {
		args = []string{}
	}
	cols, rows := db.rows(&env{db: db, params: args}, parse(sql))
	return &Result{Cols: cols, Rows: rows}, nil
}

func show(sql string) (string, bool) {
	t := lex(sql)
	if len(t) >= 3 && t[0] == (tok{"word", "show"}) && (t[1].kind == "word" || t[1].kind == "ident") &&
		(t[2].kind == "end" || t[2].s == ";") {
		return t[1].s, true
	}
	if len(t) == 5 && t[0].s == "show" && t[1].s == "time" && t[2].s == "zone" {
		return "timezone", true
	}
	return "", false
}

func catch(err **Error) {
	if r := recover(); r != nil {
		e, ok := r.(sqlError)
		if !ok {
			panic(r)
		}
		*err = &e.Error
	}
}

// quoteIdent is the server's quote_ident.
func quoteIdent(s string) string {
	plain := s != "" && !reserved[s]
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c == '_' || 'a' <= c && c <= 'z' || i > 0 && (c == '$' || '0' <= c && c <= '9')) {
			plain = false
		}
	}
	if plain {
		return s
	}
	return `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
}
