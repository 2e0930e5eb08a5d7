//go:build go1.22

// Package dgen generates definitions of constraints, indexes and triggers, together
// with what they mean.
package dgen

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/sjansen/pgutil/internal/ddl"
	"github.com/sjansen/pgutil/internal/zverif/vk"
)

// G generates definitions. If PG is set they are spelled like PostgreSQL does,
// otherwise with arbitrary whitespace and case.
type G struct {
	R    *rand.Rand
	PG   bool
	last [4]string // identifiers which may be used again
	used int
}

var spaces = []string{" ", " ", " ", "  ", "\n", "\t", "\r\n", " \t ", "\n\n  ", "\f"}

func (g *G) flip() bool { return g.R.Intn(2) == 0 }

// WS is mandatory whitespace
func (g *G) WS() string {
	if g.PG {
		return " "
	}
	if g.R.Intn(200) == 0 {
		return strings.Repeat(spaces[g.R.Intn(len(spaces))], 1+vk.Size(g.R, 500))
	}
	return spaces[g.R.Intn(len(spaces))]
}

// WW is whitespace of at least two characters
func (g *G) WW() string {
	if g.PG {
		return " "
	}
	return g.WS() + g.WS()
}

// OWS is optional whitespace
func (g *G) OWS() string {
	if g.PG || g.flip() {
		return ""
	}
	return g.WS()
}

// KW spells keywords, which are separated by spaces in s
func (g *G) KW(s string) string {
	if g.PG {
		return s
	}
	how := g.R.Intn(4)
	words := strings.Fields(s)
	for i, w := range words {
		switch how {
		case 0:
			words[i] = strings.ToLower(w)
		case 1:
			b := []byte(w)
			for j := range b {
				if g.flip() {
					b[j] |= 0x20
				}
			}
			words[i] = string(b)
		}
	}
	var b strings.Builder
	for i, w := range words {
		if i > 0 {
			b.WriteString(g.WS())
		}
		b.WriteString(w)
	}
	return b.String()
}

// Comma separates the items of a list
func (g *G) Comma() string {
	if g.PG {
		return ", "
	}
	return g.OWS() + "," + g.OWS()
}

var keywords = strings.Fields("on using where or of before after instead for each row statement execute function procedure " +
	"deferrable initially deferred immediate not match full partial simple cascade restrict set null default no action " +
	"references foreign key check unique index create trigger constraint insert update delete truncate asc desc " +
	"ascending descending nulls first last collate if exists only concurrently include with public and not primary")

// Ident is an identifier, occasionally one that was already used
func (g *G) Ident() string {
	if s := g.last[g.R.Intn(len(g.last))]; s != "" && g.R.Intn(8) == 0 {
		return s
	}
	s := g.ident()
	g.last[g.used%len(g.last)] = s
	g.used++
	return s
}

func (g *G) ident() string {
	const first, rest = "abcdefghijklmnopqrstuvwxyz", "abcdefghijklmnopqrstuvwxyz0123456789_"
	if !g.PG && g.R.Intn(6) == 0 {
		w := keywords[g.R.Intn(len(keywords))]
		if g.flip() {
			w = strings.ToUpper(w)
		}
		return w
	}
	n := 1 + g.R.Intn(4)
	if g.R.Intn(8) == 0 {
		n = 20 + g.R.Intn(44)
		if !g.PG && g.flip() {
			n += vk.Size(g.R, 3000)
		}
	}
	if g.R.Intn(6) == 0 {
		// begins like a keyword
		w := keywords[g.R.Intn(len(keywords))]
		return w + "_" + fmt.Sprint(g.R.Intn(100))
	}
	b := []byte{first[g.R.Intn(len(first))]}
	for len(b) < n {
		b = append(b, rest[g.R.Intn(len(rest))])
	}
	s := string(b)
	if !g.PG && g.R.Intn(4) == 0 {
		s = strings.ToUpper(s[:1]) + s[1:]
	}
	for _, w := range keywords {
		if g.PG && s == w {
			return s + "1"
		}
	}
	return s
}

func (g *G) idents(max int) []string {
	var l []string
	for n := 1 + vk.Several(g.R, max, 40); len(l) < n; {
		l = append(l, g.Ident())
	}
	return l
}

func (g *G) list(l []string) string {
	var b strings.Builder
	b.WriteString("(" + g.OWS())
	for i, s := range l {
		if i > 0 {
			b.WriteString(g.Comma())
		}
		b.WriteString(s)
	}
	b.WriteString(g.OWS() + ")")
	return b.String()
}

var literals = []string{"''", "'x'", "'it''s'", "'two  spaces'", "'tab\there'", "'naïve'", "'日本'", "'%'", "'a(b'", "'${x}'", `'back\slash'`, "'\"'", "'{a,b}'", "'line\nbreak'"}

// Expr is an expression; without parentheses if flat is set
func (g *G) Expr(depth int, flat bool) string {
	sp := " "
	if !g.PG && g.R.Intn(4) == 0 {
		sp = g.WS()
	}
	leaf := func() string {
		switch g.R.Intn(5) {
		case 0:
			return fmt.Sprint(vk.Int(g.R, 0, 1<<63-1))
		case 1:
			s := literals[g.R.Intn(len(literals))]
			if g.R.Intn(30) == 0 {
				s = "'" + strings.Repeat(string(s[1:len(s)-1]), vk.Size(g.R, 1000)) + "'"
			}
			if flat {
				s = strings.Replace(s, "(", "", -1)
			}
			return s + []string{"", "::text"}[g.R.Intn(2)]
		case 2:
			return `"` + []string{"Weird Name", "a  b", "x", "Ünï", "sel''ect"}[g.R.Intn(5)] + `"`
		}
		return g.Ident()
	}
	if depth == 3 && g.R.Intn(10) == 0 {
		depth = 9
	}
	if depth <= 0 {
		return leaf()
	}
	switch g.R.Intn(6) {
	case 0, 1:
		return g.Expr(depth-1, flat) + sp + []string{">", "<=", "=", "<>", "AND", "OR", "~", "+", "||", "IS DISTINCT FROM"}[g.R.Intn(10)] + sp + g.Expr(depth-1, flat)
	case 2:
		if !flat {
			return "(" + g.Expr(depth-1, flat) + ")"
		}
	case 3:
		if !flat {
			return g.Ident() + "(" + g.Expr(depth-1, flat) + ", " + leaf() + ")"
		}
	case 4:
		return g.Expr(depth-1, flat) + " IS NOT NULL"
	}
	return leaf()
}

// deferrable is appended to constraints; triggers have something behind it
func (g *G) deferrable(last bool) (s string, deferrable, deferred bool) {
	n := 7
	if g.PG {
		n = 4
	}
	switch g.R.Intn(n) {
	case 0:
		return g.WS() + g.KW("DEFERRABLE") + g.WS() + g.KW("INITIALLY DEFERRED"), true, true
	case 1:
		return g.WS() + g.KW("DEFERRABLE") + g.WS() + g.KW("INITIALLY IMMEDIATE"), true, false
	case 4:
		if last {
			return g.WS() + g.KW("DEFERRABLE") + g.WS(), true, false
		}
		return g.WS() + g.KW("DEFERRABLE") + g.WS(), true, false
	case 5:
		return g.WS() + g.KW("NOT DEFERRABLE"), false, false
	case 6:
		if g.flip() {
			return g.WS() + g.KW("INITIALLY DEFERRED"), false, true
		}
		return g.WS() + g.KW("INITIALLY IMMEDIATE"), false, false
	}
	return "", false, false
}

// Check generates a check constraint
func (g *G) Check() (string, *ddl.Check) {
	c := &ddl.Check{}
	if g.PG {
		c.Expression = g.Expr(g.R.Intn(4), false)
		if g.flip() {
			c.Expression = "(" + c.Expression + ")"
		}
		return "CHECK (" + c.Expression + ")", c
	}
	c.Expression = strings.TrimSpace(g.Expr(g.R.Intn(4), false))
	if g.flip() {
		c.Expression = "(" + c.Expression + ")"
	}
	s := g.OWS() + g.KW("CHECK") + g.OWS() + "(" + g.OWS() + c.Expression + g.OWS() + ")"
	var d string
	d, c.Deferrable, c.InitiallyDeferred = g.deferrable(true)
	return s + d + g.OWS(), c
}

var actions = []string{"NO ACTION", "RESTRICT", "CASCADE", "SET NULL", "SET DEFAULT"}

// ForeignKey generates a reference to a table
func (g *G) ForeignKey(table string, columns []string) (string, *ddl.ForeignKey) {
	fk := &ddl.ForeignKey{Table: table, Columns: columns}
	if table == "" {
		fk.Table = g.Ident()
	}
	if columns == nil {
		fk.Columns = g.idents(3)
	}
	for range fk.Columns {
		fk.Referenced = append(fk.Referenced, g.Ident())
	}
	if !g.PG && g.R.Intn(4) == 0 {
		fk.Referenced = g.idents(4)
	}
	s := g.OWS() + g.KW("FOREIGN KEY") + g.WS() + g.list(fk.Columns) + g.WS() + g.KW("REFERENCES") + g.WS() + fk.Table + g.list(fk.Referenced)
	if g.R.Intn(3) == 0 {
		fk.Match = []string{"FULL", "PARTIAL", "SIMPLE"}[g.R.Intn(3)]
		if g.PG {
			fk.Match = "FULL"
		}
		s += g.WS() + g.KW("MATCH "+fk.Match)
	}
	if g.flip() {
		fk.OnDelete = actions[g.R.Intn(len(actions))]
		s += g.WS() + g.KW("ON DELETE "+fk.OnDelete)
	}
	// in PostgreSQL's order there can't be both: see the known findings of C27
	if g.flip() && !(g.PG && fk.OnDelete != "") {
		fk.OnUpdate = actions[g.R.Intn(len(actions))]
		s += g.WS() + g.KW("ON UPDATE "+fk.OnUpdate)
	}
	var d string
	d, fk.Deferrable, fk.InitiallyDeferred = g.deferrable(true)
	if g.PG && fk.Deferrable && !fk.InitiallyDeferred {
		// PostgreSQL omits the default, see the known findings of C27
		d, fk.Deferrable = "", false
	}
	return s + d + g.OWS(), fk
}

// Index generates an index
func (g *G) Index(table, name string, unique bool, columns []string) (string, *ddl.Index) {
	ix := &ddl.Index{Table: table, Name: name, Unique: unique}
	if table == "" {
		ix.Table = g.Ident()
	}
	if name == "" {
		ix.Name = g.Ident()
	}
	s := g.OWS() + g.KW("CREATE") + g.WS()
	if unique {
		s += g.KW("UNIQUE") + g.WS()
	}
	s += g.KW("INDEX") + g.WS() + ix.Name + g.WS() + g.KW("ON") + g.WS() + ix.Table
	if g.PG || g.flip() {
		ix.Using = []string{"btree", "gin", "gist", "hash", "brin"}[g.R.Intn(5)]
		if !g.PG && g.R.Intn(3) == 0 {
			ix.Using = g.Ident()
		}
		s += g.WS() + g.KW("USING") + g.WS() + ix.Using
	}
	s += g.WS() + "(" + g.OWS()
	n := 1 + vk.Several(g.R, 4, 31)
	for i := 0; i < n; i++ {
		k := &ddl.IndexKey{}
		ix.Keys = append(ix.Keys, k)
		if i > 0 {
			s += g.Comma()
		}
		col := g.Ident()
		if len(columns) > 0 {
			col = columns[g.R.Intn(len(columns))]
		}
		switch how := g.R.Intn(4); {
		case i == 0 && how == 0:
			k.Expression = "(" + g.Expr(1, true) + ")"
			s += k.Expression
		case i == 0 && how == 1:
			k.Expression = g.Ident() + "(" + []string{"", g.Expr(1, true)}[g.R.Intn(2)] + ")"
			s += k.Expression
		default:
			k.Column = col
			s += col
		}
		switch g.R.Intn(5) {
		case 0:
			k.Descending = true
			s += g.WS() + g.KW("DESC")
		case 1:
			k.OpClass = []string{"text_pattern_ops", "varchar_ops", "jsonb_path_ops", "Asc_ops", "descending", "ascending", "nulls", "a"}[g.R.Intn(8)]
			if id := g.Ident(); g.flip() && !strings.EqualFold(id, "asc") && !strings.EqualFold(id, "desc") {
				k.OpClass = id
			}
			s += g.WS() + k.OpClass
		case 2:
			if !g.PG {
				s += g.WS() + g.KW("ASC")
			}
		}
	}
	s += g.OWS() + ")"
	if g.R.Intn(3) == 0 {
		e := g.Expr(1+g.R.Intn(3), false)
		ix.Where = Collapse(e)
		s += g.WS() + g.KW("WHERE") + g.WS() + e
	}
	return s + g.OWS(), ix
}

// Collapse replaces whitespace outside of quotes
func Collapse(s string) string {
	var b strings.Builder
	var quote byte
	s = strings.TrimSpace(s)
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case quote != 0:
			if c == quote {
				quote = 0
			}
		case c == '\'' || c == '"':
			quote = c
		case c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f':
			for i+1 < len(s) && strings.IndexByte(" \t\n\r\v\f", s[i+1]) >= 0 {
				i++
			}
			c = ' '
		}
		b.WriteByte(c)
	}
	return b.String()
}

// Trigger generates a trigger
func (g *G) Trigger(table, name string, columns []string) (string, *ddl.Trigger) {
	t := &ddl.Trigger{Table: table, Name: name, Function: g.Ident()}
	if table == "" {
		t.Table = g.Ident()
	}
	if name == "" {
		t.Name = g.Ident()
	}
	s := g.OWS() + g.KW("CREATE") + g.WS()
	t.When = []string{"BEFORE", "AFTER", "INSTEAD OF"}[g.R.Intn(3)]
	if g.R.Intn(3) == 0 {
		t.Constraint = true
		if g.PG {
			t.When = "AFTER"
		}
		s += g.KW("CONSTRAINT") + g.WS()
	}
	s += g.KW("TRIGGER") + g.WS() + t.Name + g.WS() + g.KW(t.When) + g.WS()
	order := g.R.Perm(4)
	if g.PG {
		order = []int{0, 1, 2, 3} // INSERT, DELETE, UPDATE, TRUNCATE
	}
	n := 0
	for n == 0 {
		for _, e := range order {
			if g.flip() {
				continue
			}
			if n > 0 {
				s += g.WS() + g.KW("OR") + g.WS()
			}
			n++
			switch e {
			case 0:
				t.Insert = true
				s += g.KW("INSERT")
			case 1:
				t.Delete = true
				s += g.KW("DELETE")
			case 3:
				t.Truncate = true
				s += g.KW("TRUNCATE")
			case 2:
				t.Update = true
				s += g.KW("UPDATE")
				if g.flip() {
					k := 1 + vk.Several(g.R, 3, 60)
					for i := 0; i < k; i++ {
						col := g.Ident()
						if len(columns) > 0 {
							col = columns[g.R.Intn(len(columns))]
						}
						t.Columns = append(t.Columns, col)
					}
					s += g.WS() + g.KW("OF") + g.WS()
					for i, c := range t.Columns {
						if i > 0 {
							s += g.Comma()
						}
						s += c
					}
				}
			}
		}
	}
	s += g.WS() + g.KW("ON") + g.WS() + t.Table
	if !g.PG || t.Constraint {
		var d string
		d, t.Deferrable, t.InitiallyDeferred = g.deferrable(false)
		s += d
	}
	if g.PG || g.R.Intn(3) > 0 {
		s += g.WS() + g.KW("FOR") + g.WS()
		if g.PG || g.flip() {
			s += g.KW("EACH") + g.WS()
		}
		if g.flip() || g.PG && t.Constraint {
			t.ForEachRow = true
			s += g.KW("ROW")
		} else {
			s += g.KW("STATEMENT")
		}
	}
	s += g.WS() + g.KW("EXECUTE") + g.WS() + g.KW([]string{"FUNCTION", "PROCEDURE"}[g.R.Intn(2)]) + g.WS() + t.Function + "()"
	return s + g.OWS(), t
}
