//go:build go1.22

// Package pgnet monitors what the code that talks to PostgreSQL makes of servers.
package pgnet

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/sjansen/pgutil/internal/commands"
	"github.com/sjansen/pgutil/internal/ddl"
	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/pg"
	"github.com/sjansen/pgutil/internal/sys"
	"github.com/sjansen/pgutil/internal/zverif/dgen"
	"github.com/sjansen/pgutil/internal/zverif/pgfake"
	"github.com/sjansen/pgutil/internal/zverif/vk"
)

func TestVerif(t *testing.T) { vk.Main(t) }

func init() {
	vk.Register("C24", "random", inspectRandom)
	vk.Register("C24", "describe", describeObjects)
	vk.Register("C25", "faults", inspectFaults)
	vk.Register("C25", "bad", inspectBad)
	vk.Register("C26", "random", inspectSorted)
	vk.Register("C26", "indexes", inspectSortedIndexes)
}

// ---------------------------------------------------------- generated databases

var texts = []string{"x", "two words", "it's", `"quoted"`, "line\nbreak", "déjà", "日本", "${x}", "%{x}", `back\slash`, "$$", "", " padded ", "tab\there", "-- no comment", "a;b"}

var oddNames = []string{"Weird Constraint", "été", " leading", "trailing ", "it's", `q"uote`, "a.b", "UPPER", "a\tb", "1", "$1", "%s", "NULL", "{}", "a,b", "\\", "line\nbreak"}

// twin is a name that carelessly written conditions don't tell from another one
func twin(r *rand.Rand, s string, simple bool) string {
	if len(s) > 60 {
		return s
	}
	n := 6
	if simple {
		n = 3
	}
	switch r.Intn(n) {
	case 1:
		return strings.Replace(s, "_", string("axz"[r.Intn(3)]), 1)
	case 2:
		return s + pick(r, []string{"_", "x", "1", "_1"})
	case 3:
		return strings.ToUpper(s)
	case 4:
		return strings.Title(s)
	case 5:
		return s + pick(r, []string{" ", "%", ".", "\"", "'", "\\"})
	}
	return s
}

func opt(r *rand.Rand) *string {
	if r.Intn(3) > 0 {
		return nil
	}
	s := vk.Stretch(r, texts[r.Intn(len(texts))], 20000)
	return &s
}

var names = []string{"public", "app", "Weird Schema", `q"uote`, "it's", "pgx", "PG_x", "zoo", "information", "_x", "été", "pg", "a.b",
	// alike, to those who compare carelessly
	"App", "APP", "ax", "Zoo", "PGax", "weird schema", "a%", "app%", "Été", "app ", "app_pg_toast", "my_pg_catalog", "information_schema2", "_pg_"}

func pick(r *rand.Rand, l []string) string { return l[r.Intn(len(l))] }

func owner(r *rand.Rand) string {
	return vk.Stretch(r, pick(r, []string{"postgres", "alice", "Bob's", "ro le", "public", "app"}), 63)
}

// parameter is a storage parameter with a valid value, which is recorded
func parameter(r *rand.Rand, p *ddl.TableStorageParameters) string {
	v := reflect.ValueOf(p).Elem()
	i := r.Intn(v.NumField())
	text := ""
	switch f := v.Field(i).Addr().Interface().(type) {
	case **int:
		n := int(vk.Int(r, 0, 1<<31-1))
		*f, text = &n, fmt.Sprint(n)
	case **float64:
		x := []float64{0, 0.05, 0.1, 0.2, 1, 100, 0.001, 12.5, r.Float64()}[r.Intn(9)]
		*f, text = &x, fmt.Sprint(x)
	case **bool:
		text = pick(r, []string{"true", "false", "on", "off", "yes", "no", "1", "0", "TRUE", "Off", "t", "f"})
		b := contains([]string{"true", "on", "yes", "1", "TRUE", "t"}, text)
		*f = &b
	default:
		panic("monitor panic: storage parameter of an unknown type")
	}
	return strings.Split(v.Type().Field(i).Tag.Get("hcl"), ",")[0] + "=" + text
}

// model is a database, and how it should be described
type model struct {
	d    *pgfake.Database
	want *ddl.Database
	// objects that aren't visible
	hidden int
}

func str(p *string) string {
	if p == nil {
		return ""
	}
	return *p
}

var types = []string{"integer", "bigint", "text", "character varying(20)", "numeric(10,2)", "timestamp with time zone", "text[]", "jsonb",
	"double precision", "boolean", "character varying(255)", "app.mood", `"Weird Type"`, "bit(3)"}

// generate a database; size scales the number of objects
func generate(r *rand.Rand, size int) *model {
	d := &pgfake.Database{Legacy: r.Intn(3) == 0, Timezone: pick(r, []string{"UTC", "Europe/Berlin", "<+03>-03", ""}),
		Version: "PostgreSQL 12.1"}
	if d.Legacy {
		d.Version = "PostgreSQL 9.6.24"
	}
	want := &ddl.Database{Parameters: &ddl.Parameters{Timezone: d.Timezone}}
	perm := r.Perm(len(names))[:1+vk.Several(r, 4, len(names)-1)]
	for _, i := range perm {
		s := pgfake.Schema{Name: names[i], Owner: owner(r), Comment: opt(r)}
		d.Schemas = append(d.Schemas, s)
		want.Schemas = append(want.Schemas, &ddl.Schema{Name: s.Name, Owner: s.Owner, Comment: str(s.Comment)})
	}
	sort.Slice(want.Schemas, func(i, j int) bool { return want.Schemas[i].Name < want.Schemas[j].Name })
	var quoted, path []string
	if r.Intn(4) == 0 {
		quoted = append(quoted, `"$user"`)
		path = append(path, "$user")
	}
	for _, i := range r.Perm(len(d.Schemas)) {
		if r.Intn(5) > 0 || len(d.Path) == 0 && r.Intn(2) == 0 {
			d.Path = append(d.Path, d.Schemas[i].Name)
			n := d.Schemas[i].Name
			if strings.Trim(n, "abcdefghijklmnopqrstuvwxyz_") != "" {
				n = `"` + strings.Replace(n, `"`, `""`, -1) + `"`
			}
			quoted = append(quoted, n)
			path = append(path, d.Schemas[i].Name)
		}
	}
	if r.Intn(6) == 0 { // schemas that don't exist may be on the path, too
		n := pick(r, []string{"a,b", "", " x ", `a", "b`, `"`, ",", "Schema", "pg_temp"})
		quoted = append(quoted, `"`+strings.Replace(n, `"`, `""`, -1)+`"`)
		path = append(path, n)
	}
	// set from SQL, or as written in a configuration file
	d.SearchPath = strings.Join(quoted, pick(r, []string{", ", ", ", ",", " , "}))
	want.Parameters.SearchPath = path

	schema := func() string { return d.Schemas[r.Intn(len(d.Schemas))].Name }
	used := map[string]map[string]bool{}
	g := &dgen.G{R: r, PG: true}
	var pool []string
	for i := 0; i < 6+size; i++ {
		pool = append(pool, g.Ident())
	}
	var drawn []string
	fresh := func(s string, simple bool) string {
		if used[s] == nil {
			used[s] = map[string]bool{}
		}
		for {
			n := pool[r.Intn(len(pool))]
			if r.Intn(2) == 0 {
				n = g.Ident()
			}
			if len(drawn) > 0 && r.Intn(4) == 0 {
				if t := twin(r, pick(r, drawn), simple); !simple || strings.Trim(t, "abcdefghijklmnopqrstuvwxyz_0123456789") == "" {
					n = t
				}
			} else if !simple && r.Intn(5) == 0 {
				n = pick(r, []string{"Weird Name", "it's", `q"x`, "été", "UPPER", "pg_mine", "a.b", "$1"}) + fmt.Sprint(r.Intn(100))
			}
			if !used[s][n] {
				used[s][n] = true
				drawn = append(drawn, n)
				return n
			}
		}
	}
	type made struct {
		schema, name string
		fn           *ddl.Function
		args         int
		seq          *ddl.Sequence
		table        *ddl.Table
		indexes      []*ddl.Index
		triggers     []*ddl.Trigger
	}
	var all []*made
	for n := r.Intn(2 + size); n > 0; n-- {
		f := pgfake.Function{Schema: schema(), Name: pick(r, pool), Owner: owner(r), Comment: opt(r), Returns: opt(r),
			Language: pick(r, []string{"sql", "plpgsql", "c"}), Source: vk.Stretch(r, pick(r, texts), 50000)}
		if r.Intn(4) == 0 {
			f.Name = pick(r, []string{"Weird Name", "été"})
		}
		if n := len(d.Functions); n > 0 && r.Intn(4) == 0 {
			f.Name = twin(r, d.Functions[r.Intn(n)].Name, false)
		}
		if r.Intn(6) == 0 {
			s := "trigger"
			f.Returns = &s
		}
		if n := len(d.Functions); n > 0 && r.Intn(5) == 0 { // overloaded
			o := d.Functions[r.Intn(n)]
			switch r.Intn(3) {
			case 0:
				f = o
			case 1:
				f.Schema, f.Name, f.Source = o.Schema, o.Name, o.Source
			default:
				f.Schema, f.Name = o.Schema, o.Name
			}
			f.Args = 1 + r.Intn(3)
		} else if r.Intn(8) == 0 {
			f.Args = r.Intn(3)
		}
		dup := false
		for _, x := range d.Functions {
			dup = dup || x.Schema == f.Schema && x.Name == f.Name && x.Args == f.Args
		}
		if dup {
			continue
		}
		d.Functions = append(d.Functions, f)
		all = append(all, &made{schema: f.Schema, name: f.Name, args: f.Args, fn: &ddl.Function{Schema: f.Schema, Name: f.Name, Owner: f.Owner,
			Comment: str(f.Comment), Returns: str(f.Returns), Language: f.Language, Definition: f.Source}})
	}
	taken := map[string][]string{} // relations by name: schemas
	for n := r.Intn(2 + size); n > 0; n-- {
		kind := pick(r, []string{"r", "r", "r", "p", "v", "m", "f", "c"})
		t := pgfake.Relation{Kind: kind, Schema: schema(), Owner: owner(r), Comment: opt(r)}
		t.Name = fresh(t.Schema, false)
		taken[t.Name] = append(taken[t.Name], t.Schema)
		m := &made{schema: t.Schema, name: t.Name}
		w := &ddl.Table{Schema: t.Schema, Name: t.Name, Owner: t.Owner, Comment: str(t.Comment), StorageParameters: &ddl.TableStorageParameters{}}
		var cols []string
		colnames := map[string]bool{}
		for k := vk.Several(r, 7, 300); k > 0; k-- {
			c := pgfake.Column{Name: g.Ident(), Type: vk.Stretch(r, pick(r, types), 200), NotNull: r.Intn(2) == 0, Default: opt(r), Comment: opt(r), Dropped: r.Intn(6) == 0}
			if r.Intn(6) == 0 {
				c.Name = pick(r, []string{"Weird Column", "été", "it's", "SELECT", "........pg.dropped.1........", "ctid2", "tableoid_", "?column?"})
			}
			if colnames[c.Name] {
				continue
			}
			colnames[c.Name] = true
			t.Columns = append(t.Columns, c)
			if c.Dropped {
				continue
			}
			cols = append(cols, c.Name)
			w.Columns = append(w.Columns, &ddl.Column{Name: c.Name, Type: c.Type, NotNull: c.NotNull, Default: str(c.Default), Comment: str(c.Comment)})
		}
		var plain []string
		for _, c := range cols {
			if strings.Trim(c, "abcdefghijklmnopqrstuvwxyz_0123456789") == "" {
				plain = append(plain, c)
			}
		}
		if kind != "r" && kind != "p" {
			d.Relations = append(d.Relations, t)
			continue
		}
		m.table = w
		cname := map[string]bool{}
		constraint := func() string {
			for {
				n := g.Ident()
				if r.Intn(4) == 0 {
					n = pick(r, oddNames)
				}
				if !cname[n] {
					cname[n] = true
					return n
				}
			}
		}
		for k := vk.Several(r, 4, 40); k > 0; k-- {
			def, c := g.Check()
			c.Name = constraint()
			t.Checks = append(t.Checks, pgfake.Constraint{Name: c.Name, Def: def})
			w.Checks = append(w.Checks, c)
		}
		sort.Slice(w.Checks, func(i, j int) bool { return w.Checks[i].Name < w.Checks[j].Name })
		for k := r.Intn(4); k > 0; k-- {
			t.Others = append(t.Others, pgfake.Constraint{Name: constraint(), Def: pick(r, []string{"PRIMARY KEY (a)", "UNIQUE (b)", "EXCLUDE USING gist (c WITH &&)"}),
				Type: pick(r, []string{"p", "u", "x", "t"})})
		}
		set := map[string]bool{}
		for i := r.Intn(6); i > 0; i-- {
			sp := *w.StorageParameters
			p := parameter(r, &sp)
			if k := strings.Split(p, "=")[0]; !set[k] {
				set[k] = true
				w.StorageParameters = &sp
				t.Params = append(t.Params, p)
			}
		}
		primary := r.Intn(2) == 0
		type ranked struct {
			ix   *ddl.Index
			rank int
		}
		var ixs []ranked
		for k := vk.Several(r, 4, 40); k > 0; k-- {
			unique := r.Intn(2) == 0
			isPrimary := primary && unique
			name := fresh(t.Schema, true)
			def, ix := g.Index(g.Ident(), name, unique, plain)
			if isPrimary {
				primary = false
			}
			ix.Schema, ix.Primary = t.Schema, isPrimary
			taken[name] = append(taken[name], t.Schema)
			t.Indexes = append(t.Indexes, pgfake.Index{Name: name, Def: def, Primary: isPrimary, Unique: unique})
			rank := 2
			if unique {
				rank = 1
			}
			if isPrimary {
				rank = 0
			}
			ixs = append(ixs, ranked{ix, rank})
		}
		sort.Slice(ixs, func(i, j int) bool {
			if ixs[i].rank != ixs[j].rank {
				return ixs[i].rank < ixs[j].rank
			}
			return ixs[i].ix.Name < ixs[j].ix.Name
		})
		for _, x := range ixs {
			m.indexes = append(m.indexes, x.ix)
		}
		tname := map[string]bool{}
		for k := vk.Several(r, 4, 40); k > 0; k-- {
			def, tr := g.Trigger("", "", plain)
			if tname[tr.Name] {
				continue
			}
			tname[tr.Name] = true
			tr.Schema = t.Schema
			internal := r.Intn(4) == 0
			t.Triggers = append(t.Triggers, pgfake.Trigger{Name: tr.Name, Def: def, Internal: internal})
			if !internal {
				m.triggers = append(m.triggers, tr)
			}
		}
		sort.Slice(m.triggers, func(i, j int) bool { return m.triggers[i].Name < m.triggers[j].Name })
		d.Relations = append(d.Relations, t)
		all = append(all, m)
	}
	// relations that don't need a schema in front of their names
	seen := func(schema, name string) bool {
		for _, s := range d.Path {
			if contains(taken[name], s) {
				return s == schema
			}
		}
		return false
	}
	// references between tables that exist
	for i := range d.Relations {
		t := &d.Relations[i]
		if t.Kind != "r" && t.Kind != "p" {
			continue
		}
		var others []string
		home := map[string]string{}
		for _, o := range d.Relations {
			if (o.Schema == t.Schema || seen(o.Schema, o.Name) && home[o.Name] == "") && (o.Kind == "r" || o.Kind == "p") && strings.Trim(o.Name, "abcdefghijklmnopqrstuvwxyz_0123456789") == "" {
				if home[o.Name] == "" {
					others = append(others, o.Name)
				}
				home[o.Name] = o.Schema
			}
		}
		var m *made
		for _, x := range all {
			if x.table != nil && x.schema == t.Schema && x.name == t.Name {
				m = x
			}
		}
		type keyed struct {
			fk  *ddl.ForeignKey
			key []int64
		}
		var fks []keyed
		dups := map[string]bool{}
		for k := vk.Several(r, 4, 40); k > 0 && len(others) > 0; k-- {
			def, fk := g.ForeignKey(pick(r, others), nil)
			fk.Name = g.Ident()
			if r.Intn(4) == 0 {
				fk.Name = pick(r, oddNames)
			}
			var key []int64
			for range fk.Columns {
				key = append(key, int64(1+vk.Several(r, 12, 1600)))
			}
			id := fmt.Sprint(fk.Table, key)
			if dups[id] || dups[fk.Name] {
				continue
			}
			dups[id], dups[fk.Name] = true, true
			dup := false
			for _, c := range append(append([]pgfake.Constraint(nil), t.Checks...), t.Others...) {
				dup = dup || c.Name == fk.Name
			}
			if dup {
				continue
			}
			t.ForeignKeys = append(t.ForeignKeys, pgfake.Constraint{Name: fk.Name, Def: def, Ref: fk.Table, RefSchema: home[fk.Table], Key: key})
			fks = append(fks, keyed{fk, key})
		}
		sort.Slice(fks, func(i, j int) bool {
			a, b := fks[i], fks[j]
			if a.fk.Table != b.fk.Table {
				return a.fk.Table < b.fk.Table
			}
			for k := 0; k < len(a.key) && k < len(b.key); k++ {
				if a.key[k] != b.key[k] {
					return a.key[k] < b.key[k]
				}
			}
			return len(a.key) < len(b.key)
		})
		for _, x := range fks {
			m.table.ForeignKeys = append(m.table.ForeignKeys, x.fk)
		}
	}
	for n := r.Intn(2 + size); n > 0; n-- {
		s := pgfake.Sequence{Schema: schema(), Owner: owner(r), Comment: opt(r), Type: pick(r, []string{"bigint", "integer", "smallint"}),
			Start: vk.Int(r, -1<<63, 1<<63-1), Min: vk.Int(r, -1<<63, 1<<63-1), Max: vk.Int(r, -1<<63, 1<<63-1), Increment: vk.Int(r, -1<<63, 1<<63-1),
			Cache: vk.Int(r, 1, 1<<63-1), Cycle: r.Intn(2) == 0}
		if r.Intn(4) == 0 {
			s.Start, s.Min, s.Increment, s.Cache = 1, 1, 1, 1
		}
		s.Name = fresh(s.Schema, false)
		taken[s.Name] = append(taken[s.Name], s.Schema)
		w := &ddl.Sequence{Schema: s.Schema, Name: s.Name, Owner: s.Owner, Comment: str(s.Comment), DataType: s.Type,
			Start: s.Start, Minimum: s.Min, Maximum: s.Max, Increment: s.Increment, Cache: s.Cache, Cycle: s.Cycle}
		if d.Legacy {
			w.DataType = "bigint"
		}
		if r.Intn(2) == 0 {
			for _, i := range r.Perm(len(d.Relations)) {
				t := d.Relations[i]
				if t.Schema != s.Schema || t.Kind != "r" {
					continue
				}
				for _, c := range t.Columns {
					if !c.Dropped {
						s.Table, s.Column, s.Dep = t.Name, c.Name, pick(r, []string{"a", "i"})
					}
				}
			}
			if s.Table != "" {
				w.OwnedBy = &ddl.SequenceOwner{Schema: s.Schema, Table: s.Table, Column: s.Column}
			}
		}
		d.Sequences = append(d.Sequences, s)
		all = append(all, &made{schema: s.Schema, name: s.Name, seq: w})
	}

	// what's visible
	sort.Slice(all, func(i, j int) bool {
		if all[i].schema != all[j].schema {
			return all[i].schema < all[j].schema
		}
		return all[i].name < all[j].name
	})
	mo := &model{d: d, want: want}
	for _, m := range all {
		homes := taken[m.name]
		if m.fn != nil {
			homes = nil
			for _, f := range d.Functions {
				if f.Name == m.name && f.Args == m.args {
					homes = append(homes, f.Schema)
				}
			}
		}
		visible := false
		for _, s := range d.Path {
			if contains(homes, s) {
				visible = s == m.schema
				break
			}
		}
		switch {
		case !visible:
			mo.hidden++
		case m.fn != nil:
			want.Functions = append(want.Functions, m.fn)
		case m.seq != nil:
			want.Sequences = append(want.Sequences, m.seq)
		default:
			want.Tables = append(want.Tables, m.table)
			want.Indexes = append(want.Indexes, m.indexes...)
			want.Triggers = append(want.Triggers, m.triggers...)
		}
	}
	return mo
}

func nrand() *rand.Rand { return rand.New(rand.NewSource(7)) }

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// flat describes a database without pointers, and regardless of empty versus missing lists
func flat(db *ddl.Database) []string {
	var out []string
	add := func(kind string, v interface{}) { out = append(out, kind+" "+dump(reflect.ValueOf(v))) }
	if db.Parameters != nil {
		out = append(out, fmt.Sprintf("parameters %q %q", db.Parameters.SearchPath, db.Parameters.Timezone))
	} else {
		out = append(out, "no parameters")
	}
	for _, x := range db.Schemas {
		add("schema", x)
	}
	for i, x := range db.Functions {
		add("function", x)
		// those of the same name can be in any order
		for j := len(out) - 1; i > 0 && db.Functions[i-1].Schema == x.Schema && db.Functions[i-1].Name == x.Name && out[j] < out[j-1]; i, j = i-1, j-1 {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	for _, x := range db.Sequences {
		add("sequence", x)
	}
	for _, x := range db.Tables {
		add("table", x)
	}
	for _, x := range db.Indexes {
		add("index", x)
	}
	for _, x := range db.Triggers {
		add("trigger", x)
	}
	return out
}

func dump(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return "-"
		}
		return dump(v.Elem())
	case reflect.Slice:
		var l []string
		for i := 0; i < v.Len(); i++ {
			l = append(l, dump(v.Index(i)))
		}
		return "[" + strings.Join(l, ", ") + "]"
	case reflect.Struct:
		var l []string
		for i := 0; i < v.NumField(); i++ {
			l = append(l, v.Type().Field(i).Name+":"+dump(v.Field(i)))
		}
		return "{" + strings.Join(l, " ") + "}"
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	}
	return fmt.Sprint(v.Interface())
}

func diff(got, want []string) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			return "missing: " + want[i]
		case i >= len(want):
			return "unexpected: " + got[i]
		case got[i] != want[i]:
			return "got  " + got[i] + "\nwant " + want[i]
		}
	}
	return ""
}

// ------------------------------------------------------------------ the server

// cleanEnv removes settings of the environment that affect connections
func cleanEnv() {
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "PG") {
			os.Unsetenv(strings.SplitN(kv, "=", 2)[0])
		}
	}
}

// serve a database; hook may change results
func serve(db *pgfake.DB, describe func(n int) *pgfake.Error, hook func(n int, r *pgfake.Result)) *pgfake.Server {
	s := serving(db, describe, hook)
	s.ListenAnywhere()
	return s
}

// serving is serve, without listening
func serving(db *pgfake.DB, describe func(n int) *pgfake.Error, hook func(n int, r *pgfake.Result)) *pgfake.Server {
	count := func(c *pgfake.Conn) int {
		n := 0
		for _, q := range c.Queries {
			if !q.Init {
				n++
			}
		}
		return n
	}
	s := &pgfake.Server{
		Version: db.Shows["server_version"],
		Describe: func(c *pgfake.Conn, sql string) (int, []pgfake.Col, *pgfake.Error) {
			if describe != nil {
				if e := describe(count(c)); e != nil {
					return 0, nil, e
				}
			}
			return db.Describe(sql)
		},
		Exec: func(c *pgfake.Conn, q *pgfake.Query) []*pgfake.Result {
			r, err := db.Exec(q.SQL, q.Args)
			if err != nil {
				r = &pgfake.Result{Fault: &pgfake.Fault{Kind: "bind", Err: *err}}
			} else if hook != nil {
				hook(count(c)-1, r)
			}
			return []*pgfake.Result{r}
		},
	}
	return s
}

func options(s *pgfake.Server) *pg.Options {
	return &pg.Options{Log: logger.Discard(), Host: s.Host(), Port: s.Port(), SSLMode: "disable", Username: "me", Database: "db"}
}

// inspect through the package
func inspect(s *pgfake.Server, o *pg.InspectOptions) (*ddl.Database, error) {
	c, err := pg.New(options(s))
	if err != nil {
		return nil, err
	}
	defer c.Close()
	return c.InspectDatabase(o)
}

// goodbye checks that every connection was closed properly
func goodbye(cs *vk.Case, s *pgfake.Server, n int, faults bool) {
	left := s.Close()
	conns := s.Conns()
	if left > 0 {
		cs.Violatef("%d connections were left open", left)
	}
	if len(conns) != n {
		cs.Violatef("%d connections were opened instead of %d", len(conns), n)
	}
	for _, c := range conns {
		if c.Ready && !c.Terminated && !faults {
			cs.Violatef("a connection was abandoned instead of closed")
		}
	}
}

// command runs inspect, writing to stdout or a file
func command(cs *vk.Case, s *pgfake.Server, file string, o *pg.InspectOptions) (string, error) {
	dir := cs.Scratch()
	defer os.RemoveAll(dir)
	var stdout, stderr bytes.Buffer
	base := &commands.Base{}
	base.IO = sys.IO{Log: logger.Discard(), Stdout: &stdout, Stderr: &stderr}
	cmd := &commands.InspectCmd{Host: s.Host(), Port: s.Port(), SSLMode: "disable", DBName: "db", Username: "me"}
	if o != nil {
		cmd.SortChecks, cmd.SortColumns, cmd.SortIndexes = o.SortChecks, o.SortColumns, o.SortIndexes
	}
	const old = "what was there before, and is longer than nothing"
	if file != "" {
		cmd.Output = file
		if file != "-" {
			cmd.Output = filepath.Join(dir, "out.hcl")
		}
		if file == "old" {
			cs.WriteFile(dir, "out.hcl", old+strings.Repeat("\n# more", 5000))
		}
	}
	err := cmd.Run(base)
	if stderr.Len() > 0 {
		cs.Violatef("inspect wrote %q to stderr", stderr.String())
	}
	if file == "" || file == "-" {
		if err != nil && stdout.Len() > 0 {
			cs.Violatef("inspect failed, but wrote %d bytes", stdout.Len())
		}
		if _, e := os.Stat(filepath.Join(dir, "out.hcl")); e == nil {
			cs.Violatef("inspect created a file")
		}
		return stdout.String(), err
	}
	if stdout.Len() > 0 {
		cs.Violatef("inspect wrote to stdout in addition to the file")
	}
	b, rerr := os.ReadFile(filepath.Join(dir, "out.hcl"))
	if err != nil {
		switch {
		case file == "old" && (rerr != nil || string(b) != old+strings.Repeat("\n# more", 5000)):
			cs.Violatef("inspect failed with %q, but changed the existing file", err)
		case file == "new" && rerr == nil:
			cs.Violatef("inspect failed with %q, but created a file", err)
		}
		return "", err
	}
	if rerr != nil {
		cs.Violatef("inspect succeeded without creating its output: %v", rerr)
		return "", errors.New("no output")
	}
	return string(b), nil
}

func size(d *pgfake.Database) string {
	return fmt.Sprintf("%d schemas, %d functions, %d sequences, %d relations", len(d.Schemas), len(d.Functions), len(d.Sequences), len(d.Relations))
}

// nfc tells whether a model survives HCL, which normalizes text; all generated texts do

func inspectRandom(ctx *vk.Ctx) {
	ctx.Cases("db", ctx.N(600, 20000), func(cs *vk.Case) {
		cleanEnv()
		m := generate(cs.R, 1+vk.Several(cs.R, 6, 40))
		cs.Describe(m.d)
		db := pgfake.Build(cs.R, m.d)
		s := serve(db, nil, nil)
		want := flat(m.want)
		got, err := inspect(s, nil)
		switch {
		case err != nil:
			cs.Violatef("inspecting failed: %v", err)
		default:
			if x := diff(flat(got), want); x != "" {
				cs.Violatef("wrong description\n%s", x)
			}
		}
		n := 1
		if !cs.Bad() {
			n = 2
			file := pick(cs.R, []string{"", "-", "old", "new"})
			out, err := command(cs, s, file, nil)
			if err != nil {
				cs.Violatef("inspect failed: %v", err)
			} else if got, err := ddl.ParseBytes([]byte(out), "out.hcl"); err != nil {
				cs.Violatef("inspect wrote an invalid file: %v", err)
			} else if x := diff(flat(got), want); x != "" {
				cs.Violatef("inspect wrote a wrong description\n%s", x)
			}
		}
		goodbye(cs, s, n, false)
		cs.Nontrivial(fmt.Sprint(want))
		cs.Count("objects", len(want))
		cs.Count("hidden objects", m.hidden)
		for _, c := range s.Conns() {
			cs.Count("statements", len(c.Queries))
		}
		cs.Max("objects", len(want))
		if cs.I < 3 {
			cs.Sample(size(m.d))
		}
	})
}

// missing returns a name like the ones that exist
func missing(r *rand.Rand, names []string) string {
	for {
		if s := vk.Like(r, names); !strings.Contains(s, "\x00") {
			return s
		}
	}
}

func describeObjects(ctx *vk.Ctx) {
	ctx.Cases("db", ctx.N(100, 2000), func(cs *vk.Case) {
		cleanEnv()
		m := generate(cs.R, 2+cs.R.Intn(4))
		cs.Describe(m.d)
		s := serve(pgfake.Build(cs.R, m.d), nil, nil)
		c, err := pg.New(options(s))
		if err != nil {
			cs.Violatef("connecting failed: %v", err)
			s.Close()
			return
		}
		for _, f := range m.d.Functions {
			var names []string
			for _, g := range m.d.Functions {
				if g.Schema == f.Schema {
					names = append(names, g.Name)
				}
			}
			got, err := c.DescribeFunction(f.Schema, f.Name)
			var want []*ddl.Function
			ok := false
			for _, g := range m.d.Functions {
				if g.Schema == f.Schema && g.Name == f.Name {
					x := &ddl.Function{Schema: g.Schema, Name: g.Name, Owner: g.Owner, Comment: str(g.Comment), Returns: str(g.Returns), Language: g.Language, Definition: g.Source}
					want = append(want, x)
					ok = ok || reflect.DeepEqual(got, x)
				}
			}
			if err != nil || !ok {
				cs.Violatef("function %q.%q: got %+v, %v, want one of %+v", f.Schema, f.Name, got, err, want)
			}
			cs.Count("described", 1)
			if got, err := c.DescribeFunction(f.Schema, missing(cs.R, names)); err != pg.ErrNotFound || got != nil {
				cs.Violatef("missing function: got %+v, %v", got, err)
			}
		}
		for _, t := range m.want.Tables {
			for _, x := range m.d.Relations {
				if x.Schema != t.Schema || x.Name != t.Name {
					continue
				}
				var names []string
				for _, tr := range x.Triggers {
					names = append(names, tr.Name)
				}
				for _, tr := range x.Triggers {
					want, err := ddl.ParseTrigger(tr.Def)
					if err != nil {
						cs.Violatef("trigger %q: %v", tr.Def, err)
						continue
					}
					want.Schema = t.Schema
					got, err := c.DescribeTrigger(x.Schema, x.Name, tr.Name)
					if err != nil || !reflect.DeepEqual(got, want) {
						cs.Violatef("trigger %q: got %+v, %v, want %+v", tr.Def, got, err, want)
					}
					cs.Count("described", 1)
					if got, err := c.DescribeTrigger(x.Schema, x.Name, missing(cs.R, names)); err != pg.ErrNotFound || got != nil {
						cs.Violatef("missing trigger: got %+v, %v", got, err)
					}
				}
			}
		}
		if v, err := c.ServerVersion(); err != nil || v != m.d.Version {
			cs.Violatef("version is %q, %v", v, err)
		}
		if err := c.Close(); err != nil {
			cs.Violatef("closing failed: %v", err)
		}
		goodbye(cs, s, 1, false)
		if len(m.d.Functions) > 0 {
			cs.Nontrivial(fmt.Sprint(flat(m.want)))
		}
	})
}

// ---------------------------------------------------------------------- faults

type point struct {
	Query, Row int
	Kind       string
}

func inspectFaults(ctx *vk.Ctx) {
	ctx.Cases("db", ctx.N(24, 400), func(cs *vk.Case) {
		cleanEnv()
		var m *model
		for k := 0; ; k++ {
			m = generate(cs.R, 1+cs.R.Intn(3))
			if len(m.want.Tables) > 0 || k > 50 {
				break
			}
		}
		seed := cs.R.Int63()
		build := func() *pgfake.DB { return pgfake.Build(rand.New(rand.NewSource(seed)), m.d) }
		s := serve(build(), nil, nil)
		if _, err := inspect(s, nil); err != nil {
			s.Close()
			cs.Describe(m.d)
			cs.Violatef("inspecting failed: %v", err)
			return
		}
		s.Close()
		var rows []int
		var sqls []string
		for _, q := range s.Conns()[0].Queries {
			if !q.Init {
				rows = append(rows, q.Rows)
				sqls = append(sqls, q.SQL)
			}
		}
		var points []point
		for q, n := range rows {
			for _, kind := range []string{"error", "drop"} {
				for row := 0; row <= n; row++ {
					points = append(points, point{q, row, kind})
				}
			}
			points = append(points, point{q, 0, "bind"}, point{q, 0, "parse"}, point{q, 0, "parse-drop"})
		}
		if max := ctx.N(90, 2000); len(points) > max {
			cs.R.Shuffle(len(points), func(i, j int) { points[i], points[j] = points[j], points[i] })
			points = points[:max]
		}
		for i, p := range points {
			cs.Describe(map[string]interface{}{"database": m.d, "fault": p, "sql": sqls[p.Query]})
			fe := pgfake.Error{Code: pick(cs.R, sqlCodes), Message: "injected"}
			s := serve(build(), func(n int) *pgfake.Error {
				if n != p.Query {
					return nil
				}
				switch p.Kind {
				case "parse":
					return &fe
				case "parse-drop":
					return &pgfake.Error{Code: "drop"}
				}
				return nil
			}, func(n int, r *pgfake.Result) {
				if n == p.Query && !strings.HasPrefix(p.Kind, "parse") {
					r.Fault = &pgfake.Fault{Kind: p.Kind, After: p.Row, Err: fe}
				}
			})
			if i%3 == 0 {
				file := pick(cs.R, []string{"", "-", "old", "new"})
				_, err := command(cs, s, file, nil)
				if err == nil {
					cs.Violatef("inspect succeeded, although statement %d was interrupted (%s after %d of %d rows)", p.Query, p.Kind, p.Row, rows[p.Query])
				}
			} else {
				db, err := inspect(s, nil)
				if err == nil {
					cs.Violatef("inspecting succeeded, although statement %d was interrupted (%s after %d of %d rows)", p.Query, p.Kind, p.Row, rows[p.Query])
				} else if db != nil {
					cs.Violatef("inspecting failed with %v, but returned a partial description", err)
				}
			}
			goodbye(cs, s, 1, true)
			cs.Hist("faults", p.Kind)
			cs.Distinct("points", fmt.Sprint(cs.ID, p))
			cs.Nontrivial(fmt.Sprint(cs.ID, p))
			if cs.Bad() {
				return
			}
		}
		cs.Count("statements", len(rows))
	})
}

var badParams = []string{"fillfactor=x", "fillfactor=", "fillfactor", "parallel_workers=1.5", "autovacuum_enabled=maybe", "autovacuum_enabled=", "autovacuum_vacuum_scale_factor=half",
	"autovacuum_freeze_min_age=1e3", "log_autovacuum_min_duration=99999999999999999999", "user_catalog_table=2"}

var badChecks = []string{"", "CHECK", "CHECK (a", "CHEK (a > 1)", "UNIQUE (a)", "CHECK (a) garbage"}
var badFKs = []string{"", "FOREIGN KEY (a)", "FOREIGN KEY () REFERENCES t(a)", "FOREIGN KEY (a) REFERENCES t(b", "CHECK (a > 1)", "FOREIGN KEY (a) REFERENCES t(b) ON DELETE EXPLODE"}
var badIndexes = []string{"", "CREATE INDEX", "CREATE INDEX i ON t (", "CREATE INDEX i ON t USING btree ()", "DROP INDEX i", "CREATE INDEX i ON t USING btree (a) garbage"}
var badTriggers = []string{"", "CREATE TRIGGER t", "CREATE TRIGGER t BEFORE NOTHING ON x EXECUTE PROCEDURE f()", "CREATE TRIGGER t BEFORE INSERT ON x EXECUTE PROCEDURE f(",
	"CREATE TRIGGER t AFTER INSERT ON x FOR EACH ROW EXECUTE FUNCTION f() garbage"}

// inspectBad: whatever can't be understood is reported, never left out
func inspectBad(ctx *vk.Ctx) {
	ctx.Cases("db", ctx.N(200, 5000), func(cs *vk.Case) {
		cleanEnv()
		r := cs.R
		m := generate(r, 1+r.Intn(4))
		// the table that can't be described is visible
		where := ""
		for _, p := range m.d.Path {
			where = p
			break
		}
		if where == "" {
			return
		}
		t := pgfake.Relation{Kind: pick(r, []string{"r", "p"}), Schema: where, Name: "zz_broken", Owner: "me"}
		if r.Intn(2) == 0 {
			t.Name = "AA_broken"
		}
		what := ""
		g := &dgen.G{R: r, PG: true}
		switch r.Intn(5) {
		case 0:
			what = pick(r, badParams)
			t.Params = []string{what}
			if r.Intn(2) == 0 {
				t.Params = []string{"parallel_workers=2", what, "zzz=1"}
			}
		case 1:
			what = pick(r, badChecks)
			for i := r.Intn(3); i > 0; i-- {
				def, _ := g.Check()
				t.Checks = append(t.Checks, pgfake.Constraint{Name: fmt.Sprint("c", r.Intn(1000), i), Def: def})
			}
			t.Checks = append(t.Checks, pgfake.Constraint{Name: fmt.Sprint("c", r.Intn(1000)), Def: what})
		case 2:
			what = pick(r, badFKs)
			for i := r.Intn(3); i > 0; i-- {
				def, _ := g.ForeignKey("", nil)
				t.ForeignKeys = append(t.ForeignKeys, pgfake.Constraint{Name: fmt.Sprint("f", r.Intn(1000), i), Def: def, Ref: t.Name, Key: []int64{int64(r.Intn(9))}})
			}
			t.ForeignKeys = append(t.ForeignKeys, pgfake.Constraint{Name: "f", Def: what, Ref: t.Name, Key: []int64{int64(r.Intn(9))}})
		case 3:
			what = pick(r, badIndexes)
			for i := r.Intn(3); i > 0; i-- {
				def, _ := g.Index("", "", true, nil)
				t.Indexes = append(t.Indexes, pgfake.Index{Name: fmt.Sprint("broken_", r.Intn(1000), i), Def: def, Unique: true})
			}
			t.Indexes = append(t.Indexes, pgfake.Index{Name: fmt.Sprint("broken_", r.Intn(1000)), Def: what, Unique: r.Intn(2) == 0})
		case 4:
			what = pick(r, badTriggers)
			for i := r.Intn(3); i > 0; i-- {
				def, tr := g.Trigger("", "", nil)
				t.Triggers = append(t.Triggers, pgfake.Trigger{Name: tr.Name + fmt.Sprint(i), Def: def})
			}
			t.Triggers = append(t.Triggers, pgfake.Trigger{Name: fmt.Sprint("t", r.Intn(1000)), Def: what})
		}
		m.d.Relations = append(m.d.Relations, t)
		cs.Describe(m.d)
		s := serve(pgfake.Build(r, m.d), nil, nil)
		if r.Intn(2) == 0 {
			db, err := inspect(s, nil)
			if err == nil {
				cs.Violatef("inspecting succeeded, although %q can't be understood", what)
			} else if db != nil {
				cs.Violatef("inspecting failed, but returned a partial description")
			}
		} else if _, err := command(cs, s, pick(r, []string{"", "-", "old", "new"}), nil); err == nil {
			cs.Violatef("inspect succeeded, although %q can't be understood", what)
		}
		goodbye(cs, s, 1, false)
		cs.Nontrivial(what + fmt.Sprint(flat(m.want)))
		cs.Distinct("definitions", what)
	})
}

// --------------------------------------------------------------------- sorting

func inspectSorted(ctx *vk.Ctx) {
	ctx.Cases("db", ctx.N(400, 10000), func(cs *vk.Case) {
		cleanEnv()
		m := generate(cs.R, 1+cs.R.Intn(5))
		o := &pg.InspectOptions{SortChecks: cs.R.Intn(2) == 0, SortColumns: cs.R.Intn(2) == 0, SortIndexes: cs.R.Intn(3) == 0}
		cs.Describe(map[string]interface{}{"database": m.d, "options": o})
		moved := false
		for _, t := range m.want.Tables {
			before := dump(reflect.ValueOf(t))
			if o.SortChecks {
				sort.SliceStable(t.Checks, func(i, j int) bool { return t.Checks[i].Expression < t.Checks[j].Expression })
			}
			if o.SortColumns {
				sort.SliceStable(t.Columns, func(i, j int) bool { return t.Columns[i].Name < t.Columns[j].Name })
			}
			moved = moved || before != dump(reflect.ValueOf(t))
		}
		s := serve(pgfake.Build(cs.R, m.d), nil, nil)
		var got *ddl.Database
		var err error
		if cs.R.Intn(2) == 0 {
			got, err = inspect(s, o)
		} else {
			var out string
			if out, err = command(cs, s, "", o); err == nil {
				got, err = ddl.ParseBytes([]byte(out), "out.hcl")
			}
		}
		goodbye(cs, s, 1, false)
		if err != nil {
			cs.Violatef("inspecting failed: %v", err)
			return
		}
		a, b := flat(ties(got, o)), flat(ties(m.want, o))
		if o.SortIndexes {
			// the order is compared by another workload
			sort.Strings(a)
			sort.Strings(b)
		}
		if x := diff(a, b); x != "" {
			cs.Violatef("wrong description with %+v\n%s", *o, x)
		}
		if moved {
			cs.Nontrivial(fmt.Sprint(b, *o))
		}
		cs.Hist("options", fmt.Sprintf("%+v", *o))
	})
}

// ties sorts checks with the same expression by name, which isn't promised
func ties(db *ddl.Database, o *pg.InspectOptions) *ddl.Database {
	if o.SortChecks {
		for _, t := range db.Tables {
			for i := 0; i < len(t.Checks); {
				j := i
				for j < len(t.Checks) && t.Checks[j].Expression == t.Checks[i].Expression {
					j++
				}
				part := t.Checks[i:j]
				sort.Slice(part, func(a, b int) bool { return part[a].Name < part[b].Name })
				i = j
			}
		}
	}
	return db
}

// inspectSortedIndexes: a few fixed databases
func inspectSortedIndexes(ctx *vk.Ctx) {
	for _, k := range []struct {
		key, table string
		indexes    []string
	}{
		{"one-table", "t", []string{"b", "a", "c"}},
		{"one-index", "t", []string{"b"}},
	} {
		k := k
		ctx.One(k.key, func(cs *vk.Case) {
			cleanEnv()
			t := pgfake.Relation{Kind: "r", Schema: "public", Name: k.table, Owner: "me"}
			for i, n := range k.indexes {
				u := ""
				if i == 0 {
					u = "UNIQUE "
				}
				t.Indexes = append(t.Indexes, pgfake.Index{Name: n, Unique: i == 0, Def: "CREATE " + u + "INDEX " + n + " ON " + k.table + " USING btree (x)"})
			}
			d := &pgfake.Database{SearchPath: "public", Path: []string{"public"}, Timezone: "UTC", Schemas: []pgfake.Schema{{Name: "public", Owner: "me"}},
				Relations: []pgfake.Relation{t}}
			cs.Describe(d)
			s := serve(pgfake.Build(cs.R, d), nil, nil)
			db, err := inspect(s, &pg.InspectOptions{SortIndexes: true})
			goodbye(cs, s, 1, false)
			if err != nil {
				cs.Violatef("inspecting failed: %v", err)
				return
			}
			var got []string
			for _, x := range db.Indexes {
				got = append(got, x.Name)
			}
			if !sort.StringsAreSorted(got) {
				cs.Findingf("sort-indexes/"+k.key, "with --sort-indexes, the indexes of a table are listed as %v", got)
			}
			if len(got) != len(k.indexes) {
				cs.Violatef("got indexes %v", got)
			}
			cs.Nontrivial(k.key)
		})
	}
}
