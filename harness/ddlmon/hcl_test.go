//go:build go1.22

package ddlmon

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"

	"github.com/sjansen/pgutil/internal/ddl"
	"github.com/sjansen/pgutil/internal/zverif/vk"
)

func init() {
	vk.Register("C29", "round trips", roundTrips)
	vk.Register("C29", "reading", reading)
	vk.Register("C29", "invalid", invalid)
	vk.Register("C29", "write errors", writeErrors)
}

var texts = []string{"a", "public", "Weird Name", "it's", `"quoted"`, `back\slash`, `\n`, "line\nbreak", "a\r\nb", "tab\there", "${x}", "$${x}", "%{if}", "%%{", "$", "%", "{", "$$",
	"naïve", "日本語", "🙂", "nextval('x_seq'::regclass)", "BEGIN\n  NEW.a := 1; -- ${b}\nEND;\n", "// no comment", "# x", "/* */", "true", "null", "0", "\u00a0", "$${", "$$${x}", "%%%{x}", "a\\", "\\\"", "EOT", "<<EOT\nx\nEOT\n", "\x01", "\x7f", "\u200b",
	"DECLARE\r\n  x int;\r\nBEGIN\r\n\r\nEND;\r\n", "  indented\n\tby a tab\n\n", "trailing \t\n", "cost $1 $\\ 100%\n", "\n"}

func text(r *rand.Rand) string {
	switch r.Intn(6) {
	case 0, 1, 2:
		return vk.Stretch(r, texts[r.Intn(len(texts))], 20000)
	case 3:
		return []string{"a", "public"}[r.Intn(2)] // names that other things have, too
	}
	s := ""
	for n := r.Intn(4); n >= 0; n-- {
		s += texts[r.Intn(len(texts))]
	}
	return s
}

func maybe(r *rand.Rand) string {
	if r.Intn(3) == 0 {
		return ""
	}
	return text(r)
}

func flip(r *rand.Rand) bool { return r.Intn(2) == 0 }

func number(r *rand.Rand) int64 {
	edge := []int64{0, 1, -1, 2147483647, -2147483648, 2147483648, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, 1 << 53, 1<<53 + 1, 10, 1000000}
	if flip(r) {
		return edge[r.Intn(len(edge))]
	}
	return vk.Int(r, math.MinInt64, math.MaxInt64)
}

func names(r *rand.Rand) []string {
	l := []string{text(r)}
	for n := vk.Several(r, 3, 200); n > 0; n-- {
		l = append(l, text(r))
	}
	return l
}

func few(r *rand.Rand) int {
	if r.Intn(60) == 0 {
		return vk.Size(r, 120)
	}
	return []int{0, 0, 1, 1, 2, 3, 5}[r.Intn(7)]
}

func intp(r *rand.Rand) *int {
	if flip(r) {
		return nil
	}
	n := int(number(r))
	return &n
}

func boolp(r *rand.Rand) *bool {
	if flip(r) {
		return nil
	}
	b := flip(r)
	return &b
}

func floatp(r *rand.Rand) *float64 {
	if flip(r) {
		return nil
	}
	f := []float64{0, 0.1, 0.2, 1, 0.05, 1e-7, 100, 0.30000000000000004, 1.0 / 3, 12345.678, 1e15}[r.Intn(11)]
	if r.Intn(3) == 0 {
		f = r.Float64()
	}
	return &f
}

func storage(r *rand.Rand) *ddl.TableStorageParameters {
	return &ddl.TableStorageParameters{
		Fillfactor: intp(r), ParallelWorkers: intp(r), AutovacuumEnabled: boolp(r), AutovacuumVacuumThreshold: intp(r),
		AutovacuumVacuumScaleFactor: floatp(r), AutovacuumAnalyzeThreshold: intp(r), AutovacuumAnalyzeScaleFactor: floatp(r),
		AutovacuumVacuumCostDelay: intp(r), AutovacuumFreezeMinAge: intp(r), AutovacuumFreezeMaxAge: intp(r), AutovacuumFreezeTableAge: intp(r),
		AutovacuumMultixactFreezeMinAge: intp(r), AutovacuumMultixactFreezeMaxAge: intp(r), AutovacuumMultixactFreezeTableAge: intp(r),
		LogAutovacuumMinDuration: intp(r), UserCatalogTable: boolp(r),
	}
}

func database(r *rand.Rand) *ddl.Database {
	db := &ddl.Database{}
	if flip(r) {
		db.Parameters = &ddl.Parameters{Timezone: maybe(r)}
		if r.Intn(4) > 0 {
			db.Parameters.SearchPath = names(r)
		}
	}
	for n := few(r); n > 0; n-- {
		db.Schemas = append(db.Schemas, &ddl.Schema{Name: text(r), Owner: maybe(r), Comment: maybe(r)})
	}
	for n := few(r); n > 0; n-- {
		db.Functions = append(db.Functions, &ddl.Function{Schema: text(r), Name: text(r), Owner: maybe(r), Comment: maybe(r), Returns: maybe(r), Language: maybe(r), Definition: maybe(r)})
	}
	for n := few(r); n > 0; n-- {
		s := &ddl.Sequence{Schema: text(r), Name: text(r), Owner: maybe(r), Comment: maybe(r), DataType: maybe(r), Start: number(r), Minimum: number(r),
			Maximum: number(r), Increment: number(r), Cache: number(r), Cycle: flip(r)}
		if flip(r) {
			s.OwnedBy = &ddl.SequenceOwner{Schema: text(r), Table: text(r), Column: text(r)}
		}
		db.Sequences = append(db.Sequences, s)
	}
	for n := few(r); n > 0; n-- {
		t := &ddl.Table{Schema: text(r), Name: text(r), Owner: maybe(r), Comment: maybe(r)}
		for k := few(r); k > 0; k-- {
			t.Columns = append(t.Columns, &ddl.Column{Name: text(r), Type: text(r), NotNull: flip(r), Default: maybe(r), Comment: maybe(r)})
		}
		for k := few(r); k > 0; k-- {
			t.Checks = append(t.Checks, &ddl.Check{Name: maybe(r), Expression: text(r), Deferrable: flip(r), InitiallyDeferred: flip(r)})
		}
		for k := few(r); k > 0; k-- {
			t.ForeignKeys = append(t.ForeignKeys, &ddl.ForeignKey{Name: maybe(r), Table: text(r), Columns: names(r), Referenced: names(r),
				Match: maybe(r), OnDelete: maybe(r), OnUpdate: maybe(r), Deferrable: flip(r), InitiallyDeferred: flip(r)})
		}
		if flip(r) {
			t.StorageParameters = storage(r)
		}
		db.Tables = append(db.Tables, t)
	}
	for n := few(r); n > 0; n-- {
		ix := &ddl.Index{Schema: text(r), Table: text(r), Name: text(r), Primary: flip(r), Unique: flip(r), Using: maybe(r), Where: maybe(r)}
		for k := few(r); k > 0; k-- {
			ix.Keys = append(ix.Keys, &ddl.IndexKey{Column: maybe(r), Expression: maybe(r), OpClass: maybe(r), Descending: flip(r)})
		}
		db.Indexes = append(db.Indexes, ix)
	}
	for n := few(r); n > 0; n-- {
		t := &ddl.Trigger{Schema: text(r), Table: text(r), Name: text(r), Function: text(r), When: text(r), Constraint: flip(r), Deferrable: flip(r),
			InitiallyDeferred: flip(r), ForEachRow: flip(r), Delete: flip(r), Insert: flip(r), Truncate: flip(r), Update: flip(r)}
		if flip(r) {
			t.Columns = names(r)
		}
		db.Triggers = append(db.Triggers, t)
	}
	return db
}

func roundTrips(c *vk.Ctx) {
	c.Cases("generated", c.N(600, 20000), func(cs *vk.Case) {
		db := database(cs.R)
		before := vk.JSON(db)
		cs.Describe(db)
		var first, second bytes.Buffer
		if err := db.Write(&first); err != nil {
			cs.Violatef("writing failed: %v", err)
			return
		}
		if err := db.Write(&second); err != nil || !bytes.Equal(first.Bytes(), second.Bytes()) {
			cs.Violatef("writing again resulted in something else (%v):\n%s\n--\n%s", err, first.Bytes(), second.Bytes())
		}
		if after := vk.JSON(db); after != before {
			cs.Violatef("writing changed the description from %s to %s", before, after)
		}
		got, err := ddl.ParseBytes(first.Bytes(), "x.hcl")
		if err != nil {
			cs.Violatef("what was written can't be read: %v\n%s", err, first.Bytes())
			return
		}
		if diff := difference(got, db); diff != "" {
			cs.Violatef("written and read, the description differs: %s\n%s", diff, first.Bytes())
			return
		}
		path := cs.WriteFile(cs.Scratch(), "x.hcl", first.String())
		if got, err = ddl.ParseFile(path); err != nil || difference(got, db) != "" {
			cs.Violatef("read from a file, the description differs (%v): %s", err, difference(got, db))
		}
		// reading has no memory, and can be repeated
		if got, err = ddl.ParseFile(path); err != nil || difference(got, db) != "" {
			cs.Violatef("read again, the description differs (%v): %s", err, difference(got, db))
		}
		cs.Nontrivial(before)
		cs.Max("bytes of HCL", first.Len())
		cs.Count("objects", len(db.Schemas)+len(db.Functions)+len(db.Sequences)+len(db.Tables)+len(db.Indexes)+len(db.Triggers))
		if first.Len() < 300 {
			cs.Sample(first.String())
		}
	})
}

// difference ignores whether empty lists are nil
func difference(got, want interface{}) string {
	var diff func(path string, a, b reflect.Value) string
	diff = func(path string, a, b reflect.Value) string {
		switch a.Kind() {
		case reflect.Ptr:
			if a.IsNil() || b.IsNil() {
				if a.IsNil() != b.IsNil() {
					return fmt.Sprintf("%s: %s instead of %s", path, vk.JSON(a.Interface()), vk.JSON(b.Interface()))
				}
				return ""
			}
			return diff(path, a.Elem(), b.Elem())
		case reflect.Slice:
			if a.Len() != b.Len() {
				return fmt.Sprintf("%s: %d items instead of %d", path, a.Len(), b.Len())
			}
			for i := 0; i < a.Len(); i++ {
				if s := diff(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i)); s != "" {
					return s
				}
			}
			return ""
		case reflect.Struct:
			for i := 0; i < a.NumField(); i++ {
				if s := diff(path+"."+a.Type().Field(i).Name, a.Field(i), b.Field(i)); s != "" {
					return s
				}
			}
			return ""
		}
		if !reflect.DeepEqual(a.Interface(), b.Interface()) {
			return fmt.Sprintf("%s: %q instead of %q", path, fmt.Sprint(a.Interface()), fmt.Sprint(b.Interface()))
		}
		return ""
	}
	return diff("", reflect.ValueOf(got), reflect.ValueOf(want))
}

// hclw is a writer of the documented format
type hclw struct {
	r *rand.Rand
	b strings.Builder
	// attributes that may be omitted are written if they're set, or at random
}

func (w *hclw) quote(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i, c := range s {
		switch {
		case c == '"' || c == '\\':
			b.WriteString(`\` + string(c))
		case c == '\n':
			b.WriteString(`\n`)
		case c == '\r':
			b.WriteString(`\r`)
		case c == '\t' && flip(w.r):
			b.WriteString(`\t`)
		case (c == '$' || c == '%') && strings.HasPrefix(s[i+1:], "{"):
			b.WriteString(string(c) + string(c))
		case c < ' ' || c == 0x7f || c > 0x7f && w.r.Intn(4) == 0:
			if c > 0xffff {
				fmt.Fprintf(&b, `\U%08x`, c)
			} else {
				fmt.Fprintf(&b, `\u%04x`, c)
			}
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (w *hclw) line(s string) {
	b := strings.Repeat([]string{" ", "\t", "  ", ""}[w.r.Intn(4)], w.r.Intn(3)) + s
	if w.r.Intn(10) == 0 {
		b += " " + []string{"# ", "// "}[w.r.Intn(2)] + "note"
	}
	w.b.WriteString(b + strings.Repeat("\n", 1+w.r.Intn(4)/3))
}

type attr struct {
	name     string
	value    interface{}
	required bool
}

func (w *hclw) value(v interface{}) (s string, zero bool) {
	switch v := v.(type) {
	case string:
		return w.quote(v), v == ""
	case bool:
		return strconv.FormatBool(v), !v
	case int64:
		return strconv.FormatInt(v, 10), v == 0
	case []string:
		l := make([]string, len(v))
		for i, s := range v {
			l[i] = w.quote(s)
		}
		return "[" + strings.Join(l, ", ") + "]", v == nil
	case *int:
		if v == nil {
			return "null", true
		}
		return strconv.Itoa(*v), false
	case *bool:
		if v == nil {
			return "null", true
		}
		return strconv.FormatBool(*v), false
	case *float64:
		if v == nil {
			return "null", true
		}
		return strconv.FormatFloat(*v, 'f', -1, 64), false
	}
	panic("monitor panic: value")
}

// heredoc tells if a text can be written verbatim
func heredoc(s string) bool {
	return strings.HasSuffix(s, "\n") && !strings.Contains(s, "${") && !strings.Contains(s, "%{")
}

func (w *hclw) block(name string, labels []string, attrs []attr, nested func()) {
	for _, l := range labels {
		name += " " + w.quote(l)
	}
	w.line(name + " {")
	parts := []func(){}
	for _, a := range attrs {
		a := a
		s, zero := w.value(a.value)
		if zero && !a.required && (w.r.Intn(3) > 0 || s == "null" || s == "[]") {
			continue
		}
		if v, ok := a.value.(string); ok && w.r.Intn(3) > 0 && heredoc(v) {
			parts = append(parts, func() { w.b.WriteString(a.name + " = <<END_OF_TEXT\n" + v + "END_OF_TEXT\n") })
			continue
		}
		parts = append(parts, func() { w.line(a.name + strings.Repeat(" ", w.r.Intn(3)) + "=" + strings.Repeat(" ", w.r.Intn(3)) + s) })
	}
	w.r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	at := len(parts)
	if flip(w.r) {
		at = 0
	}
	for i, p := range parts {
		if i == at && nested != nil {
			nested()
		}
		p()
	}
	if at == len(parts) && nested != nil {
		nested()
	}
	w.line("}")
}

func document(r *rand.Rand, db *ddl.Database) string {
	w := &hclw{r: r}
	var groups []func()
	if p := db.Parameters; p != nil {
		groups = append(groups, func() {
			w.block("parameters", nil, []attr{{"search_path", p.SearchPath, false}, {"timezone", p.Timezone, false}}, nil)
		})
	}
	groups = append(groups, func() {
		for _, s := range db.Schemas {
			w.block("schema", []string{s.Name}, []attr{{"owner", s.Owner, false}, {"comment", s.Comment, false}}, nil)
		}
	}, func() {
		for _, f := range db.Functions {
			w.block("function", []string{f.Schema, f.Name}, []attr{{"owner", f.Owner, false}, {"comment", f.Comment, false}, {"returns", f.Returns, true},
				{"language", f.Language, true}, {"definition", f.Definition, true}}, nil)
		}
	}, func() {
		for _, s := range db.Sequences {
			w.block("sequence", []string{s.Schema, s.Name}, []attr{{"owner", s.Owner, false}, {"comment", s.Comment, false}, {"data_type", s.DataType, false},
				{"start", s.Start, false}, {"minimum", s.Minimum, false}, {"maximum", s.Maximum, false}, {"increment", s.Increment, false}, {"cache", s.Cache, false},
				{"cycle", s.Cycle, false}}, func() {
				if o := s.OwnedBy; o != nil {
					w.block("owned_by", nil, []attr{{"schema", o.Schema, true}, {"table", o.Table, true}, {"column", o.Column, true}}, nil)
				}
			})
		}
	}, func() {
		for _, t := range db.Tables {
			w.block("table", []string{t.Schema, t.Name}, []attr{{"owner", t.Owner, false}, {"comment", t.Comment, false}}, func() {
				for _, c := range t.Columns {
					w.block("column", []string{c.Name}, []attr{{"type", c.Type, true}, {"not_null", c.NotNull, false}, {"default", c.Default, false}, {"comment", c.Comment, false}}, nil)
				}
				for _, c := range t.Checks {
					w.block("check", nil, []attr{{"name", c.Name, false}, {"expression", c.Expression, true}, {"deferrable", c.Deferrable, false}, {"initially_deferred", c.InitiallyDeferred, false}}, nil)
				}
				for _, k := range t.ForeignKeys {
					w.block("foreign_key", []string{k.Table}, []attr{{"name", k.Name, false}, {"columns", k.Columns, true}, {"referenced", k.Referenced, true}, {"match", k.Match, false},
						{"on_delete", k.OnDelete, false}, {"on_update", k.OnUpdate, false}, {"deferrable", k.Deferrable, false}, {"initially_deferred", k.InitiallyDeferred, false}}, nil)
				}
				if p := t.StorageParameters; p != nil {
					w.block("storage_parameters", nil, []attr{{"fillfactor", p.Fillfactor, false}, {"parallel_workers", p.ParallelWorkers, false},
						{"autovacuum_enabled", p.AutovacuumEnabled, false}, {"autovacuum_vacuum_threshold", p.AutovacuumVacuumThreshold, false},
						{"autovacuum_vacuum_scale_factor", p.AutovacuumVacuumScaleFactor, false}, {"autovacuum_analyze_threshold", p.AutovacuumAnalyzeThreshold, false},
						{"autovacuum_analyze_scale_factor", p.AutovacuumAnalyzeScaleFactor, false}, {"autovacuum_vacuum_cost_limit", p.AutovacuumVacuumCostDelay, false},
						{"autovacuum_freeze_min_age", p.AutovacuumFreezeMinAge, false}, {"autovacuum_freeze_max_age", p.AutovacuumFreezeMaxAge, false},
						{"autovacuum_freeze_table_age", p.AutovacuumFreezeTableAge, false}, {"autovacuum_multixact_freeze_min_age", p.AutovacuumMultixactFreezeMinAge, false},
						{"autovacuum_multixact_freeze_max_age", p.AutovacuumMultixactFreezeMaxAge, false}, {"autovacuum_multixact_freeze_table_age", p.AutovacuumMultixactFreezeTableAge, false},
						{"log_autovacuum_min_duration", p.LogAutovacuumMinDuration, false}, {"user_catalog_table", p.UserCatalogTable, false}}, nil)
				}
			})
		}
	}, func() {
		for _, x := range db.Indexes {
			w.block("index", []string{x.Schema, x.Table, x.Name}, []attr{{"primary", x.Primary, false}, {"unique", x.Unique, false}, {"using", x.Using, false}, {"where", x.Where, false}}, func() {
				for _, k := range x.Keys {
					w.block("key", nil, []attr{{"column", k.Column, false}, {"expression", k.Expression, false}, {"opclass", k.OpClass, false}, {"descending", k.Descending, false}}, nil)
				}
			})
		}
	}, func() {
		for _, t := range db.Triggers {
			w.block("trigger", []string{t.Schema, t.Table, t.Name}, []attr{{"function", t.Function, true}, {"when", t.When, true}, {"constraint", t.Constraint, false},
				{"deferrable", t.Deferrable, false}, {"initially_deferred", t.InitiallyDeferred, false}, {"for_each_row", t.ForEachRow, false}, {"delete", t.Delete, false},
				{"insert", t.Insert, false}, {"truncate", t.Truncate, false}, {"update", t.Update, false}, {"columns", t.Columns, false}}, nil)
		}
	})
	r.Shuffle(len(groups), func(i, j int) { groups[i], groups[j] = groups[j], groups[i] })
	for _, g := range groups {
		g()
	}
	return w.b.String()
}

func reading(c *vk.Ctx) {
	c.Cases("generated", c.N(600, 20000), func(cs *vk.Case) {
		db := database(cs.R)
		doc := document(cs.R, db)
		cs.Describe(doc)
		got, err := ddl.ParseBytes([]byte(doc), "x.hcl")
		if err != nil {
			cs.Violatef("a valid document was rejected: %v\n%s", err, doc)
			return
		}
		if diff := difference(got, db); diff != "" {
			cs.Violatef("the document was read differently: %s\n%s", diff, doc)
			return
		}
		path := cs.WriteFile(cs.Scratch(), "x.hcl", doc)
		if got, err = ddl.ParseFile(path); err != nil || difference(got, db) != "" {
			cs.Violatef("read from a file, the description differs (%v)", err)
		}
		cs.Nontrivial(doc)
	})
}

var valid = `schema "public" {
  owner = "me"
}
function "public" "f" {
  returns = "trigger"
  language = "sql"
  definition = "x"
}
sequence "public" "s" {
  start = 1
  cycle = true
  owned_by {
    schema = "public"
    table = "t"
    column = "c"
  }
}
table "public" "t" {
  owner = "me"
  column "c" {
    type = "text"
  }
  check {
    expression = "c > 0"
  }
  foreign_key "u" {
    columns = ["c"]
    referenced = ["d"]
  }
  storage_parameters {
    fillfactor = 10
  }
}
index "public" "t" "i" {
  unique = true
  key {
    column = "c"
  }
}
trigger "public" "t" "g" {
  function = "f"
  when = "BEFORE"
}
parameters {
  search_path = ["a"]
}
`

func invalid(c *vk.Ctx) {
	reject := func(cs *vk.Case, doc, why string) {
		cs.Describe(doc)
		for _, how := range []string{"bytes", "file"} {
			var got *ddl.Database
			var err error
			r, stack := vk.Recover(func() {
				if how == "bytes" {
					got, err = ddl.ParseBytes([]byte(doc), "x.hcl")
				} else {
					got, err = ddl.ParseFile(cs.WriteFile(cs.Scratch(), "x.hcl", doc))
				}
			})
			switch {
			case r != nil:
				cs.Violatef("%s: reading %s panicked: %v\n%s\n%s", why, how, r, doc, stack)
			case err == nil:
				cs.Violatef("%s: no error was reported (%s)\n%s", why, how, doc)
			case got != nil:
				cs.Violatef("%s: a description was returned with the error %v (%s)\n%s", why, err, how, doc)
			case !strings.Contains(err.Error(), "x.hcl"):
				cs.Violatef("%s: the error doesn't tell which file is meant: %v (%s)\n%s", why, err, how, doc)
			}
		}
		cs.Nontrivial(doc)
		cs.Hist("rejected", why)
	}
	lines := strings.SplitAfter(strings.TrimSuffix(valid, "\n"), "\n")
	required := map[string]bool{"returns": true, "language": true, "definition": true, "schema": true, "table": true, "column": true, "type": true, "expression": true,
		"columns": true, "referenced": true, "function": true, "when": true}
	c.Cases("each line", len(lines), func(cs *vk.Case) {
		i := cs.I
		with := func(l string) string {
			return strings.Join(lines[:i], "") + l + strings.Join(lines[i+1:], "")
		}
		l := strings.TrimSpace(lines[i])
		switch {
		case strings.HasSuffix(l, "{"):
			reject(cs, with(strings.Replace(lines[i], " ", "x ", 1)), "unknown block or attribute")
			f := strings.Fields(l)
			if len(f) > 2 {
				reject(cs, with(strings.Replace(lines[i], f[1]+" ", "", 1)), "missing label")
			}
			reject(cs, with(strings.Replace(lines[i], " {", ` "extra" {`, 1)), "extra label")
			reject(cs, with(strings.TrimSuffix(strings.TrimSpace(lines[i]), "{")+"\n"), "syntax")
			reject(cs, with(lines[i]+"  bogus = 1\n"), "unknown attribute")
			if f[0] == "owned_by" || f[0] == "storage_parameters" || f[0] == "parameters" {
				end := i
				for strings.TrimSpace(lines[end]) != "}" {
					end++
				}
				all := strings.Join(lines[i:end+1], "")
				if !strings.HasSuffix(all, "\n") {
					all += "\n"
				}
				reject(cs, with(all+lines[i]), "duplicate block")
			}
		case l == "}":
			reject(cs, with(""), "syntax")
		default:
			name := strings.Fields(l)[0]
			if required[name] && !strings.HasSuffix(lines[i-1], "key {\n") {
				reject(cs, with(""), "missing attribute")
			}
			reject(cs, with(lines[i]+lines[i]), "duplicate attribute")
			reject(cs, with("  "+name+"_x = 1\n"+lines[i]), "unknown attribute")
			reject(cs, with("  "+name+" =\n"), "syntax")
			reject(cs, with("  "+name+" = var.x\n"), "variable")
			reject(cs, with("  "+name+" = { a = [] }\n"), "wrong type")
		}
	})
	c.One("valid", func(cs *vk.Case) {
		if db, err := ddl.ParseBytes([]byte(valid), "x"); err != nil || db == nil {
			cs.Violatef("the valid document was rejected: %v", err)
		}
		// nothing at all is a description, too
		db, err := ddl.ParseBytes(nil, "x")
		if err != nil || db == nil || difference(db, &ddl.Database{}) != "" {
			cs.Violatef("an empty document was read as %s (%v)", vk.JSON(db), err)
		}
		dir := cs.Scratch()
		for _, name := range []string{filepath.Join(dir, "missing.hcl"), dir} {
			if db, err := ddl.ParseFile(name); err == nil || db != nil {
				cs.Violatef("reading %q, which isn't a file, resulted in %s (%v)", name, vk.JSON(db), err)
			}
		}
	})
	c.Cases("truncated", c.N(150, 3000), func(cs *vk.Case) {
		// cut within a block
		n := 20 + cs.R.Intn(len(valid)-22)
		doc := valid[:n]
		depth := strings.Count(doc, "{") - strings.Count(doc, "}")
		if depth == 0 {
			doc += `schema "x" {`
		}
		reject(cs, doc, "truncated")
	})
	c.Cases("noise", c.N(300, 10000), func(cs *vk.Case) {
		b := []byte(valid)
		for k := 1 + cs.R.Intn(4); k > 0; k-- {
			i := cs.R.Intn(len(b))
			switch cs.R.Intn(3) {
			case 0:
				b[i] = byte(cs.R.Intn(256))
			case 1:
				b = append(b[:i], b[i+1:]...)
			default:
				b[i] = "\"{}[]=\n$%\\<"[cs.R.Intn(11)]
			}
		}
		cs.Describe(string(b))
		var db *ddl.Database
		var err error
		if r, stack := vk.Recover(func() { db, err = ddl.ParseBytes(b, "x.hcl") }); r != nil {
			cs.Violatef("reading panicked: %v\n%s\n%s", r, b, stack)
			return
		}
		if (db == nil) == (err == nil) {
			cs.Violatef("reading resulted in %s and the error %v\n%s", vk.JSON(db), err, b)
		}
		if err == nil {
			cs.Hist("noise", "accepted")
		} else {
			cs.Hist("noise", "rejected")
		}
		cs.Nontrivial(string(b))
	})
}

type failing struct {
	left int
	err  error
	got  bytes.Buffer
}

func (f *failing) Write(p []byte) (int, error) {
	if len(p) <= f.left {
		f.left -= len(p)
		f.got.Write(p)
		return len(p), nil
	}
	n := f.left
	f.got.Write(p[:n])
	f.left = 0
	return n, f.err
}

func writeErrors(c *vk.Ctx) {
	c.Cases("generated", c.N(60, 1000), func(cs *vk.Case) {
		db := database(cs.R)
		cs.Describe(db)
		var all bytes.Buffer
		if err := db.Write(&all); err != nil {
			cs.Violatef("writing failed: %v", err)
			return
		}
		boom := errors.New("boom")
		for k := 0; k < 8 && all.Len() > 0; k++ {
			w := &failing{left: cs.R.Intn(all.Len()), err: boom}
			err := db.Write(w)
			if err == nil {
				cs.Violatef("a failed write, after %d of %d bytes, wasn't reported", w.got.Len(), all.Len())
			} else if !strings.Contains(err.Error(), "boom") {
				cs.Violatef("the reported error isn't the one of the writer: %v", err)
			}
			if !bytes.HasPrefix(all.Bytes(), w.got.Bytes()) {
				cs.Violatef("what was written before the error isn't the beginning of the document")
			}
			cs.Nontrivial(fmt.Sprintf("%d/%d", w.got.Len(), all.Len()))
		}
		w := &failing{left: all.Len(), err: boom}
		if err := db.Write(w); err != nil || !bytes.Equal(w.got.Bytes(), all.Bytes()) {
			cs.Violatef("writing %d bytes to something with room for them failed: %v", all.Len(), err)
		}
	})
	c.One("full device", func(cs *vk.Case) {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			return
		}
		defer f.Close()
		db := &ddl.Database{Schemas: []*ddl.Schema{{Name: "x"}}}
		if db.Write(f) == nil {
			cs.Violatef("writing to a full device wasn't reported")
		}
	})
}
