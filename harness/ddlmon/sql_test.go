//go:build go1.22

package ddlmon

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"github.com/sjansen/pgutil/internal/ddl"
	"github.com/sjansen/pgutil/internal/zverif/dgen"
	"github.com/sjansen/pgutil/internal/zverif/vk"
)

func init() {
	vk.Register("C30", "each parameter", eachParameter)
	vk.Register("C30", "sequences", assignments)
	vk.Register("C31", "tables", tableSQL)
	vk.Register("C31", "keys", keySQL)
	vk.Register("C31", "triggers", triggerSQL)
	vk.Register("C31", "functions", functionSQL)
}

var intKeys = strings.Fields("fillfactor parallel_workers autovacuum_vacuum_threshold autovacuum_analyze_threshold autovacuum_vacuum_cost_limit " +
	"autovacuum_freeze_min_age autovacuum_freeze_max_age autovacuum_freeze_table_age autovacuum_multixact_freeze_min_age " +
	"autovacuum_multixact_freeze_max_age autovacuum_multixact_freeze_table_age log_autovacuum_min_duration")
var floatKeys = strings.Fields("autovacuum_vacuum_scale_factor autovacuum_analyze_scale_factor")
var boolKeys = strings.Fields("autovacuum_enabled user_catalog_table")

// parameters reads all parameters by their documented names
func parameters(p *ddl.TableStorageParameters) map[string]string {
	out := map[string]string{}
	i := func(k string, v *int) {
		if v != nil {
			out[k] = strconv.Itoa(*v)
		}
	}
	f := func(k string, v *float64) {
		if v != nil {
			out[k] = strconv.FormatFloat(*v, 'g', -1, 64)
		}
	}
	b := func(k string, v *bool) {
		if v != nil {
			out[k] = strconv.FormatBool(*v)
		}
	}
	i("fillfactor", p.Fillfactor)
	i("parallel_workers", p.ParallelWorkers)
	b("autovacuum_enabled", p.AutovacuumEnabled)
	i("autovacuum_vacuum_threshold", p.AutovacuumVacuumThreshold)
	f("autovacuum_vacuum_scale_factor", p.AutovacuumVacuumScaleFactor)
	i("autovacuum_analyze_threshold", p.AutovacuumAnalyzeThreshold)
	f("autovacuum_analyze_scale_factor", p.AutovacuumAnalyzeScaleFactor)
	i("autovacuum_vacuum_cost_limit", p.AutovacuumVacuumCostDelay)
	i("autovacuum_freeze_min_age", p.AutovacuumFreezeMinAge)
	i("autovacuum_freeze_max_age", p.AutovacuumFreezeMaxAge)
	i("autovacuum_freeze_table_age", p.AutovacuumFreezeTableAge)
	i("autovacuum_multixact_freeze_min_age", p.AutovacuumMultixactFreezeMinAge)
	i("autovacuum_multixact_freeze_max_age", p.AutovacuumMultixactFreezeMaxAge)
	i("autovacuum_multixact_freeze_table_age", p.AutovacuumMultixactFreezeTableAge)
	i("log_autovacuum_min_duration", p.LogAutovacuumMinDuration)
	b("user_catalog_table", p.UserCatalogTable)
	return out
}

// boolean spellings, of which PostgreSQL accepts unique prefixes
var spellings = map[string]string{}

func init() {
	for _, w := range []string{"true", "t", "tr", "tru", "yes", "y", "ye", "on", "1"} {
		spellings[w] = "true"
	}
	for _, w := range []string{"false", "f", "fa", "fal", "fals", "no", "n", "off", "of", "0"} {
		spellings[w] = "false"
	}
}

type assignment struct {
	Key, Value string
	Want       string // what's recorded; if it's empty the value is rejected
}

func recase(r *rand.Rand, s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'a' && b[i] <= 'z' && flip(r) {
			b[i] -= 0x20
		}
	}
	return string(b)
}

var badNumbers = []string{"", " ", "x", "1x", "1 ", " 1", "--1", "1,000", "on", "1e", ".", "0x", "é", "1\x00",
	"1f", "1.5f", "1d", "1L", "50%", "1s", "10ms", "8kB", "1_0", "1,5", "1.5.2", "- 1", "1-", "+-1", "\uff11", "\u0663", "1\n", "\t1", "(1)", "'1'", "1;", "on1", "null", "true", "default", "$1", "1/2", "1e+", "e1", "1e1.5"}
var badBooleans = []string{"", " ", "o", "x", "truee", "yess", "2", "10", "-1", "enabled", "ja", "true ", " true", "nope", "offf", "1.0", "é", "truе", "t f", "on\n", "\x00", "null", "default", "00", "01", "+1", "onn", "wahr", "tt", "yes,no", "'t'", "\"on\"", "false.", "ｔrue", "ye\u017f"}

func anyAssignment(r *rand.Rand) assignment {
	switch r.Intn(8) {
	case 0, 1, 2:
		k := intKeys[r.Intn(len(intKeys))]
		v := strconv.FormatInt(number(r), 10)
		return assignment{k, v, v}
	case 3:
		k := floatKeys[r.Intn(len(floatKeys))]
		f := []float64{0, 0.1, 0.2, 1, 0.05, 1e-9, 100, 1.0 / 3, r.Float64(), r.ExpFloat64() * 1e6}[r.Intn(10)]
		s := strconv.FormatFloat(f, []byte("gfe")[r.Intn(3)], -1, 64)
		return assignment{k, s, strconv.FormatFloat(f, 'g', -1, 64)}
	case 4, 5:
		k := boolKeys[r.Intn(len(boolKeys))]
		i := r.Intn(len(spellings))
		for _, w := range sortedKeys(spellings) {
			if i--; i < 0 {
				return assignment{k, recase(r, w), spellings[w]}
			}
		}
	case 6:
		if flip(r) {
			bad := badBooleans[r.Intn(len(badBooleans))]
			// one letter more, less, or another one
			w := sortedKeys(spellings)[r.Intn(len(spellings))]
			i, x := r.Intn(len(w)+1), string("truefalsnoy012"[r.Intn(14)])
			near := w[:i] + x + w[i:]
			if j := r.Intn(len(w) + 1); j < len(w) && flip(r) {
				near = w[:j] + x + w[j+1:]
			}
			if spellings[near] == "" && r.Intn(3) > 0 {
				bad = recase(r, near)
			}
			return assignment{boolKeys[r.Intn(len(boolKeys))], bad, ""}
		}
		if r.Intn(4) == 0 {
			v := append(append([]string(nil), badNumbers...), "NaN", "nan", "Inf", "-Infinity", "1e999", "1_0", "0.1_5", "0x_1p0", "1__0", "_1", "0x", "0b1")
			return assignment{floatKeys[r.Intn(len(floatKeys))], v[r.Intn(len(v))], ""}
		}
		v := append(append([]string(nil), badNumbers...), "1.5", "0.0", "1e3", "9223372036854775808999", "9223372036854775808", "-9223372036854775809", "0x10", "0b1", "0o7", "1.", "Inf", "NaN")
		return assignment{intKeys[r.Intn(len(intKeys))], v[r.Intn(len(v))], ""}
	}
	// not a parameter of tables, or unknown to this version
	return assignment{[]string{"", "toast_tuple_target", "vacuum_index_cleanup", "Fillfactor", "fillfactor ", "fastupdate", "toast.autovacuum_enabled", "x"}[r.Intn(8)],
		[]string{"1", "x", "", "on"}[r.Intn(4)], "ignored"}
}

func sortedKeys(m map[string]string) []string {
	l := []string{}
	for k := range m {
		l = append(l, k)
	}
	for i := range l {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
	return l
}

// apply makes the assignments, and compares with the model after each one
func apply(cs *vk.Case, p *ddl.TableStorageParameters, model map[string]string, l []assignment) bool {
	for i, a := range l {
		var err error
		if r, stack := vk.Recover(func() { err = p.Set(a.Key, a.Value) }); r != nil {
			cs.Violatef("setting %s to %q panicked: %v\n%s", a.Key, a.Value, r, stack)
			return false
		}
		got := parameters(p)
		switch {
		case a.Want == "" && err == nil:
			cs.Violatef("setting %s to %q wasn't rejected, it's now %q", a.Key, a.Value, got[a.Key])
			return false
		case a.Want == "":
			// what a parameter is afterwards isn't defined: the description is discarded
			if v, ok := got[a.Key]; ok {
				model[a.Key] = v
			} else {
				delete(model, a.Key)
			}
		case err != nil:
			cs.Violatef("setting %s to %q was rejected: %v", a.Key, a.Value, err)
			return false
		case a.Want != "ignored":
			model[a.Key] = a.Want
		}
		if !reflect.DeepEqual(got, model) {
			cs.Violatef("after step %d, setting %s to %q, the parameters are %v, expected %v", i, a.Key, a.Value, got, model)
			return false
		}
		cs.Count("assignments", 1)
	}
	return true
}

func eachParameter(c *vk.Ctx) {
	var all []assignment
	for _, k := range intKeys {
		for _, v := range []int64{0, 1, -1, 10, 100, 2147483647, math.MaxInt64, math.MinInt64} {
			s := strconv.FormatInt(v, 10)
			all = append(all, assignment{k, s, s})
		}
		for _, v := range append(append([]string(nil), badNumbers...), "1.5", "0.0", "1e3", "true") {
			all = append(all, assignment{k, v, ""})
		}
	}
	for _, k := range floatKeys {
		for _, v := range []float64{0, 0.1, 0.2, 1, 100, 0.05} {
			s := strconv.FormatFloat(v, 'g', -1, 64)
			all = append(all, assignment{k, s, s})
		}
		for _, v := range badNumbers {
			if v != "9223372036854775808999" {
				all = append(all, assignment{k, v, ""})
			}
		}
	}
	for _, k := range boolKeys {
		for _, w := range sortedKeys(spellings) {
			all = append(all, assignment{k, w, spellings[w]}, assignment{k, strings.ToUpper(w), spellings[w]}, assignment{k, strings.Title(w), spellings[w]})
		}
		for _, w := range badBooleans {
			all = append(all, assignment{k, w, ""})
		}
	}
	c.Cases("values", len(all), func(cs *vk.Case) {
		a := all[cs.I]
		cs.Describe(a)
		apply(cs, &ddl.TableStorageParameters{}, map[string]string{}, []assignment{a})
		cs.Nontrivial(a.Key + "=" + a.Value)
		cs.Hist("parameter", a.Key)
	})
}

func assignments(c *vk.Ctx) {
	c.Cases("generated", c.N(1500, 60000), func(cs *vk.Case) {
		var l []assignment
		for n := 1 + cs.R.Intn(25); n > 0; n-- {
			a := anyAssignment(cs.R)
			for _, k := range floatKeys {
				if a.Key == k && a.Value == "9223372036854775808999" {
					a.Want = "9.223372036854776e+21"
				}
			}
			l = append(l, a)
		}
		cs.Describe(l)
		// two tables, whose parameters have nothing to do with each other
		p, q := &ddl.TableStorageParameters{}, &ddl.TableStorageParameters{}
		mp, mq := map[string]string{}, map[string]string{}
		if apply(cs, p, mp, l) && apply(cs, q, mq, l[len(l)/2:]) && !reflect.DeepEqual(parameters(p), mp) {
			cs.Violatef("setting parameters of another table changed those of this one")
		}
		cs.Nontrivial(vk.JSON(l))
	})
}

var dollar = regexp.MustCompile(`\$([a-zA-Z_][a-zA-Z_0-9]*)?\$`)

// A reader of SQL

type token struct {
	kind byte // w: word or symbol, n: quoted name, s: string
	text string
}

func (t token) String() string { return string(t.kind) + ":" + t.text }

// tokens reads SQL like PostgreSQL does. Names that are quoted keep all of their
// characters, other words are folded.
func tokens(sql string) ([]token, error) {
	var l []token
	for i := 0; i < len(sql); {
		c := sql[i]
		switch {
		case isSpace(c):
			i++
		case c == '"' || c == '\'':
			var b strings.Builder
			j := i + 1
			for {
				if j >= len(sql) {
					return nil, fmt.Errorf("unterminated quotes at byte %d", i)
				}
				if sql[j] == c {
					if j+1 < len(sql) && sql[j+1] == c {
						j++
					} else {
						break
					}
				}
				b.WriteByte(sql[j])
				j++
			}
			k := byte('n')
			if c == '\'' {
				k = 's'
			}
			l = append(l, token{k, b.String()})
			i = j + 1
		case strings.HasPrefix(sql[i:], "--") || strings.HasPrefix(sql[i:], "/*"):
			return nil, fmt.Errorf("comment at byte %d", i)
		case isIdent(c) || c >= 0x80:
			j := i
			for j < len(sql) && (isIdent(sql[j]) || sql[j] >= 0x80) {
				j++
			}
			l = append(l, token{'w', strings.ToUpper(sql[i:j])})
			i = j
		default:
			l = append(l, token{'w', sql[i : i+1]})
			i++
		}
	}
	return l, nil
}

type reader struct {
	l   []token
	i   int
	err error
}

func (r *reader) peek() token {
	if r.i < len(r.l) {
		return r.l[r.i]
	}
	return token{'e', "end"}
}

func (r *reader) fail(want string) {
	if r.err == nil {
		r.err = fmt.Errorf("expected %s at token %d, which is %s", want, r.i, r.peek())
	}
}

// words consumes them if all of them are next
func (r *reader) has(s string) bool {
	f := strings.Fields(s)
	for i, w := range f {
		if r.i+i >= len(r.l) || r.l[r.i+i] != (token{'w', w}) {
			return false
		}
	}
	r.i += len(f)
	return true
}

func (r *reader) need(s string) {
	if !r.has(s) {
		r.fail(s)
	}
}

func (r *reader) name() string {
	t := r.peek()
	if t.kind != 'n' {
		r.fail("a quoted name")
		return ""
	}
	r.i++
	return t.text
}

// until collects tokens, outside of parentheses, until one of the stops
func (r *reader) until(stops ...string) []token {
	depth, from := 0, r.i
	for r.i < len(r.l) {
		t := r.l[r.i]
		if t.kind == 'w' {
			if depth == 0 {
				for _, s := range stops {
					f := strings.Fields(s)
					ok := r.i+len(f) <= len(r.l)
					for k := 0; ok && k < len(f); k++ {
						ok = r.l[r.i+k] == token{'w', f[k]}
					}
					if ok {
						return r.l[from:r.i]
					}
				}
			}
			switch t.text {
			case "(", "[":
				depth++
			case ")", "]":
				depth--
			}
		}
		r.i++
	}
	r.fail(strings.Join(stops, " or "))
	return nil
}

func sameTokens(got []token, want string) bool {
	w, err := tokens(want)
	if err != nil {
		panic("monitor panic: " + want + ": " + err.Error())
	}
	return len(got) == len(w) && (len(w) == 0 || reflect.DeepEqual(got, w))
}

var sqlNames = []string{"a", "A", "Weird Name", `q"uote`, `""`, `"`, "it's", "select", "", " ", "a.b", "tab\t", "new\nline", "--", "/*", ";", "ünï", "日本", "$$", `back\slash`, `a"; DROP TABLE b; --`, "(", "a,b", "%s", "table", `x""y`, `"x"`}

func sqlName(r *rand.Rand) string {
	if flip(r) {
		return vk.Stretch(r, sqlNames[r.Intn(len(sqlNames))], 63)
	}
	return fmt.Sprintf("n%d", r.Intn(100))
}

var types_ = []string{"integer", "text", "character varying(50)", "numeric(10,2)", "timestamp with time zone", "integer[]", `"My Type"`, "double precision"}
var defaults = []string{"", "0", "now()", "'x'::text", "'it''s'::text", "nextval('a_seq'::regclass)", "'(,)'::text", "ARRAY[1, 2]", "(1 + 2)",
	"NULL", "NULL::character varying", "'NULL'::text", "'DEFAULT'", "true", "false", "-1", "'-1'::integer", "1.5", "CURRENT_TIMESTAMP", "CURRENT_USER", "''", "''::text", "'{}'::text[]", "(NOT true)", "not_null()", "'\\x00'::bytea", "E'\\\\'"}

var literals = []string{"''", "'x'", "'it''s'", "'two  spaces'", "' '", "'\t'", "'one\ntwo'", "'\r\n'", "'-- x'", "'/*'", "';'", `'"'`, `E'a\\b'`, "'$$'", "'%s'", "'日本'", "'NOT NULL'", "'a\n-- b\nc'"}

// anyDefault is an expression, as the server prints it
func anyDefault(r *rand.Rand) string {
	g := &dgen.G{R: r, PG: true}
	switch r.Intn(6) {
	case 0:
		return "(" + g.Expr(2, false) + ")"
	case 1:
		return g.Ident() + "(" + g.Expr(1, false) + ")"
	case 2, 3:
		s := literals[r.Intn(len(literals))]
		if r.Intn(20) == 0 {
			s = "'" + vk.Stretch(r, "a\nb ", 20000) + "'"
		}
		return s + []string{"", "::text", "::character varying", `::"My Type"`}[r.Intn(4)]
	}
	return defaults[r.Intn(len(defaults))]
}

// generate checks what's true for all of the generators
func generate(cs *vk.Case, x interface{ ToSQL() (string, error) }) (string, *reader) {
	before := vk.JSON(x)
	cs.Describe(x)
	sql, err := x.ToSQL()
	if err != nil {
		cs.Violatef("generating SQL of %s failed: %v", before, err)
		return "", nil
	}
	if again, err := x.ToSQL(); err != nil || again != sql {
		cs.Violatef("generating again resulted in %q (%v) instead of %q", again, err, sql)
	}
	if after := vk.JSON(x); after != before {
		cs.Violatef("generating SQL changed the description from %s to %s", before, after)
	}
	l, err := tokens(sql)
	if err != nil {
		cs.Violatef("the SQL can't be read: %v\n%s", err, sql)
		return sql, nil
	}
	cs.Nontrivial(sql)
	cs.Count("tokens of SQL", len(l))
	if len(sql) < 200 {
		cs.Sample(sql)
	}
	return sql, &reader{l: l}
}

// finish demands the end of a single statement
func (r *reader) finish() {
	r.need(";")
	if r.i != len(r.l) {
		r.fail("the end")
	}
}

func tableSQL(c *vk.Ctx) {
	c.Cases("generated", c.N(1000, 30000), func(cs *vk.Case) {
		t := &ddl.Table{Schema: "s", Name: sqlName(cs.R), Owner: "o", Comment: maybe(cs.R)}
		n := vk.Several(cs.R, 6, 500)
		for i := 0; i < n; i++ {
			t.Columns = append(t.Columns, &ddl.Column{Name: sqlName(cs.R), Type: types_[cs.R.Intn(len(types_))], NotNull: flip(cs.R), Default: anyDefault(cs.R), Comment: maybe(cs.R)})
		}
		for k := vk.Several(cs.R, 4, 60); k > 0; k-- {
			_, check := (&dgen.G{R: cs.R, PG: true}).Check()
			t.Checks = append(t.Checks, check)
		}
		sql, r := generate(cs, t)
		if r == nil {
			return
		}
		r.need("CREATE TABLE")
		if s := r.name(); s != t.Name {
			cs.Violatef("the table is called %q instead of %q: %s", s, t.Name, sql)
		}
		r.need("(")
		for i, col := range t.Columns {
			if i > 0 {
				r.need(",")
			}
			if s := r.name(); s != col.Name {
				cs.Violatef("column %d is called %q instead of %q: %s", i, s, col.Name, sql)
			}
			if typ := r.until("NOT NULL", "DEFAULT", ",", ")"); r.err == nil && !sameTokens(typ, col.Type) {
				cs.Violatef("the type of column %d is %v instead of %q: %s", i, typ, col.Type, sql)
			}
			var notNull bool
			var def []token
			for r.err == nil {
				if r.has("NOT NULL") {
					notNull = true
				} else if r.has("DEFAULT") {
					def = r.until(",", ")", "NOT NULL")
				} else {
					break
				}
			}
			if r.err == nil && (notNull != col.NotNull || !sameTokens(def, col.Default)) {
				cs.Violatef("column %d is not null: %v, default %v: %s", i, notNull, def, sql)
			}
		}
		for i, check := range t.Checks {
			if i > 0 || n > 0 {
				r.need(",")
			}
			r.need("CHECK (")
			if e := r.until(")"); r.err == nil && !sameTokens(e, check.Expression) {
				cs.Violatef("the expression of check %d is %v instead of %q: %s", i, e, check.Expression, sql)
			}
			r.need(")")
		}
		r.need(")")
		r.finish()
		if r.err != nil {
			cs.Violatef("the SQL isn't as expected, %v: %s", r.err, sql)
		}
	})
}

func keySQL(c *vk.Ctx) {
	c.Cases("generated", c.N(1000, 30000), func(cs *vk.Case) {
		x := &ddl.Index{Schema: "s", Table: sqlName(cs.R), Name: sqlName(cs.R), Primary: true, Unique: flip(cs.R), Using: "btree"}
		for n := 1 + vk.Several(cs.R, 4, 60); n > 0; n-- {
			x.Keys = append(x.Keys, &ddl.IndexKey{Column: sqlName(cs.R)})
		}
		sql, r := generate(cs, x)
		if r == nil {
			return
		}
		r.need("ALTER TABLE")
		if s := r.name(); s != x.Table {
			cs.Violatef("the table is called %q instead of %q: %s", s, x.Table, sql)
		}
		r.need("ADD")
		if x.Name != "" {
			r.need("CONSTRAINT")
			if s := r.name(); s != x.Name {
				cs.Violatef("the key is called %q instead of %q: %s", s, x.Name, sql)
			}
		}
		r.need("PRIMARY KEY (")
		for i, k := range x.Keys {
			if i > 0 {
				r.need(",")
			}
			if s := r.name(); s != k.Column {
				cs.Violatef("column %d of the key is %q instead of %q: %s", i, s, k.Column, sql)
			}
		}
		r.need(")")
		r.finish()
		if r.err != nil {
			cs.Violatef("the SQL isn't as expected, %v: %s", r.err, sql)
		}
	})
}

func triggerSQL(c *vk.Ctx) {
	c.Cases("generated", c.N(2000, 60000), func(cs *vk.Case) {
		g := &dgen.G{R: cs.R, PG: true}
		_, t := g.Trigger("", "", nil)
		plain := flip(cs.R)
		t.Schema = "s"
		if !plain {
			t.Name, t.Table = sqlName(cs.R), sqlName(cs.R)
			for i := range t.Columns {
				t.Columns[i] = sqlName(cs.R)
			}
		}
		if flip(cs.R) { // every combination of flags, whether PostgreSQL has a use for it or not
			t.Constraint, t.Deferrable, t.InitiallyDeferred, t.ForEachRow = flip(cs.R), flip(cs.R), flip(cs.R), flip(cs.R)
		}
		sql, r := generate(cs, t)
		if r == nil {
			return
		}
		got := &ddl.Trigger{Schema: t.Schema}
		r.need("CREATE")
		got.Constraint = r.has("CONSTRAINT")
		r.need("TRIGGER")
		got.Name = r.name()
		switch {
		case r.has("BEFORE"):
			got.When = "BEFORE"
		case r.has("AFTER"):
			got.When = "AFTER"
		case r.has("INSTEAD OF"):
			got.When = "INSTEAD OF"
		default:
			r.fail("when")
		}
		for {
			switch {
			case r.has("INSERT"):
				got.Insert = true
			case r.has("DELETE"):
				got.Delete = true
			case r.has("TRUNCATE"):
				got.Truncate = true
			case r.has("UPDATE"):
				got.Update = true
				if r.has("OF") {
					got.Columns = append(got.Columns, r.name())
					for r.err == nil && r.has(",") {
						got.Columns = append(got.Columns, r.name())
					}
				}
			default:
				r.fail("an event")
			}
			if r.err != nil || !r.has("OR") {
				break
			}
		}
		r.need("ON")
		got.Table = r.name()
		if !r.has("NOT DEFERRABLE") && r.has("DEFERRABLE") {
			got.Deferrable = true
		}
		if r.has("INITIALLY DEFERRED") {
			got.InitiallyDeferred = true
		} else {
			r.has("INITIALLY IMMEDIATE")
		}
		if r.has("FOR") {
			r.has("EACH")
			if got.ForEachRow = r.has("ROW"); !got.ForEachRow {
				r.need("STATEMENT")
			}
		}
		r.need("EXECUTE")
		if !r.has("PROCEDURE") {
			r.need("FUNCTION")
		}
		if w := r.peek(); w.kind == 'w' && w.text == strings.ToUpper(t.Function) {
			got.Function = t.Function
		}
		r.i++
		r.need("( )")
		r.finish()
		if r.err != nil {
			cs.Violatef("the SQL isn't as expected, %v: %s", r.err, sql)
			return
		}
		if !reflect.DeepEqual(got, t) {
			cs.Violatef("the SQL means %s, but the trigger is %s: %s", vk.JSON(got), vk.JSON(t), sql)
		}
		if plain && !(t.Deferrable && !t.InitiallyDeferred) {
			// the parser knows neither quotes nor the end of a statement. DEFERRABLE on
			// its own is a known limitation of it.
			stmt := strings.TrimSuffix(strings.TrimSpace(strings.Replace(sql, `"`, "", -1)), ";")
			back, err := ddl.ParseTrigger(stmt)
			if err != nil {
				cs.Violatef("the parser rejects the SQL: %v\n%s", err, stmt)
				return
			}
			back.Schema = t.Schema
			if !reflect.DeepEqual(back, t) {
				cs.Violatef("the parser understands the SQL as %s, but the trigger is %s: %s", vk.JSON(back), vk.JSON(t), sql)
			}
			cs.Count("triggers read by the parser", 1)
		}
	})
}

func functionSQL(c *vk.Ctx) {
	bodies := []string{"BEGIN\n  NEW.a = 1;\n  RETURN NEW;\nEND;\n", "SELECT 1", "", "SELECT '$1', \"x\"\n", "-- ü\n", "SELECT 'it''s' \\ %s ${x}", "\n\n", "$", "SELECT $1 + $2;\n", "$$", "$$ LANGUAGE 'sql';", "$body$", "$body0$", "$body0", "$q$", "$_$ x $_$", "$a"}
	c.Cases("generated", c.N(300, 5000), func(cs *vk.Case) {
		g := &dgen.G{R: cs.R, PG: true}
		f := &ddl.Function{Schema: "s", Name: g.Ident(), Returns: types_[cs.R.Intn(len(types_))], Language: []string{"sql", "plpgsql", "c", "plPerl", "R"}[cs.R.Intn(5)]}
		for n := cs.R.Intn(3); n >= 0; n-- {
			f.Definition += vk.Stretch(cs.R, bodies[cs.R.Intn(len(bodies))], 100000)
		}
		if cs.R.Intn(6) == 0 {
			// whatever the quotes are, the body has them, too
			for n := vk.Size(cs.R, 40); n > 0; n-- {
				cs.Describe(f)
				sql, err := f.ToSQL()
				q := dollar.FindString(sql)
				if err != nil || q == "" {
					break
				}
				if cs.R.Intn(8) == 0 {
					q = q[:len(q)-1]
				}
				f.Definition += q + []string{"", "", " ", "\n", ";"}[cs.R.Intn(5)]
				cs.Count("adversarial bodies", 1)
			}
		}
		cs.Describe(f)
		sql, err := f.ToSQL()
		if err != nil {
			cs.Violatef("generating SQL failed: %v", err)
			return
		}
		if again, err := f.ToSQL(); err != nil || again != sql {
			cs.Violatef("generating again resulted in %q (%v) instead of %q", again, err, sql)
		}
		m := dollar.FindStringIndex(sql)
		if m == nil {
			cs.Violatef("the body isn't between dollar quotes: %q", sql)
			return
		}
		// the body ends with the next occurrence of what it begins with
		end := strings.Index(sql[m[1]:], sql[m[0]:m[1]])
		if end < 0 {
			cs.Violatef("the body isn't between dollar quotes: %q", sql)
			return
		}
		if body := sql[m[1] : m[1]+end]; body != f.Definition && body != "\n"+f.Definition {
			cs.Violatef("the body is %q instead of %q: %s", body, f.Definition, sql)
			return
		}
		l, err := tokens(sql[:m[0]] + " $ $ " + sql[m[1]+end+m[1]-m[0]:])
		if err != nil {
			cs.Violatef("the SQL can't be read: %v\n%s", err, sql)
			return
		}
		r := &reader{l: l}
		r.need("CREATE OR REPLACE FUNCTION")
		if t := r.peek(); t.text != strings.ToUpper(f.Name) && !(t.kind == 'n' && t.text == f.Name) {
			r.fail("the function's name")
		}
		r.i++
		r.need("( ) RETURNS")
		if typ := r.until("AS", "LANGUAGE"); r.err == nil && !sameTokens(typ, f.Returns) {
			cs.Violatef("the function returns %v instead of %q: %s", typ, f.Returns, sql)
		}
		r.need("AS $ $ LANGUAGE")
		if t := r.peek(); t.text != f.Language && !(t.kind == 'w' && t.text == strings.ToUpper(f.Language) && f.Language == strings.ToLower(f.Language)) {
			r.fail("the language")
		}
		r.i++
		r.finish()
		if r.err != nil {
			cs.Violatef("the SQL isn't as expected, %v: %s", r.err, sql)
		}
		cs.Nontrivial(sql)
	})
}
