//go:build go1.22

package pgfake

import (
	"fmt"
	"math/rand"
	"testing"
)

// The same question, asked in different ways, has the same answer.
var sameAnswers = [][]string{
	{
		`SELECT n.nspname AS "Name", pg_catalog.pg_get_userbyid(n.nspowner) AS "Owner" FROM pg_catalog.pg_namespace n WHERE n.nspname !~ '^pg_' AND n.nspname <> 'information_schema' ORDER BY "Name"`,
		`SELECT nspname, pg_get_userbyid(nspowner) FROM pg_namespace WHERE NOT (nspname ~ '^pg_' OR nspname = 'information_schema') ORDER BY 1`,
		`WITH s AS (SELECT nspname, nspowner FROM pg_catalog.pg_namespace WHERE nspname NOT LIKE 'pg\_%') SELECT s.nspname, pg_get_userbyid(s.nspowner) FROM s WHERE s.nspname != 'information_schema' ORDER BY s.nspname`,
		`WITH s(a, b) AS NOT MATERIALIZED (SELECT nspname, nspowner FROM pg_namespace), u AS (SELECT * FROM s WHERE a <> ALL (ARRAY['information_schema'])) SELECT u.a, pg_get_userbyid(u.b) FROM u WHERE left(a, 3) <> 'pg_' ORDER BY a`,
		`SELECT x.n, r.rolname FROM (SELECT nspname, nspowner FROM pg_namespace) AS x(n, oid) JOIN (SELECT oid, rolname FROM pg_roles) r USING (oid) WHERE n NOT IN ('information_schema') AND substr(n, 1, 3) != 'pg_' ORDER BY x.n`,
		`SELECT n.nspname, r.rolname FROM pg_namespace n, LATERAL (SELECT rolname FROM pg_roles WHERE oid = n.nspowner) r WHERE n.nspname !~ '^(pg_|information_schema$)' ORDER BY 1`,
		`SELECT n.nspname, max(r.rolname) FROM pg_namespace n JOIN pg_roles r ON r.oid = n.nspowner GROUP BY n.nspname HAVING n.nspname !~ '^(pg_|information_schema$)' ORDER BY 1`,
	},
	{
		`SELECT EXISTS (SELECT 1 FROM pg_catalog.pg_class c JOIN pg_catalog.pg_namespace n ON n.oid = c.relnamespace WHERE n.nspname = 'pg_catalog' AND c.relname = 'pg_sequence')`,
		`SELECT count(*) > 0 FROM pg_catalog.pg_class c JOIN pg_catalog.pg_namespace n ON n.oid = c.relnamespace WHERE n.nspname = 'pg_catalog' AND c.relname = 'pg_sequence'`,
		`SELECT to_regclass('pg_catalog.pg_sequence') IS NOT NULL`,
		`SELECT current_setting('server_version_num')::int >= 100000`,
		`SELECT count(DISTINCT c.oid) FILTER (WHERE c.relname = 'pg_sequence') = 1 FROM pg_class c`,
		`SELECT bool_or(c.relname = 'pg_sequence') FROM pg_class c`,
	},
	{
		`SELECT UNNEST(c.reloptions) FROM pg_catalog.pg_namespace n JOIN pg_catalog.pg_class c ON n.oid = c.relnamespace WHERE n.nspname = $1 AND c.relname = $2 ORDER BY 1`,
		`SELECT o FROM pg_class c JOIN pg_namespace n ON n.oid = c.relnamespace, unnest(c.reloptions) AS o WHERE (n.nspname = $1) AND (c.relname = $2) ORDER BY o`,
		`SELECT o.x FROM pg_class c JOIN pg_namespace n ON n.oid = c.relnamespace CROSS JOIN LATERAL unnest(c.reloptions) WITH ORDINALITY AS o(x, i) WHERE n.nspname = $1 AND c.relname = $2 AND o.i > 0 ORDER BY 1`,
		`SELECT x FROM (SELECT unnest(reloptions) AS x, relname, relnamespace FROM pg_class) s JOIN pg_namespace n ON relnamespace = n.oid WHERE nspname = $1 AND s.relname = $2 ORDER BY x COLLATE "C"`,
	},
	{
		`SELECT c.relname, array_to_string(c.reloptions, ' ') FROM pg_class c JOIN pg_namespace n ON n.oid = c.relnamespace WHERE n.nspname = $1 AND c.relname = $2`,
		`SELECT c.relname, string_agg(o, ' ' ORDER BY i) FROM pg_class c JOIN pg_namespace n ON n.oid = c.relnamespace LEFT JOIN LATERAL unnest(c.reloptions) WITH ORDINALITY o(o, i) ON true WHERE n.nspname = $1 AND c.relname = $2 GROUP BY c.oid, c.relname`,
		`SELECT DISTINCT ON (c.oid) c.relname, array_to_string(c.reloptions, E' ') FROM pg_class c JOIN pg_namespace n ON n.oid = c.relnamespace WHERE n.nspname = $1 AND c.relname = $2 ORDER BY c.oid`,
		`SELECT regexp_replace(format('%s.%I', n.nspname, c.relname), E'^(.*)\\.(.*)$', '\2'), array_to_string(c.reloptions, ' ') FROM pg_class c JOIN pg_namespace n ON n.oid = c.relnamespace WHERE n.nspname = $1 AND c.relname = $2 AND n.nspname = ANY (current_schemas(false))`,
		`SELECT c.oid::regclass::text, array_to_string(c.reloptions, ' ') FROM pg_class c JOIN pg_namespace n ON n.oid = c.relnamespace WHERE n.nspname = $1 AND c.relname = $2`,
		`SELECT c.relname, array_to_string((SELECT array_agg(o) FROM unnest(c.reloptions) o), ' ') FROM pg_class c JOIN pg_namespace n ON n.oid = c.relnamespace WHERE n.nspname = $1 AND c.relname = $2`,
	},
}

func TestSameAnswers(t *testing.T) {
	for _, legacy := range []bool{false, true} {
		d := &Database{Legacy: legacy, SearchPath: "a", Path: []string{"a"}, Version: "x",
			Schemas: []Schema{{Name: "a", Owner: "o"}, {Name: "b", Owner: "p"}, {Name: "pg", Owner: "o"}},
			Relations: []Relation{{Kind: "r", Schema: "a", Name: "x", Owner: "o", Params: []string{"fillfactor=10", "a=b"}, Columns: []Column{{Name: "c", Type: "integer"}}},
				{Kind: "r", Schema: "a", Name: "y", Owner: "o", Columns: []Column{{Name: "c", Type: "integer"}}}}}
		db := Build(rand.New(rand.NewSource(1)), d)
		for _, l := range sameAnswers {
			want := ""
			for i, q := range l {
				n, cols, err := db.Describe(q)
				if err != nil {
					t.Fatal(q, *err)
				}
				res, err := db.Exec(q, []string{"a", "x"}[:n])
				if err != nil {
					t.Fatal(q, *err)
				}
				if len(cols) != len(res.Cols) {
					t.Fatal(q)
				}
				got := fmt.Sprint(res.Rows)
				if i == 0 {
					want = got
					t.Log(want)
				}
				if got != want {
					t.Errorf("%s\n%s\n%s", q, got, want)
				}
			}
		}
	}
}
