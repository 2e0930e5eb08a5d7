// Tests of the stand-in server's SQL engine: bash /verif/tools/pgfake/test.sh
package pgfake

import (
	"fmt"
	"math/rand"
	"testing"
)

func TestEngine(t *testing.T) {
	db := Build(rand.New(rand.NewSource(1)), &Database{SearchPath: "public", Path: []string{"public"}, Timezone: "UTC", Version: "11.1",
		Schemas: []Schema{{Name: "public", Owner: "o"}, {Name: "pgutil", Owner: "o"}, {Name: "Zed", Owner: "p"}}})
	own := "nspname NOT IN ('pg_catalog','information_schema','pg_toast','pg_temp_1','pg_toast_temp_1')"
	for _, c := range [][2]string{
		{`select 1+2, 5-3, 2*3`, "[[3 2 6]]"},
		{`select 'a' || 'b'`, "[[ab]]"},
		{`select 'a' || null`, "[[NULL]]"},
		{`select 'pg_x' like 'pg_%', 'pgutil' like 'pg_%', 'pgutil' like 'pg\_%', 'pgutil' not like 'pg!_%' escape '!'`, "[[t t f t]]"},
		{`select 'ABC' ilike 'abc', 'ABC' like 'abc', 'abc' ~~ 'a_c', 'abc' !~~ '%z'`, "[[t f t t]]"},
		{`select 'x' ~ '^x', 'pgutil' !~ '^pg_', 'X' ~* 'x'`, "[[t t t]]"},
		{`select 3 between 1 and 3, 3 not between 1 and 3`, "[[t f]]"},
		{`select case when 1=2 then 'a' when 1=1 then 'b' else 'c' end, case 3 when 3 then 'x' end, case 3 when 4 then 'x' end`, "[[b x NULL]]"},
		{`select cast('5' as int) + 1, '7'::int`, "[[6 7]]"},
		{`select null is null, 1 is not null, true is not true, null is not true, 1 is distinct from null, null is not distinct from null`, "[[t t f t t t]]"},
		{`select 1 in (1,2), 3 not in (1,2), null in (1), 1 in (2,null)`, "[[t t NULL NULL]]"},
		{`select 1 = any(array[1,2]), 3 <> all(array[1,2]), 3 = any(array[1,null])`, "[[t t NULL]]"},
		{`select 'a' = any('{a,b}'::text[])`, "[[t]]"},
		{`select lower('AB'), upper('ab'), length('héé'), trim(' x '), ltrim('xxa','x'), replace('aba','a','c'), substr('hello',2,3), left('hello',2), right('hello',2), starts_with('abc','ab'), concat('a',null,'b')`,
			"[[ab AB 3 x a cbc ell he lo t ab]]"},
		{`select substring('hello' from 2 for 2)`, "[[el]]"},
		{`select quote_ident('Ab'), quote_ident('ab'), nullif(1,1), coalesce(null,2)`, `[["Ab" ab NULL 2]]`},
		{`select nspname from pg_namespace where ` + own + ` order by nspname collate "C"`, "[[Zed] [pgutil] [public]]"},
		{`select nspname from pg_namespace where nspname = any(array['Zed','public']) order by nspname desc offset 1`, "[[Zed]]"},
		{`select n.nspname from (select nspname from pg_namespace where ` + own + `) n where n.nspname like 'p%' order by n.nspname`, "[[pgutil] [public]]"},
		{`select nspname from pg_namespace where nspname like 'Zed' union all select 'x' order by nspname`, "[[Zed] [x]]"},
		{`select distinct nspowner = nspowner from pg_namespace`, "[[t]]"},
		{`select 1 union select 1`, "[[1]]"},
		{`select left.nspname from pg_namespace left`, "ERR"},
		{`select nope from pg_namespace`, "ERR"},
		{`select nspname from nope`, "ERR"},
		{`selct 1`, "ERR"},
		{`select n.nspname from pg_namespace n join pg_namespace m on m.oid=n.oid and m.nspname='Zed'`, "[[Zed]]"},
		{`select n.nspname, m.nspname from pg_namespace n left outer join pg_namespace m on m.oid=n.oid and m.nspname='pgutil' where n.nspname in ('Zed','pgutil') order by n.nspname nulls first`, "[[Zed NULL] [pgutil pgutil]]"},
		{`select nspname from pg_namespace where exists (select 1 from pg_authid r where r.oid = nspowner and r.rolname = 'p') order by 1`, "[[Zed]]"},
		{`select nspname from pg_namespace where nspowner = (select oid from pg_authid where rolname='p')`, "[[Zed]]"},
		{`select nspname from pg_namespace where nspowner in (select oid from pg_authid where rolname='p')`, "[[Zed]]"},
	} {
		res, err := db.Exec(c[0], nil)
		got := "ERR"
		if err == nil {
			var rows []interface{}
			for _, r := range res.Rows {
				var row []string
				for _, v := range r {
					if v == nil {
						row = append(row, "NULL")
					} else {
						row = append(row, text(v))
					}
				}
				rows = append(rows, row)
			}
			got = fmt.Sprint(rows)
		}
		if got != c[1] {
			t.Errorf("%s: got %s, want %s (%v)", c[0], got, c[1], err)
		}
		if err == nil {
			_, cols, derr := db.Describe(c[0])
			if derr != nil || len(cols) != len(res.Cols) {
				t.Errorf("%s: description %v %v", c[0], cols, derr)
			}
		}
	}
}
