//go:build go1.22

package pgnet

import (
	"bytes"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/runbook"
	"github.com/sjansen/pgutil/internal/sys"
	"github.com/sjansen/pgutil/internal/zverif/jn"
	"github.com/sjansen/pgutil/internal/zverif/pgfake"
	"github.com/sjansen/pgutil/internal/zverif/vk"
)

// sqlCodes are errors, without exception
var sqlCodes = []string{"57014", "XX000", "42501", "40001", "42P01", "23505", "42P07", "42P06", "42710", "42723", "57P01", "25P02", "40P01", "55P03",
	"22012", "02000", "53300", "08006", "P0001", "00000", "01000", "HV000"}

func init() {
	vk.Register("C21", "runbooks", func(c *vk.Ctx) { sqlTasks(c, c.N(500, 12000)) })
	vk.Register("C05", "pg", func(c *vk.Ctx) {
		c.Mute = true
		sqlTasks(c, c.N(40, 1000))
	})
}

type sqlTarget struct {
	ID, User, Database, Password string
	Server                       int
	Retries, Failures            int
	Refuse                       bool
	SSLMode                      string
	SSL                          bool
}

type sqlTask struct {
	ID, Target string
	After      []string
	SQL        string
	Results    int    // number of statements
	Fail       int    // the statement that fails, from 1
	Fault      string // "error" or "drop"
	Code       string // of the error
	Ms         int
	Message    string
	Class      string
}

var sqlTexts = []string{"SELECT 1", "SELECT now();\nSELECT 2", "INSERT INTO t VALUES ('it''s', $$x$$)", "-- only a comment", "CREATE FUNCTION f() RETURNS text AS $f$ SELECT 'a;b' $f$ LANGUAGE sql",
	"SELECT $1", "SELECT '%s %d', '日本', \"Weird Name\"", "  \n\tSELECT 1\n  ", ";;", "UPDATE t SET a = E'\\n' WHERE b <> '\\'", "BEGIN; DELETE FROM t; ROLLBACK;", "SHOW search_path", " ", "\ufeffSELECT 1", "SELECT 1;\r\nSELECT 2;\r\n", "/* a */ SELECT 1 /* b */", "\\i file.sql", "SELECT 1 -- end", "SELECT 1;\n\n", "select 1", "SELECT\u00a01", "COPY t FROM '/x'", "SELECT ''", "SET search_path TO \"A\", b", "COMMIT", "SELECT '${x} {{y}} %n $HOME'", "DO $$ BEGIN NULL; END $$"}

func sqlTasks(ctx *vk.Ctx, n int) {
	certificates(ctx)
	ctx.Cases("case", n, func(cs *vk.Case) {
		cleanEnv()
		r := cs.R
		var targets []sqlTarget
		nservers := 1 + r.Intn(3)
		for i, n := 0, 1+vk.Several(r, 4, 16); i < n; i++ {
			t := sqlTarget{ID: fmt.Sprintf("db%d", i), User: fmt.Sprintf("user%d", i), Server: r.Intn(nservers), Database: []string{"one", "two", "Weird DB", fmt.Sprintf("user%d", i), "db0"}[r.Intn(5)]}
			if r.Intn(3) == 0 {
				t.Password = "pw"
			}
			targets = append(targets, t)
		}
		hosts := make([]string, nservers)
		for i := range hosts {
			hosts[i] = []string{"127.0.0.1", "localhost"}[r.Intn(2)]
		}
		secure := make([]bool, nservers)
		for i := range secure {
			secure[i] = r.Intn(4) == 0
		}
		for i := range targets {
			t := &targets[i]
			t.SSLMode = []string{"disable", "disable", "allow"}[r.Intn(3)]
			if secure[t.Server] {
				t.SSLMode = []string{"disable", "prefer", "require", "verify-full"}[r.Intn(4)]
				if t.Password != "" && r.Intn(2) == 0 {
					t.SSLMode = ""
				}
				t.SSL = t.SSLMode != "disable"
			}
			if r.Intn(6) == 0 {
				t.Retries = 1 + r.Intn(3)
			}
			if len(targets) == 1 && t.SSLMode != "prefer" && t.SSLMode != "allow" && r.Intn(2) == 0 {
				t.Failures = r.Intn(2)
				if t.Failures > t.Retries {
					t.Failures = t.Retries
				}
			}
		}
		mode := []string{"", "", "task", "task", "start"}[r.Intn(5)]
		if mode == "start" {
			t := &targets[r.Intn(len(targets))]
			t.Refuse, t.SSLMode, t.SSL, t.Retries, t.Failures = true, "disable", false, 0, 0
		}
		var tasks []sqlTask
		for i, n := 0, 1+vk.Several(r, 10, 80); i < n; i++ {
			k := sqlTask{ID: fmt.Sprintf("t%d", i), Target: targets[r.Intn(len(targets))].ID, SQL: sqlTexts[r.Intn(len(sqlTexts))], Results: r.Intn(4)}
			k.SQL = vk.Stretch(r, k.SQL, 300000)
			if r.Intn(3) > 0 {
				// otherwise several tasks execute the same
				k.SQL += fmt.Sprintf(" -- task %d", i)
			}
			for j := 0; j < i; j++ {
				if r.Intn(3) == 0 && (i-j < 10 || r.Intn(10) == 0) {
					k.After = append(k.After, tasks[j].ID)
				}
			}
			if r.Intn(2) == 0 {
				k.Ms = r.Intn(4)
			}
			k.Class = []string{"", "pg", "pg/exec"}[r.Intn(3)]
			k.Class = ""
			tasks = append(tasks, k)
		}
		if mode == "task" {
			for n := 1 + r.Intn(2); n > 0; n-- {
				k := &tasks[r.Intn(len(tasks))]
				k.Fault = []string{"error", "error", "drop"}[r.Intn(3)]
				k.Code = pick(r, sqlCodes)
				if k.Results == 0 {
					k.Results = 1
				}
				k.Fail = 1 + r.Intn(k.Results)
			}
		}
		// the same SQL has the same results
		for i := range tasks {
			for j := 0; j < i; j++ {
				if tasks[i].SQL == tasks[j].SQL && tasks[i].Target == tasks[j].Target {
					tasks[i].SQL += fmt.Sprintf(" -- task %d", i)
				}
			}
		}
		find := func(user, sql string) *sqlTask {
			for i := range tasks {
				k := &tasks[i]
				for _, t := range targets {
					if t.ID == k.Target && t.User == user && k.SQL == sql {
						return k
					}
				}
			}
			return nil
		}
		cs.Describe(map[string]interface{}{"targets": targets, "tasks": tasks})
		var servers []*pgfake.Server
		for i := 0; i < nservers; i++ {
			s := &pgfake.Server{
				Auth: []string{"", "password", "md5"}[r.Intn(3)], Password: "pw",
				Describe: func(c *pgfake.Conn, sql string) (int, []pgfake.Col, *pgfake.Error) {
					return 0, nil, nil
				},
			}
			if secure[i] {
				s.TLS = configs["good "+hosts[i]]
			}
			if f := targets[0].Failures; f > 0 {
				s.Fail = func(n int) string {
					if n <= f {
						return "drop"
					}
					return ""
				}
			}
			s.Exec = func(c *pgfake.Conn, q *pgfake.Query) (l []*pgfake.Result) {
				k := find(c.Startup["user"], q.SQL)
				if k == nil {
					return []*pgfake.Result{{Tag: "SELECT 0"}}
				}
				time.Sleep(time.Duration(k.Ms) * time.Millisecond)
				for n := 1; n <= k.Results; n++ {
					res := &pgfake.Result{Tag: "INSERT 0 1"}
					if n%2 == 0 {
						res = &pgfake.Result{Cols: []pgfake.Col{{Name: "a", OID: 25}, {Name: "b", OID: 23}}, Rows: [][]pgfake.Value{{"x", int64(1)}, {nil, int64(2)}}}
					}
					if n == k.Fail {
						res.Fault = &pgfake.Fault{Kind: k.Fault, After: n % 3, Err: pgfake.Error{Code: k.Code, Message: "injected"}}
						return append(l, res)
					}
					l = append(l, res)
				}
				return l
			}
			for _, t := range targets {
				if t.Server == i && t.Refuse {
					s.Reject = t.User
				}
				if t.Server == i && t.Password == "" {
					s.Auth = ""
				}
			}
			s.Listen("tcp", "127.0.0.1:0")
			servers = append(servers, s)
		}
		tm := jn.M{}
		for _, t := range targets {
			c := jn.M{"host": hosts[t.Server], "port": int(servers[t.Server].Port()), "username": t.User, "database": t.Database}
			if t.SSLMode != "" {
				c["sslmode"] = t.SSLMode
			}
			if t.Retries > 0 {
				c["connect_retries"] = t.Retries
			}
			if t.Password != "" {
				c["password"] = t.Password
			}
			if r.Intn(4) == 0 {
				c["concurrency"] = 1 + r.Intn(3)
			}
			tm[t.ID] = jn.M{"class": "pg", "config": c}
		}
		km := jn.M{}
		for _, k := range tasks {
			m := jn.M{"target": k.Target, "config": jn.M{"sql": k.SQL}}
			if len(k.After) > 0 {
				var l jn.L
				for _, a := range k.After {
					l = append(l, a)
				}
				m["after"] = l
			}
			km[k.ID] = m
		}
		dir := cs.Scratch()
		defer os.RemoveAll(dir)
		w := &jn.Writer{R: r, Dir: dir, Sugar: []int{0, 0, 10}[r.Intn(3)]}
		file := cs.WriteFile(dir, "book.jsonnet", w.Expr(jn.M{"targets": tm, "tasks": km}))
		var out, errs bytes.Buffer
		err := runbook.Run(&sys.IO{Log: logger.Discard(), Stdout: &out, Stderr: &errs}, file)
		conns := map[string][]*pgfake.Conn{}
		for i, s := range servers {
			if left := s.Close(); left > 0 {
				cs.Violatef("%d connections were left open", left)
			}
			for n, c := range s.Conns() {
				if n < targets[0].Failures {
					continue
				}
				u := c.Startup["user"]
				ok := false
				for _, t := range targets {
					ok = ok || t.User == u && t.Server == i && t.Database == c.Startup["database"]
				}
				if !ok {
					cs.Violatef("connected to server %d as %q, database %q", i, u, c.Startup["database"])
				}
				conns[u] = append(conns[u], c)
			}
		}
		done := map[string]*pgfake.Query{}
		failed := map[string]bool{}
		executed := 0
		var order []*pgfake.Query
		ids := map[*pgfake.Query]string{}
		for _, t := range targets {
			l := conns[t.User]
			if len(l) > 1 {
				cs.Violatef("target %s connected %d times", t.ID, len(l))
			}
			if len(l) == 0 && mode != "start" {
				cs.Violatef("target %s didn't connect", t.ID)
			}
			for _, c := range l {
				if c.TLS != t.SSL {
					cs.Violatef("target %s has sslmode %q, but encryption is %v", t.ID, t.SSLMode, c.TLS)
				}
				if s := servers[t.Server]; s.Auth == "password" && c.Ready && c.Password != t.Password {
					cs.Violatef("target %s sent password %q instead of %q", t.ID, c.Password, t.Password)
				}
				broken := false
				for _, q := range c.Queries {
					if q.Init {
						continue
					}
					executed++
					k := find(t.User, q.SQL)
					if k == nil {
						cs.Violatef("target %s executed %q, which isn't the SQL of one of its tasks", t.ID, q.SQL)
						continue
					}
					if !q.Simple {
						cs.Count("extended", 1)
					}
					if done[k.ID] != nil {
						cs.Violatef("task %s was executed twice", k.ID)
					}
					if broken {
						cs.Violatef("task %s was executed on target %s after a task had failed there", k.ID, t.ID)
					}
					done[k.ID] = q
					order = append(order, q)
					ids[q] = k.ID
					if k.Fail > 0 {
						failed[k.ID], broken = true, true
					}
				}
				if c.Ready && !c.Terminated && !broken {
					cs.Violatef("target %s abandoned its connection", t.ID)
				}
			}
		}
		for _, k := range tasks {
			q := done[k.ID]
			if q == nil {
				if mode == "" || mode == "task" && len(failed) == 0 {
					cs.Violatef("task %s wasn't executed", k.ID)
				}
				continue
			}
			for _, a := range k.After {
				p := done[a]
				switch {
				case p == nil:
					cs.Violatef("task %s was executed, but not %s which comes before it", k.ID, a)
				case failed[a]:
					cs.Violatef("task %s was executed, but %s which comes before it failed", k.ID, a)
				case p.Done > q.Seq:
					cs.Violatef("task %s was executed before %s was done", k.ID, a)
				}
			}
		}
		switch {
		case mode == "start" && err == nil:
			cs.Violatef("a target can't connect, but the run succeeded")
		case mode == "start" && executed > 0:
			cs.Violatef("a target can't connect, but %d tasks were executed", executed)
		case len(failed) > 0 && err == nil:
			cs.Violatef("a statement failed, but the run succeeded")
		case mode == "" && err != nil:
			cs.Violatef("the run failed: %v", err)
		case mode == "task" && len(failed) == 0:
			cs.Violatef("no task that fails was executed")
		}
		if errs.Len() > 0 || out.Len() > 0 {
			cs.Violatef("unexpected output: %q %q", out.String(), errs.String())
		}
		sort.Slice(order, func(i, j int) bool { return order[i].Seq < order[j].Seq })
		var l []string
		for _, q := range order {
			l = append(l, ids[q])
		}
		cs.Distinct("interleavings", fmt.Sprint(vk.JSON(targets), vk.JSON(tasks), l))
		if executed > 0 {
			cs.Nontrivial(vk.JSON(tasks))
		}
		cs.Count("statements", executed)
		cs.Hist("faults", mode)
		if cs.Bad() {
			cs.Detail(strings.Join(l, " "))
		}
	})
}
