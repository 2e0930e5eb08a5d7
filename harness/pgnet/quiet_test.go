//go:build go1.22

package pgnet

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"go.uber.org/zap"

	"github.com/sjansen/pgutil/internal/commands"
	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/pg"
	"github.com/sjansen/pgutil/internal/runbook"
	"github.com/sjansen/pgutil/internal/sys"
	"github.com/sjansen/pgutil/internal/zverif/jn"
	"github.com/sjansen/pgutil/internal/zverif/pgfake"
	"github.com/sjansen/pgutil/internal/zverif/vk"
)

// What must not happen: passwords that are disclosed, databases that are changed, and
// effects of runbooks that are only looked at.

func init() {
	vk.Register("C37", "connections", secretConnections)
	vk.Register("C37", "runbooks", secretRunbooks)
	vk.Register("C38", "inspect", readsOnly)
	vk.Register("C39", "runbooks", noEffects)
}

// --------------------------------------------------------------------- passwords

const letters = "abcdefghijkmnopqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ23456789"

// newSecret returns a password and a part of it that looks the same however it's quoted
func newSecret(r *rand.Rand) (password, core string) {
	b := make([]byte, 14)
	for i := range b {
		b[i] = letters[r.Intn(len(letters))]
	}
	core = string(b)
	password = core
	if r.Intn(3) == 0 {
		odd := []string{"'", `"`, " ", "%s", `\`, "é", "\n", "@", ":", "/", "$x", "#", "=", "&", "\t"}
		password = pick(r, odd) + core + pick(r, odd)
	}
	return password, core
}

// discloses tells whether a text has a password, or something that's easily decoded to it
func discloses(text, core string) bool {
	if strings.Contains(text, core) {
		return true
	}
	lower := strings.ToLower(text)
	if strings.Contains(lower, hex.EncodeToString([]byte(core))) {
		return true
	}
	// without the characters that depend on what is around it
	for i := 0; i < 3; i++ {
		enc := base64.RawStdEncoding.EncodeToString([]byte(strings.Repeat("x", i) + core))
		enc = enc[4*((i+2)/3) : len(enc)-4]
		url := strings.NewReplacer("+", "-", "/", "_").Replace(enc)
		if strings.Contains(text, enc) || strings.Contains(text, url) {
			return true
		}
	}
	numbers := strings.Trim(fmt.Sprint([]byte(core)), "[]")
	return strings.Contains(text, numbers) || strings.Contains(text, strings.Replace(numbers, " ", ", ", -1)) ||
		strings.Contains(text, strings.Replace(numbers, " ", ",", -1))
}

func control() {
	const core = "aB3cD4eF5gH6iJ"
	for _, s := range []string{core, "x" + core + "y", fmt.Sprintf("%x", core), fmt.Sprintf("%X", core), fmt.Sprint([]byte("q" + core + "r")),
		base64.StdEncoding.EncodeToString([]byte("password: " + core + "!")), base64.StdEncoding.EncodeToString([]byte("password " + core)),
		base64.URLEncoding.EncodeToString([]byte("password=." + core + "?")), fmt.Sprintf("%q", "'"+core+"\n"), fmt.Sprintf("%#v", []string{core})} {
		if !discloses(s, core) {
			panic("monitor panic: overlooked a password in " + s)
		}
	}
	if discloses(strings.Repeat("another text ", 50), core) {
		panic("monitor panic: a password where there is none")
	}
}

// seen is what a user may get to see
type seen map[string]string

func (t seen) err(name string, err error) {
	if err != nil {
		t[name] = fmt.Sprintf("%v\n%+v\n%s\n%q", err, err, err, err)
	}
}

func (t seen) judge(cs *vk.Case, cores ...string) {
	for name, s := range t {
		cs.Count("texts searched", 1)
		cs.Count("characters searched", len(s))
		for _, core := range cores {
			if discloses(s, core) {
				if len(s) > 3000 {
					i := strings.Index(s, core)
					if i < 0 {
						i = 1500
					}
					a, b := i-1500, i+1500
					if a < 0 {
						a = 0
					}
					if b > len(s) {
						b = len(s)
					}
					s = s[a:b]
				}
				cs.Violatef("%s discloses the password %q: %q", name, core, s)
				return
			}
		}
	}
}

func noisyIO() (base *commands.Base, collect func(seen)) {
	var out, errs, log, debug bytes.Buffer
	base = &commands.Base{}
	base.IO = sys.IO{Log: logger.New(3, &log, &debug), Stdout: &out, Stderr: &errs}
	return base, func(t seen) {
		t["the output"], t["stderr"], t["the log"], t["the debug log"] = out.String(), errs.String(), log.String(), debug.String()
	}
}

func secretConnections(ctx *vk.Ctx) {
	control()
	certificates(ctx)
	ctx.Cases("case", ctx.N(500, 15000), func(cs *vk.Case) {
		cleanEnv()
		defer cleanEnv()
		r := cs.R
		dir := cs.Scratch()
		defer os.RemoveAll(dir)
		password, core := newSecret(r)
		other, otherCore := newSecret(r)
		where := []string{"option", "environment", "file", "both"}[r.Intn(4)]
		mode := []string{"", "disable", "allow", "prefer", "require", "verify-full", "bogus", password}[r.Intn(8)]
		if mode == password {
			mode = "verify-ca"
		}
		host := []string{"127.0.0.1", "localhost"}[r.Intn(2)]
		kind := []string{"none", "none", "good", "wrong name", "untrusted", "expired"}[r.Intn(6)]
		auth := []string{"", "password", "md5", "reject"}[r.Intn(4)]
		trouble := []string{"", "", "", "wrong password", "drop", "error", "ready-error", "down", "statement"}[r.Intn(9)]
		action := []string{"version", "inspect", "exec", "describe", "ping", "inspect command"}[r.Intn(6)]
		retries := []int{0, 0, 0, 1, 2}[r.Intn(5)]
		cs.Describe(map[string]interface{}{"password": password, "where": where, "sslmode": mode, "host": host, "server": kind, "auth": auth, "trouble": trouble, "action": action, "retries": retries})
		s := basic("PostgreSQL 12.1")
		s.TLS, s.Auth, s.Password = configs[kind+" "+host], auth, password
		s.AuthCode = pick(r, []string{"", "28P01", "28000", "42501", "08006"})
		switch trouble {
		case "wrong password":
			s.Auth, s.Password = []string{"password", "md5"}[r.Intn(2)], password+"?"
		case "drop", "error", "ready-error":
			n := 1 + r.Intn(3)
			s.Fail = func(attempt int) string {
				if attempt <= n {
					return trouble
				}
				return ""
			}
		case "statement":
			exec := s.Exec
			s.Exec = func(c *pgfake.Conn, q *pgfake.Query) []*pgfake.Result {
				res := exec(c, q)
				res[0].Fault = &pgfake.Fault{Kind: []string{"error", "drop"}[len(c.Queries)%2], Err: pgfake.Error{Code: "XX000", Message: "injected"}}
				return res
			}
		}
		s.Rude = r.Intn(6) == 0
		s.Listen("tcp", "127.0.0.1:0")
		port := s.Port()
		if trouble == "down" {
			s.Close()
		}
		base, collect := noisyIO()
		o := &pg.Options{Log: base.Log, Host: host, Port: port, SSLMode: mode, Username: "me", Database: "db", ConnectRetries: retries}
		if (action == "ping" || action == "inspect command") && where != "file" {
			where = "environment" // there is no other way
		}
		switch where {
		case "option":
			o.Password = password
		case "both":
			o.Password = password
			os.Setenv("PGPASSWORD", other)
		case "environment":
			os.Setenv("PGPASSWORD", password)
		case "file":
			file := filepath.Join(dir, "pgpass")
			esc := strings.NewReplacer(`\`, `\\`, ":", `\:`, "\n", "").Replace(password)
			must(os.WriteFile(file, []byte("*:*:*:*:"+esc+"\n"), 0600))
			os.Setenv("PGPASSFILE", file)
			os.Setenv("PGHOST", host)
		}
		if r.Intn(3) == 0 {
			os.Setenv("PGSSLMODE", pick(r, []string{"disable", "require", "bogus"}))
		}
		t := seen{}
		switch action {
		case "ping":
			t.err("the error", (&commands.PingCmd{Host: host, Port: port, SSLMode: mode, DBName: "db", Username: "me"}).Run(base))
		case "inspect command":
			t.err("the error", (&commands.InspectCmd{Host: host, Port: port, SSLMode: mode, DBName: "db", Username: "me"}).Run(base))
		default:
			c, err := pg.New(o)
			t.err("the error", err)
			if err != nil {
				cs.Count("failed connections", 1)
				break
			}
			cs.Count("connections", 1)
			switch action {
			case "version":
				_, err = c.ServerVersion()
			case "inspect":
				_, err = c.InspectDatabase(nil)
			case "describe":
				_, err = c.DescribeFunction("public", "f")
			}
			t.err("the error of a statement", err)
			t.err("the error of closing", c.Close())
		}
		if trouble != "down" {
			s.Close()
		}
		for _, c := range s.Conns() {
			for k, v := range c.Startup {
				t["the startup message's "+k] = v
			}
			for _, q := range c.Queries {
				t["a statement"] += q.SQL + "\n" + strings.Join(q.Args, "\n")
			}
			if discloses(c.Password, otherCore) {
				cs.Violatef("sent the wrong password")
			}
		}
		collect(t)
		t.judge(cs, core, otherCore)
		cs.Count("lines of debug logs", strings.Count(t["the debug log"], "\n"))
		cs.Hist("troubles", trouble)
		if cs.I < 2 {
			cs.Sample(map[string]interface{}{"action": action, "trouble": trouble, "password": core, "texts searched": t})
		}
		cs.Nontrivial(fmt.Sprint(where, mode, host, kind, auth, trouble, action, retries, password))
	})
}

// liveBook is a runbook whose tasks have effects: they connect, or create files
type liveBook struct {
	targets, tasks jn.M
	servers        []*pgfake.Server
	passwords      map[string]string // of users
	cores          []string
	marks          string // where tasks leave their marks
	message        string
}

func (b *liveBook) doc() jn.M { return jn.M{"targets": b.targets, "tasks": b.tasks} }

func (b *liveBook) close() {
	for _, s := range b.servers {
		s.Close()
	}
}

// newLiveBook makes a valid runbook. Its dir is where tasks find ./effect.
func newLiveBook(r *rand.Rand, dir, marks string, secrets bool) *liveBook {
	b := &liveBook{targets: jn.M{}, tasks: jn.M{}, passwords: map[string]string{}, marks: marks, message: "message of a task"}
	var ids []string
	for i, n := 0, 1+r.Intn(5); i < n; i++ {
		id := fmt.Sprintf("%s%d", pick(r, []string{"q", "x ", "é", "-"}), i)
		ids = append(ids, id)
		switch r.Intn(5) {
		case 0, 1, 2:
			s := &pgfake.Server{Describe: func(c *pgfake.Conn, sql string) (int, []pgfake.Col, *pgfake.Error) { return 0, nil, nil },
				Exec: func(c *pgfake.Conn, q *pgfake.Query) []*pgfake.Result { return []*pgfake.Result{{Tag: "SELECT 0"}} }}
			c := jn.M{"host": "127.0.0.1", "username": fmt.Sprintf("user%d", i), "database": "db", "sslmode": "disable"}
			if secrets {
				s.Rude = r.Intn(4) == 0
			}
			if secrets && r.Intn(5) == 0 {
				// it asks for a password, but the runbook has none
				s.Auth = pick(r, []string{"", "", "password"})
			} else if secrets {
				p, core := newSecret(r)
				s.Auth, s.Password = "password", p
				c["password"] = p
				b.passwords[fmt.Sprintf("user%d", i)] = p
				b.cores = append(b.cores, core)
			}
			s.Listen("tcp", "127.0.0.1:0")
			c["port"] = int(s.Port())
			if r.Intn(4) == 0 && !secrets {
				os.Setenv("PGHOST", "127.0.0.1")
				os.Setenv("PGPORT", fmt.Sprint(s.Port()))
				delete(c, "host")
				delete(c, "port")
				delete(c, pick(r, []string{"sslmode", "username", "database"}))
			}
			if r.Intn(3) == 0 {
				c["concurrency"] = 1 + r.Intn(3)
			}
			if r.Intn(3) == 0 {
				c["connect_retries"] = 1
			}
			b.servers = append(b.servers, s)
			b.targets[id] = jn.M{"class": "pg", "config": c}
		case 3:
			v := jn.M{"class": "sh"}
			if r.Intn(2) == 0 {
				v["config"] = jn.M{"concurrency": 1 + r.Intn(3)}
			}
			b.targets[id] = v
		case 4:
			b.targets[id] = jn.M{"class": "demo", "config": jn.M{"string": "effect of " + id}}
		}
	}
	var tasks []string
	for i, n := 0, vk.Several(r, 8, 40); i < n; i++ {
		id := fmt.Sprintf("%s%d", pick(r, []string{"t", "T ", "é", "0"}), i)
		q := ids[r.Intn(len(ids))]
		v := jn.M{"target": q}
		switch b.targets[q].(jn.M)["class"] {
		case "pg":
			v["config"] = jn.M{"sql": "SELECT 1"}
		case "sh":
			mark := filepath.Join(marks, fmt.Sprint(i))
			args := [][]string{{"/bin/sh", "-c", `echo >> "$1"`, "sh", mark}, {"sh", "-c", `echo >> "$1"; env; echo "$@"`, "sh", mark}, {"./effect", mark}, {"effect", mark}, {filepath.Join(dir, "effect"), mark}}[r.Intn(5)]
			l := jn.L{}
			for _, a := range args {
				l = append(l, a)
			}
			v["config"] = jn.M{"args": l}
		case "demo":
			v["target"] = q + "/" + pick(r, []string{"echo", "rev", "rot13", "echo"})
		}
		if r.Intn(3) == 0 {
			v["message"] = b.message
		}
		if len(tasks) > 0 && r.Intn(2) == 0 {
			v["after"] = jn.L{tasks[r.Intn(len(tasks))]}
		}
		b.tasks[id] = v
		tasks = append(tasks, id)
	}
	return b
}

const effect = "#!/bin/sh\nfor x in \"$@\"; do echo >> \"$x\"; done\n"

func secretRunbooks(ctx *vk.Ctx) {
	control()
	ctx.Cases("case", ctx.N(250, 6000), func(cs *vk.Case) {
		cleanEnv()
		defer cleanEnv()
		r := cs.R
		dir, marks := cs.Scratch(), cs.Scratch()
		defer os.RemoveAll(dir)
		defer os.RemoveAll(marks)
		path := os.Getenv("PATH")
		defer os.Setenv("PATH", path)
		os.Setenv("PATH", dir+":"+path)
		must(os.WriteFile(filepath.Join(dir, "effect"), []byte(effect), 0755))
		b := newLiveBook(r, dir, marks, true)
		trouble := []string{"", "", "", "server", "password", "type", "field", "cycle", "class", "statement"}[r.Intn(10)]
		doc := b.doc()
		var victim jn.M
		for _, q := range sortedKeys(b.targets) {
			if t := b.targets[q].(jn.M); t["class"] == "pg" && (victim == nil || r.Intn(2) == 0) {
				victim = t["config"].(jn.M)
			}
		}
		if victim == nil {
			trouble = ""
		}
		switch trouble {
		case "server":
			victim["port"] = 1
		case "password":
			p, core := newSecret(r)
			victim["password"] = p
			b.passwords[victim["username"].(string)] = p
			b.cores = append(b.cores, core)
		case "type":
			switch r.Intn(4) {
			case 0:
				victim["password"] = jn.L{victim["password"]}
			case 1:
				victim["password"] = jn.M{"value": victim["password"]}
			case 2:
				victim[pick(r, []string{"port", "concurrency", "connect_retries"})] = victim["password"]
			case 3:
				victim[pick(r, []string{"host", "username", "database", "sslmode"})] = jn.L{victim["password"]}
			}
		case "field":
			victim[pick(r, []string{"passwd", "pasword", "secret", "pass"})] = victim["password"]
			delete(victim, "password")
		case "cycle":
			for id, v := range b.tasks {
				v.(jn.M)["after"] = jn.L{id}
			}
		case "class":
			for _, v := range b.targets {
				v.(jn.M)["class"] = "psql"
			}
		case "statement":
			for _, s := range b.servers {
				s.Exec = func(c *pgfake.Conn, q *pgfake.Query) []*pgfake.Result {
					return []*pgfake.Result{{Fault: &pgfake.Fault{Kind: "error", Err: pgfake.Error{Code: "XX000", Message: "injected"}}}}
				}
			}
		}
		w := &jn.Writer{R: r, Dir: dir, Sugar: []int{0, 0, 10}[r.Intn(3)]}
		file := cs.WriteFile(dir, "book.jsonnet", w.Expr(doc))
		kind := []string{"run", "run", "run", "list", "dot"}[r.Intn(5)]
		real := r.Intn(3) == 0
		cs.Describe(map[string]interface{}{"doc": doc, "trouble": trouble, "command": kind, "program": real})
		t := seen{}
		output := ""
		if kind == "dot" && r.Intn(2) == 0 {
			output = filepath.Join(dir, "out.dot")
		}
		if real {
			debug := filepath.Join(dir, "debug.log")
			args := []string{"runbook", kind, file}
			if output != "" {
				args = append(args, "-o", output)
			}
			args = append(args, []string{"-vvv", "-vv", "-v", "-q"}[r.Intn(4)], "--debug", debug)
			e := program(dir, false, args)
			t["the output"], t["stderr"] = e.Stdout, e.Stderr
			x, err := os.ReadFile(debug)
			if err != nil {
				cs.Violatef("there is no debug log: %v", err)
			}
			t["the debug log"] = string(x)
		} else {
			base, collect := noisyIO()
			var err error
			switch kind {
			case "run":
				err = runbook.Run(&base.IO, file)
			case "list":
				err = (&commands.RunBookListCmd{File: file}).Run(base)
			case "dot":
				err = (&commands.RunBookDotCmd{File: file, Output: output}).Run(base)
			}
			t.err("the error", err)
			collect(t)
		}
		if output != "" {
			x, _ := os.ReadFile(output)
			t["the graph"] = string(x)
		}
		b.close()
		for _, s := range b.servers {
			for _, c := range s.Conns() {
				cs.Count("connections", 1)
				for k, v := range c.Startup {
					t["the startup message's "+k] += v
				}
				for _, q := range c.Queries {
					t["a statement"] += q.SQL + "\n"
				}
				if want := b.passwords[c.Startup["user"]]; c.Password != "" && c.Password != want {
					cs.Violatef("a server was sent the password %q instead of %q", c.Password, want)
				}
			}
		}
		t.judge(cs, b.cores...)
		cs.Hist("troubles", trouble)
		if len(b.cores) > 0 {
			cs.Nontrivial(vk.JSON(doc) + kind)
		}
	})
}

func sortedKeys(v jn.M) []string {
	var l []string
	for k := range v {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// ------------------------------------------------------------------- reading only

var sqlToken = regexp.MustCompile(`(?s)^(?:\s+|--[^\n]*|E'(?:[^'\\]|''|\\.)*'|'(?:[^']|'')*'|"(?:[^"]|"")*"|\$\d+|[0-9][0-9.]*|[A-Za-z_\x80-\xff][A-Za-z_0-9$\x80-\xff]*|.)`)
var dollarQuote = regexp.MustCompile(`^\$(?:[A-Za-z_\x80-\xff][A-Za-z_0-9\x80-\xff]*)?\$`)

// tokens of SQL; strings become ”, quoted names become ""
func tokens(sql string) (l []string) {
	for sql != "" {
		if strings.HasPrefix(sql, "/*") {
			depth, i := 0, 0
			for i < len(sql) {
				switch {
				case strings.HasPrefix(sql[i:], "/*"):
					depth, i = depth+1, i+2
				case strings.HasPrefix(sql[i:], "*/"):
					depth, i = depth-1, i+2
				default:
					i++
				}
				if depth == 0 {
					break
				}
			}
			sql = sql[i:]
			continue
		}
		if d := dollarQuote.FindString(sql); d != "" {
			i := strings.Index(sql[len(d):], d)
			if i < 0 {
				return append(l, "''")
			}
			l, sql = append(l, "''"), sql[len(d)+i+len(d):]
			continue
		}
		s := sqlToken.FindString(sql)
		sql = sql[len(s):]
		switch {
		case strings.TrimSpace(s) == "", strings.HasPrefix(s, "--"):
		case strings.HasSuffix(s, "'") && len(s) > 1:
			l = append(l, "''")
		case s[0] == '"' && len(s) > 1:
			l = append(l, `""`)
		default:
			l = append(l, strings.ToLower(s))
		}
	}
	return l
}

// statements that change neither data, definitions, nor settings of others
var reading = map[string]bool{"select": true, "show": true, "with": true, "values": true, "table": true, "explain": true, "begin": true, "start": true, "commit": true,
	"end": true, "rollback": true, "abort": true, "set": true, "reset": true, "(": true, "declare": true, "fetch": true, "close": true, "savepoint": true, "release": true,
	"deallocate": true, "discard": true}

var changing = regexp.MustCompile(`^(nextval|setval|pg_terminate_backend|pg_cancel_backend|pg_reload_conf|pg_rotate_logfile|pg_(try_)?advisory_.*|lo_.*|lowrite|pg_notify|dblink.*|` +
	`pg_switch_(wal|xlog)|pg_create_.*|pg_drop_.*|pg_stat_reset.*|pg_file_.*|pg_logical_.*|pg_replication_.*|pg_start_backup|pg_stop_backup|pg_import_system_collations|pg_promote|` +
	`query_to_xml.*|table_to_xml.*|pg_prewarm|txid_current|pg_current_xact_id|pg_export_snapshot|pg_(wal|xlog)_replay_.*|pg_log_.*|gin_clean_pending_list|brin_.*summarize.*)$`)

// writes returns why a statement isn't one that only reads, or ""
func writes(sql string) string {
	first := true
	explain := false
	l := tokens(sql)
	for i, s := range l {
		next := ""
		if i+1 < len(l) {
			next = l[i+1]
		}
		prev := ""
		if i > 0 {
			prev = l[i-1]
		}
		if s == ";" {
			first, explain = true, false
			continue
		}
		if first {
			if !reading[s] {
				return "a statement that isn't known to only read: " + s
			}
			first, explain = false, s == "explain"
			continue
		}
		if prev == "." || prev == "as" {
			if prev == "." && next == "(" && changing.MatchString(s) {
				return "a function that changes something: " + s
			}
			continue
		}
		switch s {
		case "into":
			return "SELECT INTO"
		case "insert", "update", "delete", "merge", "truncate":
			if prev == "(" || prev == "for" || explain {
				return s
			}
		case "share":
			if prev == "for" || prev == "key" {
				return "a lock"
			}
		case "key":
			if prev == "no" && next == "update" {
				return "a lock"
			}
		default:
			if next == "(" && changing.MatchString(s) {
				return "a function that changes something: " + s
			}
		}
	}
	return ""
}

func controlWrites() {
	for _, s := range []string{"INSERT INTO t VALUES (1)", "select nextval('s')", "SELECT pg_catalog.setval('s', 1)", "CREATE TEMP TABLE t()", "SELECT 1; DROP TABLE t", "/* a */ -- b\nanalyze",
		"WITH x AS (DELETE FROM t RETURNING *) SELECT * FROM x", "SELECT * INTO x FROM t", "SELECT * FROM t FOR UPDATE", "SELECT * FROM t FOR NO KEY UPDATE", "SELECT * FROM t FOR KEY SHARE",
		"LOCK TABLE t", "VACUUM", "COMMENT ON TABLE t IS 'x'", "explain analyze delete from t", "COPY t TO '/x'", "SELECT $$;$$; grant all on t to u", "DO $$ $$", "SELECT pg_terminate_backend(1)", "SELECT E'\\'', lo_unlink(3)"} {
		if writes(s) == "" {
			panic("monitor panic: not recognized: " + s)
		}
	}
	for _, s := range []string{"SELECT 1", "SELECT c.update, \"delete\" FROM insert_x c; SHOW search_path;", "SELECT 'delete from t; drop table t' -- ; drop table t", "select t.oid, t.typname from pg_type t",
		"SELECT $x$; drop table t $x$, $1", "SET search_path = ''", "begin; commit", "SELECT nextval FROM t", "SELECT substring(x for 3) FROM t as update", ""} {
		if w := writes(s); w != "" {
			panic("monitor panic: " + s + " was taken for " + w)
		}
	}
}

func readsOnly(ctx *vk.Ctx) {
	controlWrites()
	ctx.Cases("db", ctx.N(150, 4000), func(cs *vk.Case) {
		cleanEnv()
		r := cs.R
		m := generate(r, 1+vk.Several(r, 4, 20))
		cs.Describe(m.d)
		db := pgfake.Build(r, m.d)
		fault := r.Intn(5) == 0
		at := r.Intn(20)
		s := serving(db, nil, func(n int, res *pgfake.Result) {
			if fault && n == at {
				res.Fault = &pgfake.Fault{Kind: []string{"error", "bind", "drop"}[at%3], Err: pgfake.Error{Code: "XX000", Message: "injected"}}
			}
		})
		// judged when it arrives, since what follows depends on its result
		bad := make(chan string, 1)
		understood := true
		look := func(sql string) bool {
			if why := writes(sql); why != "" {
				select {
				case bad <- fmt.Sprintf("%s: %q", why, sql):
				default:
				}
				return false
			}
			return true
		}
		describe, exec := s.Describe, s.Exec
		unknown := pgfake.Error{Code: "42601", Message: "the monitor doesn't know this"}
		s.Describe = func(c *pgfake.Conn, sql string) (n int, cols []pgfake.Col, e *pgfake.Error) {
			if !look(sql) {
				return 0, nil, nil
			}
			defer func() {
				if x := recover(); x != nil {
					if fmt.Sprint(x) == "" {
						panic(x)
					}
					understood = false
					n, cols, e = 0, nil, &unknown
				}
			}()
			if l := tokens(sql); len(l) > 0 && settingWords[l[0]] {
				return 0, nil, nil
			}
			return describe(c, sql)
		}
		s.Exec = func(c *pgfake.Conn, q *pgfake.Query) (res []*pgfake.Result) {
			if !look(q.SQL) {
				return []*pgfake.Result{{Tag: "OK"}}
			}
			defer func() {
				if x := recover(); x != nil {
					understood = false
					res = []*pgfake.Result{{Fault: &pgfake.Fault{Kind: "error", Err: unknown}}}
				}
			}()
			if l := tokens(q.SQL); len(l) > 0 && settingWords[l[0]] {
				return []*pgfake.Result{{Tag: strings.ToUpper(l[0])}}
			}
			return exec(c, q)
		}
		s.ListenAnywhere()
		action := []string{"inspect", "command", "sorted", "ping", "objects"}[r.Intn(5)]
		var err error
		switch action {
		case "inspect":
			_, err = inspect(s, nil)
		case "sorted":
			_, err = inspect(s, &pg.InspectOptions{SortChecks: r.Intn(2) == 0, SortColumns: r.Intn(2) == 0, SortIndexes: true})
		case "command":
			_, err = command(cs, s, pick(r, []string{"", "-", "new", "old"}), nil)
		case "ping":
			base, _ := noisyIO()
			base.Log = zap.NewNop().Sugar()
			err = (&commands.PingCmd{Host: s.Host(), Port: s.Port(), SSLMode: "disable", DBName: "db", Username: "me"}).Run(base)
		case "objects":
			var c *pg.Conn
			c, err = pg.New(options(s))
			if err == nil {
				for _, f := range m.d.Functions {
					_, err = c.DescribeFunction(f.Schema, f.Name)
				}
				for _, x := range m.d.Relations {
					for _, t := range x.Triggers {
						_, err = c.DescribeTrigger(x.Schema, x.Name, t.Name)
					}
				}
				_, err = c.ServerVersion()
				c.Close()
			}
		}
		s.Close()
		select {
		case w := <-bad:
			cs.Violatef("%s sends %s", action, w)
		default:
		}
		n := 0
		for _, c := range s.Conns() {
			for _, q := range c.Queries {
				n++
				if w := writes(q.SQL); w != "" {
					cs.Violatef("%s sends %s: %q", action, w, q.SQL)
					break
				}
			}
		}
		cs.Count("statements judged", n)
		if !understood {
			cs.Count("statements the server didn't know", 1)
		}
		if err != nil {
			cs.Count("failed", 1)
		}
		cs.Hist("actions", action)
		if cs.I < 2 {
			cs.Sample(map[string]interface{}{"action": action, "size": size(m.d), "statements": n})
		}
		if n > 0 {
			cs.Nontrivial(fmt.Sprint(action, fault, at, flat(m.want)))
		}
	})
}

var settingWords = map[string]bool{"begin": true, "start": true, "commit": true, "end": true, "rollback": true, "abort": true, "set": true, "reset": true, "savepoint": true,
	"release": true, "discard": true, "deallocate": true}

// --------------------------------------------------------------- nothing happens

// snapshot of directories: all that can be seen of their files
func snapshot(except string, dirs ...string) map[string]string {
	out := map[string]string{}
	for _, dir := range dirs {
		must(filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
			must(err)
			if path == except {
				return nil
			}
			info, err := d.Info()
			must(err)
			x := fmt.Sprint(info.Mode(), " ")
			if info.Mode().IsRegular() {
				b, err := os.ReadFile(path)
				must(err)
				h := fnv.New64a()
				h.Write(b)
				x += fmt.Sprint(info.Size(), " ", info.ModTime().UnixNano(), " ", h.Sum64())
			}
			out[path] = x
			return nil
		}))
	}
	return out
}

func different(a, b map[string]string) (l []string) {
	for k, v := range a {
		if b[k] != v {
			l = append(l, fmt.Sprintf("%s was %q, and is %q", k, v, b[k]))
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok {
			l = append(l, fmt.Sprintf("%s is new, %q", k, v))
		}
	}
	sort.Strings(l)
	return l
}

// mistake in a runbook which is refused
func spoilBook(r *rand.Rand, b *liveBook) string {
	targets, tasks := sortedKeys(b.targets), sortedKeys(b.tasks)
	q := b.targets[targets[r.Intn(len(targets))]].(jn.M)
	if len(tasks) == 0 {
		q["class"] = "unknown"
		return "unknown class"
	}
	for kind := r.Intn(15); ; {
		if r.Intn(100) == 0 {
			kind = r.Intn(15) // perhaps there's no task for that
		}
		q := b.targets[targets[r.Intn(len(targets))]].(jn.M)
		id := tasks[r.Intn(len(tasks))]
		t := b.tasks[id].(jn.M)
		owner := b.targets[strings.SplitN(t["target"].(string), "/", 2)[0]].(jn.M)["class"]
		switch kind {
		case 0:
			q["class"] = pick(r, []string{"unknown", "", "PG", "sh "})
			return "unknown class"
		case 1:
			t["target"] = "nowhere"
			return "unknown target"
		case 2:
			t["target"] = strings.SplitN(t["target"].(string), "/", 2)[0] + "/unknown"
			return "unknown class of a task"
		case 3:
			t[pick(r, []string{"unknown", "afterwards", "sql", "args"})] = "x"
			return "unknown field of a task"
		case 4:
			q["unknown"] = 1
			return "unknown field of a target"
		case 5:
			t["config"] = jn.M{"unknown": 1}
			return "unknown setting of a task"
		case 6, 7:
			// a cycle of several tasks, or one
			n := 1 + r.Intn(len(tasks))
			for i := 0; i < n; i++ {
				v := b.tasks[tasks[i]].(jn.M)
				after, _ := v["after"].(jn.L)
				v["after"] = append(after, tasks[(i+1)%n])
			}
			return "cycle"
		case 8, 9:
			after, _ := t["after"].(jn.L)
			t["after"] = append(after, vk.Like(r, tasks))
			return "unknown dependency"
		case 10:
			if owner != "sh" {
				continue
			}
			t["config"] = jn.M{"args": []interface{}{jn.L{}, jn.L{"a/b"}, "true"}[r.Intn(3)]}
			return "unusable arguments"
		case 11:
			if owner != "pg" {
				continue
			}
			t["config"] = jn.M{"sql": []interface{}{"", 1, nil}[r.Intn(3)]}
			if r.Intn(3) == 0 {
				delete(t, "config")
			}
			return "no SQL"
		case 12:
			if q["class"] == "demo" {
				continue
			}
			c, _ := q["config"].(jn.M)
			if c == nil {
				c = jn.M{}
				q["config"] = c
			}
			c["concurrency"] = -r.Intn(2)
			return "unusable concurrency"
		case 13:
			t["after"] = []interface{}{id, 1, jn.M{}}[r.Intn(3)]
			return "wrong type"
		case 14:
			c, _ := q["config"].(jn.M)
			if c == nil {
				c = jn.M{}
				q["config"] = c
			}
			c["unknown"] = "x"
			return "unknown setting of a target"
		}
	}
}

// effectLine is what tasks of the demo target print
var effectLine = regexp.MustCompile(`^effect of .{1,3}\d$`)

func noEffects(ctx *vk.Ctx) {
	ctx.Cases("case", ctx.N(300, 8000), func(cs *vk.Case) {
		cleanEnv()
		defer cleanEnv()
		r := cs.R
		dir, marks, cwd := cs.Scratch(), cs.Scratch(), cs.Scratch()
		defer os.RemoveAll(dir)
		defer os.RemoveAll(marks)
		defer os.RemoveAll(cwd)
		path := os.Getenv("PATH")
		defer os.Setenv("PATH", path)
		os.Setenv("PATH", dir+":"+path)
		must(os.WriteFile(filepath.Join(dir, "effect"), []byte(effect), 0755))
		b := newLiveBook(r, dir, marks, false)
		defer b.close()
		kind := []string{"list", "dot", "eval", "run"}[r.Intn(4)]
		mistake := ""
		if kind == "run" || r.Intn(3) == 0 {
			mistake = spoilBook(r, b)
		}
		doc := b.doc()
		w := &jn.Writer{R: r, Dir: dir, Sugar: []int{0, 0, 10}[r.Intn(3)]}
		text := w.Expr(doc)
		if mistake != "" && r.Intn(12) == 0 {
			mistake = "syntax"
			text = text[:len(text)-1]
		}
		file := cs.WriteFile(dir, "book.jsonnet", text)
		output := ""
		if (kind == "dot" || kind == "eval") && r.Intn(3) == 0 {
			output = filepath.Join(dir, "out")
		}
		real := r.Intn(4) == 0
		cs.Describe(map[string]interface{}{"doc": doc, "mistake": mistake, "command": kind, "output": output != "", "program": real})
		must(os.Chdir(cwd))
		defer os.Chdir("/")
		before := snapshot(output, dir, cwd, marks)
		// creating the output changes the modification time of its directory only, which snapshots don't have
		var out, log string
		var err error
		if real {
			args := []string{"runbook", kind, file, "-vv"}
			if output != "" {
				args = append(args, "--output="+output)
			}
			env := []string{}
			for _, kv := range os.Environ() {
				if strings.HasPrefix(kv, "PG") {
					env = append(env, kv)
				}
			}
			e := program(cwd, false, args, env...)
			var l []string
			l, out = split(e.Stdout)
			log = strings.Join(l, "\n")
			if e.Code != 0 {
				err = fmt.Errorf("exit status %d: %s", e.Code, out)
			}
			out += e.Stderr
		} else {
			var o, l bytes.Buffer
			base := &commands.Base{}
			base.IO = sys.IO{Log: logger.New(2, &l, nil), Stdout: &o, Stderr: &o}
			switch kind {
			case "list":
				err = (&commands.RunBookListCmd{File: file}).Run(base)
			case "dot":
				err = (&commands.RunBookDotCmd{File: file, Output: output}).Run(base)
			case "eval":
				err = (&commands.RunBookEvalCmd{File: file, Output: output, Color: "false"}).Run(base)
			case "run":
				err = (&commands.RunBookRunCmd{File: file}).Run(base)
			}
			out, log = o.String(), l.String()
		}
		what := kind
		if mistake != "" {
			what = kind + " of a runbook with a mistake (" + mistake + ")"
		}
		if kind == "run" && err == nil {
			cs.Violatef("%s succeeded", what)
		}
		if l := different(before, snapshot(output, dir, cwd, marks)); len(l) > 0 {
			cs.Violatef("%s changed files: %q", what, l)
		}
		for _, s := range b.servers {
			s.Close()
			if n := len(s.Conns()); n > 0 {
				cs.Violatef("%s connected to a server %d times", what, n)
			}
		}
		if strings.Contains(log, b.message) && mistake != "syntax" { // its message quotes the file
			cs.Violatef("%s announced a task: %q", what, log)
		}
		for _, line := range strings.Split(out, "\n") {
			if effectLine.MatchString(line) {
				cs.Violatef("%s executed a task: %q", what, out)
				break
			}
		}
		if mistake == "" {
			cs.Count("looked at", 1)
		} else if err != nil {
			cs.Count("refused", 1)
		}
		cs.Count("servers nobody connected to", len(b.servers))
		cs.Hist("commands", kind)
		if cs.I < 2 {
			cs.Sample(map[string]interface{}{"command": kind, "mistake": mistake, "tasks": len(b.tasks), "targets": len(b.targets)})
		}
		if mistake != "" {
			cs.Hist("mistakes", mistake)
		}
		cs.Nontrivial(vk.JSON(doc) + kind)
	})
}
