//go:build go1.22

package pgnet

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"errors"
	"fmt"
	"math/big"
	"net"
	"os"
	"os/user"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/sjansen/pgutil/internal/commands"
	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/pg"
	"github.com/sjansen/pgutil/internal/sys"
	"github.com/sjansen/pgutil/internal/zverif/pgfake"
	"github.com/sjansen/pgutil/internal/zverif/vk"
)

func init() {
	vk.Register("C22", "modes", sslModes)
	vk.Register("C23", "settings", settings)
	vk.Register("C23", "retries", retries)
	vk.Register("C23", "pauses", pauses)
	vk.Register("C23", "ping", ping)
}

// ------------------------------------------------------------- certificates

var (
	pki     sync.Once
	configs map[string]*tls.Config
	caFile  string
)

func must(err error) {
	if err != nil {
		panic("monitor panic: " + err.Error())
	}
}

func certificates(ctx *vk.Ctx) {
	pki.Do(func() {
		configs = map[string]*tls.Config{}
		serial := int64(0)
		make := func(name string, names []string, from, until time.Time, parent *x509.Certificate, parentKey *ecdsa.PrivateKey) (*x509.Certificate, *ecdsa.PrivateKey, []byte) {
			key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
			must(err)
			serial++
			t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: name}, NotBefore: from, NotAfter: until,
				KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
			for _, n := range names {
				if ip := net.ParseIP(n); ip != nil {
					t.IPAddresses = append(t.IPAddresses, ip)
				} else {
					t.DNSNames = append(t.DNSNames, n)
				}
			}
			if parent == nil {
				t.IsCA, t.BasicConstraintsValid, t.ExtKeyUsage = true, true, nil
				parent, parentKey = t, key
			}
			der, err := x509.CreateCertificate(rand.Reader, t, parent, &key.PublicKey, parentKey)
			must(err)
			c, err := x509.ParseCertificate(der)
			must(err)
			return c, key, der
		}
		now := time.Now()
		old, soon := now.Add(-48*time.Hour), now.Add(1000*time.Hour)
		ca, cakey, cader := make("trusted", nil, old, soon, nil, nil)
		other, otherkey, _ := make("untrusted", nil, old, soon, nil, nil)
		add := func(kind string, names []string, until time.Time, p *x509.Certificate, k *ecdsa.PrivateKey) {
			_, key, der := make("server", names, old, until, p, k)
			configs[kind] = &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}}
		}
		for _, host := range []string{"127.0.0.1", "localhost"} {
			same := []string{host}
			add("good "+host, same, soon, ca, cakey)
			// including the names of a host at the same address
			add("wrong name "+host, []string{"127.0.0.2", "example.com", "127.0.0.1", "localhost.example.com", "*"}, soon, ca, cakey)
			if host == "127.0.0.1" {
				add("wrong name "+host, []string{"127.0.0.2", "localhost", "127.0.0.1.example.com"}, soon, ca, cakey)
			}
			add("untrusted "+host, same, soon, other, otherkey)
			add("expired "+host, same, now.Add(-time.Hour), ca, cakey)
		}
		caFile = filepath.Join(ctx.Dir, "ca.pem")
		must(os.WriteFile(caFile, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: cader}), 0644))
		// where the standard library finds the certificates it trusts
		must(os.Setenv("SSL_CERT_FILE", caFile))
		must(os.Setenv("SSL_CERT_DIR", filepath.Join(ctx.Dir, "none")))
	})
}

// ------------------------------------------------------------------ SSL modes

type sslCase struct {
	Mode, Env, EnvHost, Host string
	Password                 string // "", "option", "env", "both"
	TLS, Policy, Auth        string
	Retries                  int
	expect                   string
	effective, realPass, why string
}

func simple() *pgfake.DB {
	return pgfake.Build(nrand(), &pgfake.Database{Version: "PostgreSQL 12.1 (fake)", SearchPath: "public", Path: []string{"public"}, Schemas: []pgfake.Schema{{Name: "public", Owner: "me"}}})
}

func (k *sslCase) attempts() (mode string, l []string) {
	switch k.Env {
	case "", "disable", "allow", "prefer", "require", "verify-ca", "verify-full":
	default:
		return "invalid", nil
	}
	mode = k.Mode
	if mode == "" {
		switch {
		case k.Password != "":
			mode = "verify-full"
		case k.Env != "":
			mode = k.Env
		default:
			mode = "prefer"
		}
		if mode == "verify-ca" {
			mode = "verify-full" // which is stricter
		}
	}
	switch mode {
	case "disable":
		return mode, []string{"plain"}
	case "allow":
		return mode, []string{"plain", "tls"}
	case "prefer":
		return mode, []string{"tls", "plain"}
	case "require":
		return mode, []string{"tls"}
	case "verify-full":
		return mode, []string{"verified"}
	}
	return "invalid", nil
}

func sslModes(ctx *vk.Ctx) {
	certificates(ctx)
	var cases []sslCase
	for _, mode := range []string{"", "disable", "allow", "prefer", "require", "verify-full", "verify-ca", "bogus", "REQUIRE", " "} {
		for _, env := range []string{"", "disable", "allow", "prefer", "require", "verify-ca", "verify-full", "bogus"} {
			for _, pass := range []string{"", "option", "env", "both"} {
				for _, kind := range []string{"none", "good", "wrong name", "untrusted", "expired"} {
					for _, policy := range []string{"", "tls only", "plain only"} {
						for _, auth := range []string{"", "password", "md5", "reject"} {
							if policy == "tls only" && kind == "none" {
								continue
							}
							if pass == "" && (auth == "password" || auth == "md5") {
								continue
							}
							if (mode == "bogus" || mode == " " || mode == "verify-ca" || mode == "REQUIRE" || env == "bogus") && (policy != "" || auth != "" || pass == "both") {
								continue
							}
							for _, envHost := range []string{"", "127.0.0.2", "127.0.0.1", "localhost"} {
								if envHost != "" && (policy != "" || auth != "") {
									continue
								}
								for _, host := range []string{"127.0.0.1", "localhost"} {
									cases = append(cases, sslCase{Mode: mode, Env: env, EnvHost: envHost, Host: host, Password: pass, TLS: kind, Policy: policy, Auth: auth})
								}
							}
						}
					}
				}
			}
		}
	}
	db := simple()
	ctx.Cases("matrix", len(cases), func(cs *vk.Case) {
		k := cases[cs.I]
		cs.Describe(k)
		cleanEnv()
		mode, attempts := k.attempts()
		s := &pgfake.Server{TLS: configs[k.TLS+" "+k.Host], RefusePlan: k.Policy == "tls only", RefuseTLS: k.Policy == "plain only", Auth: k.Auth, Password: "s3cret",
			Describe: func(c *pgfake.Conn, sql string) (int, []pgfake.Col, *pgfake.Error) { return db.Describe(sql) },
			Exec: func(c *pgfake.Conn, q *pgfake.Query) []*pgfake.Result {
				r, err := db.Exec(q.SQL, q.Args)
				if err != nil {
					return []*pgfake.Result{{Fault: &pgfake.Fault{Kind: "error", Err: *err}}}
				}
				return []*pgfake.Result{r}
			}}
		if s.TLS != nil && cs.I%3 > 0 {
			s.TLS = s.TLS.Clone()
			// both are supported
			v := []uint16{0, tls.VersionTLS12, tls.VersionTLS13}[cs.I%3]
			s.TLS.MinVersion, s.TLS.MaxVersion = v, v
		}
		s.Listen("tcp", "127.0.0.1:0")
		o := options(s)
		o.SSLMode = k.Mode
		o.Host = k.Host
		if k.Env != "" {
			os.Setenv("PGSSLMODE", k.Env)
		}
		if k.EnvHost != "" {
			os.Setenv("PGHOST", k.EnvHost)
			if k.EnvHost == k.Host && cs.I%2 == 0 {
				o.Host = "" // only the environment knows
			}
		}
		switch k.Password {
		case "option":
			o.Password = "s3cret"
		case "env":
			os.Setenv("PGPASSWORD", "s3cret")
		case "both":
			o.Password = "s3cret"
			os.Setenv("PGPASSWORD", "another")
		}
		// what should happen
		var want []string
		ok := false
		for _, a := range attempts {
			works := k.Auth != "reject"
			switch a {
			case "plain":
				works = works && k.Policy != "tls only"
			case "tls":
				works = works && k.TLS != "none" && k.Policy != "plain only"
			case "verified":
				works = works && k.TLS == "good" && k.Policy != "plain only"
			}
			want = append(want, a)
			if works {
				ok = true
				break
			}
		}
		c, err := pg.New(o)
		if err == nil {
			if v, err := c.ServerVersion(); err != nil || v != "PostgreSQL 12.1 (fake)" {
				cs.Violatef("the connection can't be used: %q, %v", v, err)
			}
			c.Close()
		} else if c != nil {
			cs.Violatef("got a connection and the error %v", err)
		}
		left := s.Close()
		conns := s.Conns()
		if left > 0 {
			cs.Violatef("%d connections were left open", left)
		}
		if ok != (err == nil) {
			cs.Violatef("mode %s (%s): expected success to be %v, but the error is %v", mode, strings.Join(attempts, ", then "), ok, err)
		}
		var got []string
		for _, c := range conns {
			switch {
			case !c.AskedTLS:
				got = append(got, "plain")
			case mode == "verify-full":
				got = append(got, "verified")
			default:
				got = append(got, "tls")
			}
			if c.AskedTLS && c.Plain {
				cs.Violatef("mode %s: continued in plain text after asking for encryption", mode)
			}
			if c.Plain && (mode == "require" || mode == "verify-full" || mode == "invalid") {
				cs.Violatef("mode %s: sent a startup message without encryption", mode)
			}
			if c.Startup != nil && mode == "verify-full" && k.TLS != "good" {
				cs.Violatef("mode %s: trusted a server whose certificate is %s", mode, k.TLS)
			}
			if c.AskedTLS && mode == "disable" {
				cs.Violatef("mode disable: asked for encryption")
			}
			if (k.Auth == "password") && c.Ready && c.Password != "s3cret" {
				cs.Violatef("the password is %q", c.Password)
			}
		}
		if strings.Join(got, " ") != strings.Join(want, " ") {
			cs.Violatef("mode %s: attempts were [%s], expected [%s]", mode, strings.Join(got, ", "), strings.Join(want, ", "))
		}
		cs.Nontrivial(vk.JSON(k))
		cs.Hist("modes", mode)
		cs.Count("connections", len(conns))
	})
	cleanEnv()
}

// ------------------------------------------------------------------- settings

// grid listens at two addresses with the same two ports
func grid(mk func() *pgfake.Server) (map[string]*pgfake.Server, []uint16) {
	for try := 0; ; try++ {
		if try > 50 {
			panic("monitor panic: no free ports")
		}
		servers := map[string]*pgfake.Server{}
		var ports []uint16
		ok := true
		for i := 0; i < 2; i++ {
			a := mk()
			a.Listen("tcp", "127.0.0.1:0")
			p := a.Port()
			ports = append(ports, p)
			servers[fmt.Sprintf("127.0.0.1:%d", p)] = a
			addr := fmt.Sprintf("127.0.0.2:%d", p)
			b := mk()
			if err := b.TryListen("tcp", addr); err != nil {
				ok = false
				break
			}
			servers[addr] = b
		}
		if ok {
			return servers, ports
		}
		for _, s := range servers {
			s.Close()
		}
	}
}

func basic(version string) *pgfake.Server {
	db := pgfake.Build(nrand(), &pgfake.Database{Version: version, SearchPath: "public", Path: []string{"public"}, Schemas: []pgfake.Schema{{Name: "public", Owner: "me"}}})
	return &pgfake.Server{
		Describe: func(c *pgfake.Conn, sql string) (int, []pgfake.Col, *pgfake.Error) { return db.Describe(sql) },
		Exec: func(c *pgfake.Conn, q *pgfake.Query) []*pgfake.Result {
			r, err := db.Exec(q.SQL, q.Args)
			if err != nil {
				return []*pgfake.Result{{Fault: &pgfake.Fault{Kind: "error", Err: *err}}}
			}
			return []*pgfake.Result{r}
		}}
}

func settings(ctx *vk.Ctx) {
	me, err := user.Current()
	must(err)
	ctx.Cases("case", ctx.N(800, 20000), func(cs *vk.Case) {
		cleanEnv()
		r := cs.R
		servers, ports := grid(func() *pgfake.Server {
			s := basic("v")
			s.Auth = []string{"", "password", "md5"}[r.Intn(3)]
			s.Auth = "password"
			return s
		})
		// different settings may have the same value
		passwords := []string{"", "pw1", "päss 'wörd\"", "p w", "alice", "one", " padded ", "\ttab\t", "%20", "a@b:c/d?e#f", `back\slash`}
		users := []string{"", "alice", "Bob's", "üser", "one", me.Username}
		dbs := []string{"", "one", "Weird DB", "été", "alice", "postgres", me.Username}
		hosts := []string{"", "127.0.0.1", "127.0.0.2", "localhost"}
		pick := func(l []string) string { return vk.Stretch(r, l[r.Intn(len(l))], 63) }
		opt := map[string]string{"host": hosts[r.Intn(len(hosts))], "user": pick(users), "password": pick(passwords), "database": pick(dbs)}
		env := map[string]string{"host": hosts[r.Intn(len(hosts))], "user": pick(users), "password": pick(passwords), "database": pick(dbs)}
		optPort, envPort := uint16(0), uint16(0)
		if opt["host"] == "" && env["host"] == "" {
			opt["host"] = "127.0.0.2"
		}
		switch r.Intn(3) {
		case 0:
			optPort = ports[r.Intn(2)]
		case 1:
			envPort = ports[r.Intn(2)]
		default:
			optPort, envPort = ports[0], ports[1]
			if r.Intn(2) == 0 {
				optPort, envPort = envPort, optPort
			}
		}
		d := map[string]interface{}{"options": opt, "environment": env, "ports": []uint16{optPort, envPort}}
		cs.Describe(d)
		for k, name := range map[string]string{"host": "PGHOST", "user": "PGUSER", "password": "PGPASSWORD", "database": "PGDATABASE"} {
			if env[k] != "" {
				os.Setenv(name, env[k])
			}
		}
		if envPort != 0 {
			os.Setenv("PGPORT", fmt.Sprint(envPort))
		}
		first := func(k string) string {
			if opt[k] != "" {
				return opt[k]
			}
			return env[k]
		}
		port := optPort
		if port == 0 {
			port = envPort
		}
		for _, s := range servers {
			s.Password = first("password")
		}
		target := strings.Replace(fmt.Sprintf("%s:%d", first("host"), port), "localhost", "127.0.0.1", 1)
		var err error
		// through the package, or a command, which has no option for the password
		if r.Intn(3) == 0 {
			for _, s := range servers {
				s.Password = env["password"]
			}
			opt["password"] = ""
			var out bytes.Buffer
			base := &commands.Base{}
			base.IO = sys.IO{Log: logger.Discard(), Stdout: &out, Stderr: &out}
			if r.Intn(2) == 0 {
				err = (&commands.PingCmd{Host: opt["host"], Port: optPort, SSLMode: "disable", DBName: opt["database"], Username: opt["user"]}).Run(base)
			} else {
				err = (&commands.InspectCmd{Host: opt["host"], Port: optPort, SSLMode: "disable", DBName: opt["database"], Username: opt["user"]}).Run(base)
			}
		} else {
			var c *pg.Conn
			c, err = pg.New(&pg.Options{Log: logger.Discard(), Host: opt["host"], Port: optPort, SSLMode: "disable", Username: opt["user"],
				Password: opt["password"], Database: opt["database"], ConnectRetries: r.Intn(2)})
			if err == nil {
				err = c.Close()
			}
		}
		cleanEnv()
		if err != nil {
			cs.Violatef("connecting failed: %v", err)
		}
		for addr, s := range servers {
			left := s.Close()
			conns := s.Conns()
			if left > 0 {
				cs.Violatef("%d connections were left open", left)
			}
			if addr != target {
				if len(conns) > 0 {
					cs.Violatef("connected to %s instead of %s", addr, target)
				}
				continue
			}
			if len(conns) != 1 {
				cs.Violatef("connected %d times to %s", len(conns), addr)
				continue
			}
			c := conns[0]
			wantUser := first("user")
			if wantUser == "" {
				wantUser = me.Username
			}
			if c.Startup["user"] != wantUser {
				cs.Violatef("connected as %q instead of %q", c.Startup["user"], wantUser)
			}
			if c.Startup["database"] != first("database") {
				cs.Violatef("connected to database %q instead of %q", c.Startup["database"], first("database"))
			}
			if c.Password != first("password") {
				cs.Violatef("sent password %q instead of %q", c.Password, first("password"))
			}
			if !c.Terminated {
				cs.Violatef("the connection was abandoned")
			}
		}
		cs.Nontrivial(fmt.Sprint(opt, env, optPort != 0, envPort != 0))
	})
}

// -------------------------------------------------------------------- retries

type retryCase struct {
	Retries  int
	Failures []string
	Unix     bool
}

func retries(ctx *vk.Ctx) {
	kinds := []string{"drop", "error", "ready-error"}
	var cases []retryCase
	for n := -1; n <= 4; n++ {
		for f := 0; f <= n+2 && f <= 6; f++ {
			for v := 0; v < 6; v++ {
				k := retryCase{Retries: n}
				for i := 0; i < f; i++ {
					if v < 3 {
						k.Failures = append(k.Failures, kinds[v])
					} else {
						k.Failures = append(k.Failures, kinds[(i*i+v+i/2)%3])
					}
				}
				k.Unix = v == 5
				cases = append(cases, k)
			}
		}
	}
	ctx.Cases("matrix", len(cases), func(cs *vk.Case) {
		cleanEnv()
		k := cases[cs.I]
		cs.Describe(k)
		s := basic("v")
		s.Fail = func(n int) string {
			if n <= len(k.Failures) {
				return k.Failures[n-1]
			}
			return ""
		}
		o := &pg.Options{Log: logger.Discard(), Host: "127.0.0.1", SSLMode: "disable", Username: "me", Database: "db", ConnectRetries: k.Retries}
		if k.Unix {
			dir := cs.Scratch()
			defer os.RemoveAll(dir)
			s.Listen("unix", filepath.Join(dir, ".s.PGSQL.5444"))
			o.Host, o.Port = dir, 5444
		} else {
			s.Listen("tcp", "127.0.0.1:0")
			o.Port = s.Port()
		}
		budget := k.Retries
		if budget < 0 {
			budget = 0
		}
		want, ok := len(k.Failures)+1, true
		if len(k.Failures) > budget {
			want, ok = budget+1, false
		}
		var err error
		synctest.Test(cs.T, func(t *testing.T) {
			var c *pg.Conn
			c, err = pg.New(o)
			if err == nil {
				if v, e := c.ServerVersion(); e != nil || v != "v" {
					cs.Violatef("the connection can't be used: %q, %v", v, e)
				}
				if e := c.Close(); e != nil {
					cs.Violatef("closing failed: %v", e)
				}
			} else if c != nil {
				cs.Violatef("got a connection and the error %v", err)
			}
		})
		left := s.Close()
		if left > 0 {
			cs.Violatef("%d connections were left open", left)
		}
		if ok != (err == nil) {
			cs.Violatef("%d failures, %d retries: result is %v", len(k.Failures), k.Retries, err)
		}
		if got := len(s.Conns()); got != want {
			cs.Violatef("%d failures, %d retries: connected %d times instead of %d", len(k.Failures), k.Retries, got, want)
		}
		if ok && len(s.Conns()) > 0 {
			if last := s.Conns()[len(s.Conns())-1]; !last.Terminated || len(last.Queries) == 0 {
				cs.Violatef("the last connection isn't the one that was used and closed")
			}
		}
		cs.Nontrivial(vk.JSON(k))
		cs.Count("attempts", len(s.Conns()))
	})
}

func pauses(ctx *vk.Ctx) {
	many := []int{12, 20, 30}
	ctx.Cases("retries", 8+len(many), func(cs *vk.Case) {
		cleanEnv()
		n := cs.I + 1
		if n > 8 {
			n = many[n-9]
		}
		cs.Describe(n)
		var last, prev time.Duration
		for f := 0; f <= n; f++ {
			s := basic("v")
			f := f
			s.Fail = func(i int) string {
				if i <= f {
					return "error"
				}
				return ""
			}
			s.Listen("tcp", "127.0.0.1:0")
			o := options(s)
			o.ConnectRetries = n
			var total time.Duration
			synctest.Test(cs.T, func(t *testing.T) {
				begin := time.Now()
				c, err := pg.New(o)
				total = time.Since(begin)
				if err != nil {
					cs.Violatef("%d failures, %d retries: %v", f, n, err)
					return
				}
				c.Close()
			})
			s.Close()
			if cs.Bad() {
				return
			}
			pause := total - last
			last = total
			if f == 0 {
				if total != 0 {
					cs.Violatef("waited %v without a reason", total)
				}
				continue
			}
			if pause <= 0 {
				cs.Violatef("no pause before attempt %d", f+1)
			}
			if pause < prev {
				cs.Violatef("the pause before attempt %d is %v, and %v before the one before", f+1, pause, prev)
			}
			prev = pause
			cs.Nontrivial(fmt.Sprint(n, f))
		}
		cs.Sample(fmt.Sprintf("%d failures: %v in total", n, last))
	})
	ctx.One("refused", func(cs *vk.Case) {
		cleanEnv()
		s := basic("v")
		s.Listen("tcp", "127.0.0.1:0")
		o := options(s)
		s.Close()
		o.ConnectRetries = 3
		synctest.Test(cs.T, func(t *testing.T) {
			c, err := pg.New(o)
			if err == nil || c != nil {
				cs.Violatef("nobody listens, but connecting succeeded")
			}
		})
	})
}

// ----------------------------------------------------------------------- ping

type brokenWriter struct{}

func (brokenWriter) Write(p []byte) (int, error) { return 0, errors.New("broken writer") }

func ping(ctx *vk.Ctx) {
	versions := []string{"PostgreSQL 12.1", "PostgreSQL 9.6.24 (Debian 9.6.24-1.pgdg90+1) on x86_64-pc-linux-gnu, compiled by gcc (Debian 6.3.0-18) 6.3.0 20170516, 64-bit", "12.1 ", " 12.1", "12.1\n", "\n", "13beta1", "12.1\r\n", "\ttab", "EnterpriseDB 11.5.12", "\ufeff", "", "two\nlines", "%s %d", "déjà", strings.Repeat("long ", 2000)}
	ctx.Cases("case", ctx.N(60, 1000), func(cs *vk.Case) {
		cleanEnv()
		v := versions[cs.R.Intn(len(versions))]
		s := basic(v)
		how := cs.R.Intn(4)
		fault := []string{"error", "drop", "bind"}[cs.R.Intn(3)]
		code := pick(cs.R, sqlCodes)
		if how == 0 {
			exec := s.Exec
			after := cs.R.Intn(2)
			s.Exec = func(c *pgfake.Conn, q *pgfake.Query) []*pgfake.Result {
				r := exec(c, q)
				r[0].Fault = &pgfake.Fault{Kind: fault, After: after, Err: pgfake.Error{Code: code, Message: "injected"}}
				return r
			}
		}
		cs.Describe([]interface{}{v, how, fault, code})
		s.Listen("tcp", "127.0.0.1:0")
		var out, errs bytes.Buffer
		base := &commands.Base{}
		base.IO = sys.IO{Log: logger.Discard(), Stdout: &out, Stderr: &errs}
		if how == 1 {
			base.IO.Stdout = brokenWriter{}
		}
		err := (&commands.PingCmd{Host: "127.0.0.1", Port: s.Port(), SSLMode: "disable", DBName: "db", Username: "me"}).Run(base)
		left := s.Close()
		if left > 0 {
			cs.Violatef("the connection was left open")
		}
		if n := len(s.Conns()); n != 1 {
			cs.Violatef("%d connections", n)
		} else if c := s.Conns()[0]; !c.Terminated && how != 0 {
			cs.Violatef("the connection was abandoned")
		}
		switch {
		case how <= 1 && err == nil:
			cs.Violatef("ping succeeded, although %s", []string{"the query failed", "its output can't be written"}[how])
		case how == 0 && fault != "error" && out.Len() > 0, how == 0 && out.Len() > 0:
			cs.Violatef("ping failed, but printed %q", out.String())
		case how > 1 && err != nil:
			cs.Violatef("ping failed: %v", err)
		case how > 1 && out.String() != v+"\n":
			cs.Violatef("ping printed %q instead of %q", out.String(), v+"\n")
		}
		if errs.Len() > 0 {
			cs.Violatef("ping wrote %q to stderr", errs.String())
		}
		cs.Nontrivial(fmt.Sprint(v, how, fault))
	})
}
