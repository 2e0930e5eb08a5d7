//go:build go1.22

package pgnet

import (
	"bytes"
	"debug/buildinfo"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"time"

	"github.com/sjansen/pgutil/internal/commands"
	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/sys"
	"github.com/sjansen/pgutil/internal/zverif/pgfake"
	"github.com/sjansen/pgutil/internal/zverif/vk"
)

// The program itself, used like its users do.

func init() {
	vk.Register("C36", "commands", cliCommands)
	vk.Register("C36", "mistakes", cliMistakes)
	vk.Register("C36", "help", cliHelp)
}

// ended is what was observed of a process
type ended struct {
	Code           int
	Stdout, Stderr string
}

func program(dir string, full bool, args []string, env ...string) *ended {
	cmd := exec.Command(os.Getenv("VERIF_BIN"), args...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + dir, "TMPDIR=" + dir}
	cmd.Env = append(cmd.Env, env...)
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	if full {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		must(err)
		defer f.Close()
		cmd.Stdout = f
	}
	must(cmd.Start())
	over := time.AfterFunc(60*time.Second, func() { cmd.Process.Signal(syscall.SIGQUIT) })
	err := cmd.Wait()
	if !over.Stop() {
		panic("monitor panic: the program didn't end in time: " + vk.JSON(args) + "\n" + errs.String())
	}
	e := &ended{Stdout: out.String(), Stderr: errs.String()}
	if err != nil {
		var x *exec.ExitError
		if !errors.As(err, &x) {
			panic("monitor panic: " + err.Error())
		}
		e.Code = x.ExitCode()
	}
	return e
}

// flag is a way to write an option
type flag struct {
	long, short, value string
	boolean            bool
}

func (f flag) render(r *rand.Rand) []string {
	switch {
	case f.boolean && (f.short == "" || f.long != "" && r.Intn(2) == 0):
		return []string{"--" + f.long}
	case f.boolean:
		return []string{"-" + f.short}
	case f.short == "" || f.long != "" && r.Intn(2) == 0:
		if r.Intn(2) == 0 || strings.HasPrefix(f.value, "-") {
			return []string{"--" + f.long + "=" + f.value}
		}
		return []string{"--" + f.long, f.value}
	case f.value != "" && (r.Intn(2) == 0 || f.value[0] == '-'):
		return []string{"-" + f.short + f.value}
	}
	return []string{"-" + f.short, f.value}
}

// line is a command line
type line struct {
	verbose, quiet int
	debug          string
	words          []string
	flags          []flag
	file           string
}

// render writes it in one of many equivalent ways
func (l *line) render(r *rand.Rand) []string {
	var globals [][]string
	v, q := l.verbose, l.quiet
	for v+q > 0 {
		// several short flags may share a dash
		if n := 1 + r.Intn(v+q); r.Intn(2) == 0 {
			s := "-"
			for ; n > 0; n-- {
				if v > 0 && (q == 0 || r.Intn(2) == 0) {
					v, s = v-1, s+"v"
				} else {
					q, s = q-1, s+"q"
				}
			}
			globals = append(globals, []string{s})
		} else if v > 0 {
			v, globals = v-1, append(globals, flag{long: "verbose", short: "v", boolean: true}.render(r))
		} else {
			q, globals = q-1, append(globals, flag{long: "quiet", short: "q", boolean: true}.render(r))
		}
	}
	if l.debug != "" {
		globals = append(globals, flag{long: "debug", value: l.debug}.render(r))
	}
	var before, after [][]string
	for _, g := range globals {
		if r.Intn(2) == 0 {
			before = append(before, g)
		} else {
			after = append(after, g)
		}
	}
	for _, f := range l.flags {
		after = append(after, f.render(r))
	}
	if l.file != "" {
		after = append(after, []string{l.file})
	}
	r.Shuffle(len(before), func(i, j int) { before[i], before[j] = before[j], before[i] })
	r.Shuffle(len(after), func(i, j int) { after[i], after[j] = after[j], after[i] })
	var out []string
	for _, x := range before {
		out = append(out, x...)
	}
	out = append(out, l.words...)
	for _, x := range after {
		out = append(out, x...)
	}
	return out
}

func (l *line) verbosity() int { return 1 + l.verbose - l.quiet }

var logLine = regexp.MustCompile(`^(ERROR|WARN|INFO|DEBUG)\t`)

// split a program's output into its log and the rest
func split(s string) (log []string, rest string) {
	for _, l := range strings.SplitAfter(s, "\n") {
		if logLine.MatchString(l) {
			log = append(log, strings.TrimSuffix(l, "\n"))
		} else {
			rest += l
		}
	}
	return log, rest
}

func newLine(r *rand.Rand, dir string) *line {
	l := &line{}
	if r.Intn(2) == 0 {
		l.verbose = r.Intn(4)
	}
	if r.Intn(3) == 0 {
		l.quiet = r.Intn(3)
	}
	if r.Intn(4) == 0 {
		l.debug = filepath.Join(dir, []string{"debug.log", "de bug.log"}[r.Intn(2)])
	}
	return l
}

// judge compares what a command did with what it should have done.
// want is its output besides the log; with failure, an error's message follows (if known).
func judge(cs *vk.Case, l *line, e *ended, want string, failure bool, message string) {
	code := 0
	if failure {
		code = 1
	}
	if e.Code != code {
		cs.Violatef("the exit status is %d instead of %d; stdout %q, stderr %q", e.Code, code, e.Stdout, e.Stderr)
		return
	}
	log, rest := split(e.Stdout)
	if failure {
		if !strings.HasPrefix(rest, want) {
			cs.Violatef("printed %q, which doesn't start with %q", rest, want)
		}
		got := strings.TrimPrefix(rest, want)
		if strings.TrimSpace(got) == "" {
			cs.Violatef("failed without any message: %q", e.Stdout)
		}
		if message != "" && got != message+"\n" {
			cs.Violatef("the message is %q instead of %q", got, message)
		}
	} else if rest != want {
		cs.Violatef("printed %q instead of %q", rest, want)
	}
	if e.Stderr != "" {
		cs.Violatef("wrote %q to stderr", e.Stderr)
	}
	checkLog(cs, l.verbosity(), log)
}

func version() string {
	return strings.TrimSpace(strings.TrimPrefix(program(os.TempDir(), false, []string{"version"}).Stdout, "pgutil"))
}

var knownVersion string

func checkLog(cs *vk.Case, verbosity int, log []string) {
	if knownVersion == "" {
		knownVersion = version()
	}
	intro := "INFO\tpgutil version=" + knownVersion
	n := 0
	for _, s := range log {
		level := strings.SplitN(s, "\t", 2)[0]
		if need := map[string]int{"ERROR": -1000, "WARN": 1, "INFO": 2, "DEBUG": 3}[level]; verbosity < need {
			cs.Violatef("logged %q with verbosity %d", s, verbosity)
		}
		if s == intro {
			n++
		}
	}
	if want := 1; verbosity >= 2 && n != want || verbosity < 2 && n != 0 {
		cs.Violatef("with verbosity %d, the version was logged %d times: %q", verbosity, n, log)
	}
}

const earlier = "an earlier line\n"

// checkDebug looks at the debug log
func checkDebug(cs *vk.Case, l *line, existed bool, min int) {
	if l.debug == "" {
		return
	}
	b, err := os.ReadFile(l.debug)
	if err != nil {
		cs.Violatef("there's no debug log: %v", err)
		return
	}
	s := string(b)
	if existed {
		if !strings.HasPrefix(s, earlier) {
			cs.Violatef("the debug log's earlier lines were lost: %q", s)
		}
		s = strings.TrimPrefix(s, earlier)
	}
	if n := strings.Count(s, "\tINFO\tpgutil version="+knownVersion+"\n"); n != 1 {
		cs.Violatef("the version is in the debug log %d times: %q", n, s)
	}
	if n := strings.Count(s, "\tDEBUG\t"); n < min {
		cs.Violatef("there are %d debug messages instead of at least %d in the debug log: %q", n, min, s)
	}
	cs.Count("debug logs checked", 1)
}

// book is a runbook of tasks that leave traces
type book struct {
	path, marker string
	names        []string
	trace        string // of a successful run
	output       string
	fails        bool
	broken       bool
}

func newBook(cs *vk.Case, dir, name string, how string) *book {
	b := &book{path: filepath.Join(dir, name), marker: filepath.Join(dir, "marker")}
	r := cs.R
	tasks := map[string]interface{}{}
	n := 1 + r.Intn(4)
	stop := -1
	if how == "fail" {
		stop, b.fails = r.Intn(n), true
	}
	last := ""
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("%s%d", []string{"task ", "a/", "z", "é"}[r.Intn(4)], i)
		script := fmt.Sprintf("echo '%s' >> '%s'; echo 'out of %s'", id, b.marker, id)
		if i == stop {
			script += "; exit 3"
		}
		t := map[string]interface{}{"target": "sh", "config": map[string]interface{}{"args": []string{"/bin/sh", "-c", script}}}
		if last != "" {
			t["after"] = []string{last}
		}
		if r.Intn(3) == 0 {
			t["message"] = "about to run " + id
		}
		if stop < 0 || i <= stop {
			b.trace += id + "\n"
			b.output += "out of " + id + "\n"
		}
		tasks[id] = t
		b.names = append(b.names, id)
		last = id
	}
	doc := map[string]interface{}{"targets": map[string]interface{}{"sh": map[string]interface{}{"class": "sh"}}, "tasks": tasks}
	switch how {
	case "cycle":
		first := tasks[b.names[0]].(map[string]interface{})
		first["after"] = []string{last}
		b.broken = true
	case "unknown":
		doc["targets"] = map[string]interface{}{"other": map[string]interface{}{"class": "sh"}}
		b.broken = true
	}
	s, _ := json.MarshalIndent(doc, "", " ")
	if how == "syntax" {
		s = s[:len(s)-2]
		b.broken = true
	}
	must(os.WriteFile(b.path, s, 0644))
	return b
}

func (b *book) traces() string {
	s, _ := os.ReadFile(b.marker)
	return string(s)
}

// reference runs a command without its command line
func reference(cmd interface{ Run(*commands.Base) error }) (string, error) {
	var out bytes.Buffer
	base := &commands.Base{}
	base.IO = sys.IO{Log: logger.Discard(), Stdout: &out, Stderr: &bytes.Buffer{}}
	err := cmd.Run(base)
	return out.String(), err
}

func cliCommands(ctx *vk.Ctx) {
	ctx.Cases("case", ctx.N(900, 30000), func(cs *vk.Case) {
		cleanEnv()
		r := cs.R
		dir := cs.Scratch()
		l := newLine(r, dir)
		existed := l.debug != "" && r.Intn(2) == 0
		if existed {
			must(os.WriteFile(l.debug, []byte(earlier), 0644))
		}
		full := r.Intn(12) == 0
		kind := []string{"version", "run", "run", "list", "dot", "eval", "ping", "inspect", "inspect"}[r.Intn(9)]
		cs.Hist("commands", kind)
		args := []string{}
		describe := func() {
			args = l.render(r)
			cs.Describe(map[string]interface{}{"args": args, "stdout is full": full})
			cs.Nontrivial(strings.Replace(vk.JSON(args), dir, "", -1))
		}
		fullWant := func(e *ended) {
			if e.Code != 1 {
				cs.Violatef("the exit status is %d although the output can't be written", e.Code)
			}
		}
		hows := []string{"good", "good", "good", "good", "cycle", "unknown", "syntax"}
		name := []string{"book.jsonnet", "b.json", "my book.x", "book", "list", "a.b.c"}[r.Intn(6)]
		file := filepath.Join(dir, name)
		if r.Intn(3) == 0 && name != "list" {
			file = name // relative to the current directory
		} else if r.Intn(4) == 0 {
			file = "./" + name
		}
		output, previous := "", "previous content, longer than "+strings.Repeat("usual ", 2000)
		l.words = []string{"runbook", kind}
		l.file = file
		if kind == "dot" || kind == "eval" || kind == "inspect" {
			switch r.Intn(4) {
			case 0:
				output = filepath.Join(dir, []string{"out put", "out.dot"}[r.Intn(2)])
				l.flags = append(l.flags, flag{long: "output", short: "o", value: output})
				if r.Intn(2) == 0 {
					must(os.WriteFile(output, []byte(previous), 0644))
				} else {
					previous = ""
				}
			case 1:
				l.flags = append(l.flags, flag{long: "output", short: "o", value: "-"})
			}
		}
		// written compares the output of a command that may write to a file
		written := func(e *ended, want string, err error) {
			stdout, msg := want, ""
			if err != nil {
				stdout, msg = "", err.Error()
			}
			if output == "" {
				if full && err == nil {
					fullWant(e)
				} else if full {
					fullWant(e)
				} else {
					judge(cs, l, e, stdout, err != nil, msg)
				}
				return
			}
			if !full {
				judge(cs, l, e, "", err != nil, msg)
			} else if (e.Code == 0) != (err == nil) {
				cs.Violatef("the exit status is %d, although the result was %v", e.Code, err)
			}
			b, rerr := os.ReadFile(output)
			switch {
			case err == nil && (rerr != nil || string(b) != want):
				cs.Violatef("the output file has %q (%v) instead of %q", b, rerr, want)
			case err != nil && rerr == nil && string(b) != previous, err != nil && rerr != nil && previous != "":
				cs.Violatef("the command failed with %v, but the output file was changed", err)
			case err != nil && rerr == nil && previous == "":
				cs.Violatef("the command failed with %v, but created its output file", err)
			}
		}
		switch kind {
		case "version":
			l.words, l.file = []string{"version"}, ""
			long := r.Intn(2) == 0
			if long {
				l.flags = append(l.flags, flag{long: "long", short: "l", boolean: true})
			}
			describe()
			e := program(dir, full, args)
			if full {
				fullWant(e)
				return
			}
			if knownVersion == "" {
				knownVersion = version()
			}
			if knownVersion == "" || strings.ContainsAny(knownVersion, "\n ") {
				cs.Violatef("the version is %q", knownVersion)
			}
			want := "pgutil " + knownVersion + "\n"
			if !long {
				judge(cs, l, e, want, false, "")
			} else {
				_, rest := split(e.Stdout)
				if !strings.HasPrefix(rest, want) || e.Code != 0 {
					cs.Violatef("printed %q, exit status %d", rest, e.Code)
				}
				info, err := buildinfo.ReadFile(os.Getenv("VERIF_BIN"))
				must(err)
				deps := map[string]int{}
				for _, s := range strings.Split(rest, "\n")[1:] {
					if f := strings.Fields(s); len(f) > 0 {
						deps[strings.Join(f, " ")]++
					}
				}
				if len(deps) != len(info.Deps) {
					cs.Violatef("%d dependencies are listed instead of %d", len(deps), len(info.Deps))
				}
				for _, m := range info.Deps {
					if n := deps[m.Path+" "+m.Version]; n != 1 {
						cs.Violatef("dependency %s %s is listed %d times", m.Path, m.Version, n)
					}
				}
			}
			checkDebug(cs, l, existed, 0)
		case "run":
			b := newBook(cs, dir, name, append(hows, "fail", "fail")[r.Intn(len(hows)+2)])
			if r.Intn(2) == 0 {
				l.words = []string{"runbook"}
			}
			describe()
			e := program(dir, false, args)
			want, trace := b.output, b.trace
			if b.broken {
				want, trace = "", ""
			}
			judge(cs, l, e, want, b.broken || b.fails, "")
			if got := b.traces(); got != trace {
				cs.Violatef("the tasks %q were executed instead of %q", got, trace)
			}
			min := len(b.names)
			if b.broken || b.fails {
				min = 0
			}
			checkDebug(cs, l, existed, min)
			log, _ := split(e.Stdout)
			if l.verbosity() >= 3 && min > 0 && !strings.Contains(strings.Join(log, "\n"), "DEBUG\t") {
				cs.Violatef("no debug messages with verbosity %d", l.verbosity())
			}
		case "list":
			b := newBook(cs, dir, name, hows[r.Intn(len(hows))])
			l.words[1] = []string{"list", "ls"}[r.Intn(2)]
			describe()
			e := program(dir, full, args)
			want, err := reference(&commands.RunBookListCmd{File: absolute(dir, file)})
			if full {
				fullWant(e)
			} else {
				judgeRelative(cs, l, e, want, err, dir)
			}
			nothing(cs, b)
			checkDebug(cs, l, existed, 0)
		case "dot":
			b := newBook(cs, dir, name, hows[r.Intn(len(hows))])
			splines := ""
			if r.Intn(2) == 0 {
				splines = []string{"curved", "line", "ortho"}[r.Intn(3)]
				l.flags = append(l.flags, flag{long: "splines", value: splines})
			}
			auto := r.Intn(3) == 0
			if auto {
				l.flags = append(l.flags, flag{short: "O", boolean: true})
				if len(l.flags) == 1 || output == "" && !hasFlag(l, "output") {
					output = filepath.Join(dir, strings.TrimSuffix(name, filepath.Ext(name))+".dot")
					previous = ""
				}
			}
			describe()
			e := program(dir, full, args)
			want, err := reference(&commands.RunBookDotCmd{File: absolute(dir, file), Splines: splines})
			if err == nil && splines != "" && !strings.Contains(want, splines) {
				cs.Violatef("the graph lacks splines=%s: %q", splines, want)
			}
			written(e, want, relative(err, dir, file))
			nothing(cs, b)
			checkDebug(cs, l, existed, 0)
		case "eval":
			b := newBook(cs, dir, name, hows[r.Intn(len(hows))])
			color := ""
			if r.Intn(2) == 0 {
				color = []string{"auto", "true", "false"}[r.Intn(3)]
				l.flags = append(l.flags, flag{long: "color", short: "c", value: color})
			}
			describe()
			e := program(dir, full, args)
			want, err := reference(&commands.RunBookEvalCmd{File: absolute(dir, file), Color: color})
			if err == nil && strings.Contains(want, "\x1b") != (color == "true") {
				cs.Violatef("wrong colors: %q", want)
			}
			written(e, want, relative(err, dir, file))
			nothing(cs, b)
			checkDebug(cs, l, existed, 0)
		case "ping", "inspect":
			l.words, l.file = []string{kind}, ""
			var s *pgfake.Server
			v := vk.Stretch(r, []string{"PostgreSQL 12.1", "x", "déjà"}[r.Intn(3)], 100000)
			o := &commands.InspectCmd{}
			if kind == "ping" {
				s = basic(v)
			} else {
				m := generate(r, 1+r.Intn(3))
				s = serving(pgfake.Build(r, m.d), nil, nil)
				for _, x := range []struct {
					name string
					on   *bool
				}{{"sort-columns", &o.SortColumns}, {"sort-check-constraints", &o.SortChecks}, {"sort-indexes", &o.SortIndexes}} {
					switch r.Intn(4) {
					case 0, 1:
						*x.on = true
						l.flags = append(l.flags, flag{long: x.name, boolean: true})
					case 2:
						l.flags = append(l.flags, flag{long: "no-" + x.name, boolean: true})
					}
				}
			}
			reject := r.Intn(6) == 0
			// settings may have the same value
			o.Host, o.DBName, o.Username, o.SSLMode = []string{"127.0.0.1", "localhost"}[r.Intn(2)], []string{"db", "my db", "d'b", "me"}[r.Intn(4)], []string{"me", "you", "Ünï", "db"}[r.Intn(4)], "disable"
			if reject {
				s.User = "nobody"
			}
			s.Listen("tcp", "127.0.0.1:0")
			o.Port = s.Port()
			ssl := []string{"disable", "allow", "prefer", "require", "verify-full"}[r.Intn(5)]
			var env []string
			for _, x := range []struct {
				flag   flag
				env    string
				others []string
			}{
				{flag{long: "host", short: "h", value: o.Host}, "PGHOST", []string{"127.0.0.2", "nowhere.invalid"}},
				{flag{long: "port", short: "p", value: fmt.Sprint(o.Port)}, "PGPORT", []string{"1", "5432"}},
				{flag{long: "dbname", short: "d", value: o.DBName}, "PGDATABASE", []string{"other", o.Username}},
				{flag{long: "username", short: "U", value: o.Username}, "PGUSER", []string{"other", o.DBName}},
				{flag{long: "sslmode", value: ssl}, "PGSSLMODE", []string{"disable", "allow", "prefer", "require", "verify-full"}},
			} {
				// an option, a variable, or both, in which case the option counts
				switch how := r.Intn(5); how {
				case 0:
					env = append(env, x.env+"="+x.flag.value)
				case 1:
					env = append(env, x.env+"="+x.others[r.Intn(len(x.others))])
					fallthrough
				default:
					l.flags = append(l.flags, x.flag)
				}
			}
			describe()
			cs.Describe(map[string]interface{}{"args": args, "environment": env, "stdout is full": full})
			e := program(dir, full, args, env...)
			if n := s.Close(); n > 0 {
				cs.Violatef("%d connections were left open", n)
			}
			conns := s.Conns()
			asked := 0
			for _, c := range conns {
				if c.AskedTLS {
					asked++
				}
				if c.Startup != nil && (c.Startup["user"] != o.Username || c.Startup["database"] != o.DBName) {
					cs.Violatef("connected as %v instead of %q to %q", c.Startup, o.Username, o.DBName)
				}
			}
			strict := ssl == "require" || ssl == "verify-full"
			switch {
			case len(conns) == 0:
				cs.Violatef("the server wasn't contacted")
			case ssl == "disable" && asked > 0:
				cs.Violatef("asked for TLS although it's disabled")
			case (strict || ssl == "prefer") && !conns[0].AskedTLS:
				cs.Violatef("didn't ask for TLS with sslmode %s", ssl)
			case strict && conns[0].Plain:
				cs.Violatef("used an unencrypted session with sslmode %s", ssl)
			}
			failure := strict || reject
			switch {
			case failure:
				if full {
					fullWant(e)
				} else {
					judge(cs, l, e, "", true, "")
				}
				if b, err := os.ReadFile(output); output != "" && (err == nil) != (previous != "") || output != "" && string(b) != previous {
					cs.Violatef("the output file was changed although the command failed")
				}
			case kind == "ping" && full:
				fullWant(e)
			case kind == "ping":
				judge(cs, l, e, v+"\n", false, "")
			default:
				must(s.TryListen("tcp", "127.0.0.1:0"))
				o.Port = s.Port()
				want, err := reference(o)
				s.Close()
				if err != nil {
					cs.Violatef("can't inspect without the command line: %v", err)
					return
				}
				written(e, want, nil)
			}
			checkDebug(cs, l, existed, 0)
		}
		cs.Hist("verbosity", fmt.Sprint(l.verbosity()))
		if len(args) > 6 {
			cs.Sample(args)
		}
	})
}

func hasFlag(l *line, long string) bool {
	for _, f := range l.flags {
		if f.long == long {
			return true
		}
	}
	return false
}

func absolute(dir, file string) string {
	if filepath.IsAbs(file) {
		return file
	}
	return filepath.Join(dir, file)
}

// messages mention files like they were given
func relative(err error, dir, file string) error {
	if err == nil || filepath.IsAbs(file) {
		return err
	}
	return errors.New("") // anything
}

func judgeRelative(cs *vk.Case, l *line, e *ended, want string, err error, dir string) {
	msg := ""
	if err != nil {
		want = ""
		if filepath.IsAbs(l.file) {
			msg = err.Error()
		}
	}
	judge(cs, l, e, want, err != nil, msg)
}

func nothing(cs *vk.Case, b *book) {
	if s := b.traces(); s != "" {
		cs.Violatef("tasks were executed: %q", s)
	}
}

// mistakes have no effects
func cliMistakes(ctx *vk.Ctx) {
	ctx.Cases("case", ctx.N(500, 15000), func(cs *vk.Case) {
		cleanEnv()
		r := cs.R
		dir := cs.Scratch()
		b := newBook(cs, dir, "book.jsonnet", "good")
		s := basic("v")
		s.Listen("tcp", "127.0.0.1:0")
		output := filepath.Join(dir, "output")
		l := newLine(r, dir)
		l.debug = ""
		kind := []string{"version", "run", "list", "dot", "eval", "ping", "inspect"}[r.Intn(7)]
		l.words = []string{kind}
		switch kind {
		case "run", "list", "dot", "eval":
			l.words = []string{"runbook", kind}
			if kind == "run" && r.Intn(2) == 0 {
				l.words = []string{"runbook"}
			}
			l.file = b.path
		case "ping", "inspect":
			l.flags = append(l.flags, flag{long: "host", short: "h", value: "127.0.0.1"}, flag{long: "port", short: "p", value: fmt.Sprint(s.Port())})
		}
		if kind == "dot" || kind == "eval" || kind == "inspect" {
			l.flags = append(l.flags, flag{long: "output", short: "o", value: output})
		}
		args := l.render(r)
		insert := func(x ...string) {
			// behind the command and before the file, so that it's not taken for something else
			for i := len(args); i >= 0; i-- {
				if i == 0 || args[i-1] == l.words[len(l.words)-1] {
					args = append(args[:i:i], append(append([]string{}, x...), args[i:]...)...)
					return
				}
			}
		}
		mistake := ""
		for mistake == "" {
			switch r.Intn(13) {
			case 0:
				mistake = "unknown long flag"
				insert([]string{"--bogus", "--bogus=1", "--Verbose", "--no-bogus"}[r.Intn(4)])
			case 1:
				mistake = "unknown short flag"
				insert([]string{"-x", "-V", "-vx", "-Q"}[r.Intn(4)])
			case 2:
				if l.file == "" {
					mistake = "unexpected argument"
					args = append(args, "extra")
				} else {
					mistake = "another argument"
					args = append(args, b.path)
				}
			case 3:
				if l.file != "" {
					mistake = "missing file"
					for i, a := range args {
						if a == l.file {
							args = append(args[:i:i], args[i+1:]...)
						}
					}
				}
			case 4:
				if l.file != "" {
					mistake = "no such file"
					for i, a := range args {
						if a == l.file {
							args[i] = filepath.Join(dir, "nonexistent")
						}
					}
				}
			case 5:
				if l.file != "" {
					mistake = "a directory"
					for i, a := range args {
						if a == l.file {
							args[i] = dir
						}
					}
				}
			case 6:
				mistake = "a value that isn't among the allowed ones"
				v := []string{"", "x", "verify-ca", "curve", "True", "AUTO", "1", "polyline", "disabled", "DISABLE", "yes"}[r.Intn(11)]
				switch kind {
				case "dot":
					insert("--splines=" + v)
				case "eval":
					insert("--color=" + v)
				case "ping", "inspect":
					insert("--sslmode=" + v)
				default:
					mistake = ""
				}
			case 7:
				if kind == "ping" || kind == "inspect" {
					mistake = "invalid port"
					bad := []string{"65536", "-1", "x", "5432x", "", "1.5", "99999999999999999999"}[r.Intn(7)]
					for i, f := range l.flags {
						if f.long == "port" {
							l.flags[i].value = bad
							l.flags[i].short = "" // -p-1 might be something else
						}
					}
					args = l.render(r)
				}
			case 8:
				if len(l.flags) > 0 {
					mistake = "repeated flag"
					f := l.flags[r.Intn(len(l.flags))]
					insert(f.render(r)...)
				}
			case 9:
				mistake = "flag of another command"
				switch kind {
				case "version", "run", "list":
					insert("--output=" + output)
				case "dot":
					insert("--color=true")
				case "eval":
					insert("--splines=line")
				case "ping":
					insert("--sort-columns")
				case "inspect":
					insert("--long")
				}
			case 10:
				mistake = "flag without its value"
				args = append(args, []string{"--debug"}[0])
			case 11:
				mistake = "debug log that can't be opened"
				insert([]string{"--debug=" + dir, "--debug=" + filepath.Join(dir, "no", "log"), "--debug="}[r.Intn(3)])
			case 12:
				mistake = "unknown command"
				bad := []string{"bogus", "Version", "pin", "runbooks", "list", "eval"}[r.Intn(6)]
				args = append([]string{bad}, args...)
			}
		}
		cs.Describe(map[string]interface{}{"args": args, "mistake": mistake})
		before, _ := os.ReadDir(dir)
		e := program(dir, false, args)
		after, _ := os.ReadDir(dir)
		s.Close()
		if e.Code != 1 {
			cs.Violatef("the exit status of a command line with the mistake %q is %d; stdout %q, stderr %q", mistake, e.Code, e.Stdout, e.Stderr)
		}
		if strings.TrimSpace(e.Stdout+e.Stderr) == "" {
			cs.Violatef("the mistake %q isn't reported", mistake)
		}
		if logs, _ := split(e.Stdout); len(logs) > 0 {
			cs.Violatef("something was done in spite of the mistake %q: %q", mistake, e.Stdout)
		}
		if len(after) != len(before) {
			cs.Violatef("files were created in spite of the mistake %q: %v", mistake, after)
		}
		nothing(cs, b)
		if n := len(s.Conns()); n > 0 {
			cs.Violatef("the server was contacted in spite of the mistake %q", mistake)
		}
		cs.Hist("mistakes", mistake)
		cs.Nontrivial(strings.Replace(vk.JSON(args), dir, "", -1))
	})
}

// cliHelp asks for help, which does nothing else
func cliHelp(ctx *vk.Ctx) {
	ctx.Cases("case", ctx.N(60, 600), func(cs *vk.Case) {
		cleanEnv()
		r := cs.R
		dir := cs.Scratch()
		b := newBook(cs, dir, "book.jsonnet", "good")
		output := filepath.Join(dir, "output")
		k := r.Intn(8)
		args := [][]string{{"--help"}, {"help"}, {"help", "runbook"}, {"help", "inspect"}, {"runbook", "run", b.path, "--help"},
			{"runbook", "--help", b.path}, {"runbook", "dot", "-o", output, b.path, "--help"}, {"inspect", "--help", "-o", output}}[k]
		want := [][]string{{"ping", "inspect", "runbook", "version"}, {"ping", "inspect", "runbook", "version"}, {"list", "dot", "eval", "run"},
			{"host", "port", "dbname", "username", "sslmode", "output", "sort-columns", "sort-check-constraints", "sort-indexes"},
			{"FILE"}, {"FILE"}, {"output", "splines", "-O"}, {"host", "sslmode", "output"}}[k]
		cs.Describe(args)
		e := program(dir, false, args)
		if e.Code != 0 {
			cs.Violatef("the exit status is %d: %q", e.Code, e.Stdout)
		}
		for _, w := range want {
			if !strings.Contains(e.Stdout+e.Stderr, w) {
				cs.Violatef("the help for %q doesn't mention %q: %s", args, w, e.Stdout+e.Stderr)
			}
		}
		nothing(cs, b)
		if _, err := os.Stat(output); err == nil {
			cs.Violatef("%q created an output file", args)
		}
		cs.Nontrivial(fmt.Sprint(k))
	})
}
