//go:build go1.22

// Package shell monitors what the tasks of the sh and demo targets do. The commands
// the tasks execute are this program itself, which records how it was called.
package shell

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"go.uber.org/zap"

	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/runbook"
	"github.com/sjansen/pgutil/internal/runbook/sh"
	"github.com/sjansen/pgutil/internal/sys"
	"github.com/sjansen/pgutil/internal/zverif/jn"
	"github.com/sjansen/pgutil/internal/zverif/vk"
)

func TestVerif(t *testing.T) { vk.Main(t) }

type (
	m = jn.M
	l = jn.L
)

// ------------------------------------------------------- the command

// call is what a command observes
type call struct {
	Args  []string
	Env   []string
	Dir   string
	Stdin string
	Seq   int64
}

const helperName = "verif-helper"

// Commands with other names know what they are by the name of the file to report to.
const reportPrefix = "/verif-report-"

// Commands with few or no arguments can tell what to report by their own names.
const barePrefix = "verif-bare-"

// some of these are also the names of commands that are found elsewhere, of the
// kind that a shell would have built in, or not names of commands at all
var commandNames = []string{"sh", "bash", "cmd", "env", "echo", "cd", "exit", "true", "false", "test", "[", "python", "psql", "sudo", "time",
	"two words", "-c", "--", "x.sh", ".x", "..x", "...", "~", "$x", "*", "é", "#x", "a=b", "CON", "x.exe", "!", "\\", "'", "%s", "a\nb"}

// A command's first argument names the file to report to, and the second tells what
// to do, separated by commas: out:N, err:N, outz:N, exit:N, kill:N
func init() {
	if id := strings.TrimPrefix(filepath.Base(os.Args[0]), barePrefix); id != filepath.Base(os.Args[0]) {
		observe(os.Getenv("VERIF_BARE") + reportPrefix + id)
		os.Exit(0)
	}
	if filepath.Base(os.Args[0]) != helperName && (len(os.Args) < 3 || !strings.Contains(os.Args[1], reportPrefix)) {
		return
	}
	report, script := os.Args[1], os.Args[2]
	if report != "" {
		observe(report)
	}
	for _, step := range strings.Split(script, ",") {
		p := strings.SplitN(step+"::", ":", 3)
		n, _ := strconv.Atoi(p[1])
		tag := strings.TrimSuffix(p[2], "::")
		tag = strings.TrimSuffix(tag, ":")
		switch p[0] {
		case "out":
			os.Stdout.WriteString(chunk(tag, "o", n))
		case "err":
			os.Stderr.WriteString(chunk(tag, "e", n))
		case "raw":
			os.Stdout.Write(raw(n))
		case "exit":
			os.Exit(n)
		case "kill":
			// the shell has no handlers for signals
			script := fmt.Sprintf("ulimit -c 0; kill -%d $$; exec sleep 60", n)
			fmt.Fprintln(os.Stderr, syscall.Exec("/bin/sh", []string{"sh", "-c", script}, os.Environ()))
			os.Exit(98)
		}
	}
	os.Exit(0)
}

// observe writes what the command can see of how it was started
func observe(report string) {
	c := call{Args: os.Args, Env: os.Environ()}
	c.Dir, _ = os.Readlink("/proc/self/cwd")
	b, err := io.ReadAll(io.LimitReader(os.Stdin, 1<<16))
	c.Stdin = string(b)
	if err != nil {
		c.Stdin = "error: " + err.Error()
	}
	line, _ := json.Marshal(c)
	f, err := os.OpenFile(report, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0666)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(99)
	}
	f.Write(append(line, '\n'))
	f.Close()
}

// chunk is n bytes (at least), of lines that tell who wrote them
func chunk(tag, stream string, n int) string {
	var b strings.Builder
	for i := 0; b.Len() < n; i++ {
		fmt.Fprintf(&b, "<%s %s %d>\n", tag, stream, i)
	}
	return b.String()
}

func raw(n int) []byte {
	b := make([]byte, n)
	rand.New(rand.NewSource(int64(n))).Read(b)
	return b
}

// ------------------------------------------------------- running

func install(dir string) string {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	path := filepath.Join(dir, helperName)
	if err = os.Symlink(exe, path); err != nil {
		panic(err)
	}
	return path
}

type locked struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (w *locked) Write(p []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.b.Write(p)
}

func run(file string, stdout, stderr io.Writer) error {
	return runbook.Run(&sys.IO{Log: zap.NewNop().Sugar(), Stdout: stdout, Stderr: stderr}, file)
}

func calls(report string) []call {
	b, err := os.ReadFile(report)
	if err != nil {
		return nil
	}
	var out []call
	for _, line := range strings.Split(strings.TrimSuffix(string(b), "\n"), "\n") {
		var c call
		if err := json.Unmarshal([]byte(line), &c); err != nil {
			panic(fmt.Sprintf("%v in %q", err, line))
		}
		out = append(out, c)
	}
	return out
}

func write(file, text string) {
	if err := os.WriteFile(file, []byte(text), 0644); err != nil {
		panic(err)
	}
}

func mkdir(dir string) {
	if err := os.MkdirAll(dir, 0755); err != nil {
		panic(err)
	}
}

func chdir(dir string) func() {
	cwd, err := os.Getwd()
	if err == nil {
		err = os.Chdir(dir)
	}
	if err != nil {
		panic(err)
	}
	return func() { os.Chdir(cwd) }
}

// ------------------------------------------------------- environment

var names = []string{"A", "B", "C", "AB", "a", "PATH", "HOME", "A_B", "LONG", "EMPTY", "X1", "PGPASSWORD"}
var values = []string{"", "1", "two words", "a=b", "=", "$A", "/bin:/usr/bin", "line\nbreak", "é", "A=1",
	"$$", "${A}", "%A%", "~", "~/x", "`id`", "$(id)", `\n`, `\`, `"quoted"`, "'", " ", "spaces ", " spaces", "cr\r", "\n", "null", "0", "#", "a:b:", "::", "\ufeff"}

func name(r *rand.Rand) string {
	switch r.Intn(12) {
	case 0:
		return fmt.Sprintf("V%d", r.Intn(500))
	case 1:
		if s := vk.Odd(r); s != "" && !strings.ContainsAny(s, "=\x00") {
			return s
		}
	}
	return vk.Stretch(r, names[r.Intn(len(names))], 300)
}

func content(r *rand.Rand) string {
	if r.Intn(10) == 0 {
		return strings.Replace(vk.Odd(r), "\x00", "", -1)
	}
	return vk.Stretch(r, values[r.Intn(len(values))], 50000)
}

func pickNames(r *rand.Rand, n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, name(r))
		if n > 12 && r.Intn(4) > 0 {
			out[i] = fmt.Sprintf("V%d", r.Intn(500))
		}
	}
	return out
}

type filter struct {
	Allow []string
	Deny  []string
	Set   map[string]string
}

func genFilter(r *rand.Rand) *filter {
	f := &filter{}
	if r.Intn(3) == 0 {
		f.Allow = pickNames(r, 1+vk.Several(r, 5, 100))
	}
	if r.Intn(3) == 0 {
		f.Deny = pickNames(r, 1+vk.Several(r, 5, 100))
	}
	if r.Intn(2) == 0 {
		f.Set = map[string]string{}
		for _, n := range pickNames(r, 1+vk.Several(r, 3, 100)) {
			f.Set[n] = content(r)
		}
	}
	if r.Intn(10) == 0 {
		// nothing is left
		f = &filter{Allow: []string{"NO_SUCH_VARIABLE"}}
	}
	return f
}

func has(list []string, s string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}

// apply is the specification
func (f *filter) apply(environ []string) []string {
	out := []string{}
	present := map[string]bool{}
	for _, kv := range environ {
		key := strings.SplitN(kv, "=", 2)[0]
		if v, ok := f.Set[key]; ok {
			out = append(out, key+"="+v)
			present[key] = true
			continue
		}
		if len(f.Allow) > 0 && !has(f.Allow, key) {
			continue
		}
		if len(f.Allow) == 0 && has(f.Deny, key) {
			continue
		}
		out = append(out, kv)
	}
	for key, v := range f.Set {
		if !present[key] {
			out = append(out, key+"="+v)
		}
	}
	return out
}

func (f *filter) config() m {
	v := m{}
	list := func(a []string) l {
		out := l{}
		for _, x := range a {
			out = append(out, x)
		}
		return out
	}
	if f.Allow != nil {
		v["allow"] = list(f.Allow)
	}
	if f.Deny != nil {
		v["deny"] = list(f.Deny)
	}
	if f.Set != nil {
		set := m{}
		for k, x := range f.Set {
			set[k] = x
		}
		v["set"] = set
	}
	return v
}

func sorted(a []string) []string {
	out := append([]string{}, a...)
	sort.Strings(out)
	return out
}

func envFilter(cs *vk.Case) {
	f := genFilter(cs.R)
	var environ []string
	for i := vk.Several(cs.R, 9, 300); i > 0; i-- {
		environ = append(environ, name(cs.R)+"="+content(cs.R))
	}
	cs.Describe(map[string]interface{}{"filter": f, "environ": environ})
	env := &sh.Env{Allow: f.Allow, Deny: f.Deny, Set: f.Set}
	before := append([]string{}, environ...)
	b := vk.JSON(env)
	got := env.Apply(environ)
	want := f.apply(environ)
	if !reflect.DeepEqual(sorted(got), sorted(want)) {
		cs.Violatef("filtered to %q instead of %q", got, want)
	}
	if got == nil {
		cs.Violatef("an empty environment can't be told from one that isn't specified")
	}
	if !reflect.DeepEqual(environ, before) && len(before) > 0 || vk.JSON(env) != b {
		cs.Violatef("filtering changed the environment, or the filter")
	}
	if len(environ) > 0 && len(f.Allow)+len(f.Deny)+len(f.Set) > 0 {
		cs.Nontrivial("filter" + vk.JSON(f) + strings.Join(environ, "\x00"))
	}
	cs.Count("variables_filtered", len(environ))
}

func childEnv(cs *vk.Case) {
	dir := cs.Scratch()
	defer os.RemoveAll(dir)
	helper := install(dir)
	report := filepath.Join(dir, "report")
	saved := os.Environ()
	defer func() {
		os.Clearenv()
		for _, kv := range saved {
			if i := strings.Index(kv, "="); i > 0 {
				os.Setenv(kv[:i], kv[i+1:])
			}
		}
	}()
	os.Clearenv()
	for i := vk.Several(cs.R, 10, 100); i > 0; i-- {
		os.Setenv(name(cs.R), content(cs.R))
	}
	environ := os.Environ()
	targets, tasks := m{}, m{}
	tf := map[string]*filter{}
	for i, n := 0, 1+vk.Several(cs.R, 2, 6); i < n; i++ {
		q := fmt.Sprintf("q%d", i)
		tf[q] = genFilter(cs.R)
		if cs.R.Intn(3) == 0 {
			tf[q] = &filter{}
		}
		targets[q] = m{"class": "sh", "config": m{"env": tf[q].config()}}
		if cs.R.Intn(3) == 0 {
			targets[q].(m)["config"].(m)["concurrency"] = 1 + vk.Size(cs.R, 20)
		}
	}
	want := map[string][]string{}
	for i, n := 0, 1+vk.Several(cs.R, 4, 20); i < n; i++ {
		id := fmt.Sprintf("t%d", i)
		q := fmt.Sprintf("q%d", cs.R.Intn(len(tf)))
		f := genFilter(cs.R)
		if cs.R.Intn(3) == 0 {
			f = &filter{}
		}
		cfg := m{"args": l{helper, report + id, ""}}
		if len(f.config()) > 0 {
			cfg["env"] = f.config()
		}
		tasks[id] = m{"target": q, "config": cfg}
		want[id] = f.apply(tf[q].apply(environ))
	}
	file := filepath.Join(dir, "book.jsonnet")
	v := m{"targets": targets, "tasks": tasks}
	write(file, jn.Plain(v))
	cs.Describe(map[string]interface{}{"environ": environ, "runbook": v})
	if err := run(file, io.Discard, io.Discard); err != nil {
		cs.Violatef("the runbook failed: %v", err)
		return
	}
	for id, env := range want {
		c := calls(report + id)
		if len(c) != 1 {
			cs.Violatef("the command of task %q was executed %d times", id, len(c))
			continue
		}
		if !reflect.DeepEqual(asMap(c[0].Env), asMap(env)) {
			cs.Violatef("the environment of task %q is %q instead of %q", id, sorted(c[0].Env), sorted(env))
		}
		cs.Count("commands_observed", 1)
		if len(env) == 0 {
			cs.Count("empty_environments", 1)
		}
	}
	if got := os.Environ(); !reflect.DeepEqual(sorted(got), sorted(environ)) {
		cs.Violatef("the program's own environment changed: %q", got)
	}
	if len(environ) > 0 {
		cs.Nontrivial("child" + vk.JSON(v) + strings.Join(environ, "\x00"))
	}
	cs.Sample(map[string]interface{}{"environ": environ, "runbook": v, "observed": want})
}

// stdin replaces the program's own standard input by one that isn't empty
func stdin(file string) (restore func()) {
	write(file, "input of the program, not of its commands\n")
	f, err := os.Open(file)
	if err != nil {
		panic("monitor panic: " + err.Error())
	}
	saved, err := syscall.Dup(0)
	if err != nil {
		panic("monitor panic: " + err.Error())
	}
	syscall.CloseOnExec(saved)
	if err = syscall.Dup3(int(f.Fd()), 0, 0); err != nil {
		panic("monitor panic: " + err.Error())
	}
	f.Close()
	return func() {
		syscall.Dup3(saved, 0, 0)
		syscall.Close(saved)
	}
}

func asMap(env []string) map[string]string {
	out := map[string]string{}
	for _, kv := range env {
		p := strings.SplitN(kv+"=", "=", 2)
		out[p[0]] = p[1]
	}
	return out
}

// ------------------------------------------------------- commands

var args = []string{"", " ", "two words", "$HOME", "${A}", "`id`", "*", "~", "'", `"`, `\`, "a\nb", "\t", ";", "&&", "|", ">x",
	"--", "-n", "é", "日本", "%s", "#", "!", "a=b", strings.Repeat("long ", 400), "$(id)", "[a-z]", "?", "\x01", "\r", "a\r", "\r\n", "a ", " a", "\ufeff", "\u00a0", "-", "@x", "{a,b}", "a\\", "\x7f"}

// failure is a way for a command to end without success
func failure(r *rand.Rand) string {
	switch r.Intn(4) {
	case 0:
		return fmt.Sprintf("exit:%d", []int{1, 2, 126, 127, 128, 130, 137, 141, 143, 255}[r.Intn(10)])
	case 1:
		return fmt.Sprintf("exit:%d", 1+r.Intn(255))
	default:
		return fmt.Sprintf("kill:%d", []int{1, 2, 3, 6, 8, 9, 10, 11, 12, 13, 14, 15, 31, 34, 64}[r.Intn(15)])
	}
}

func commands(cs *vk.Case) {
	top := cs.Scratch()
	defer os.RemoveAll(top)
	dir := filepath.Join(top, "the books")
	bin := filepath.Join(top, "bin")
	mkdir(filepath.Join(dir, "sub"))
	mkdir(bin)
	mkdir(filepath.Join(top, "else"))
	helper := install(bin)
	for _, d := range []string{dir, filepath.Join(dir, "sub")} {
		if err := os.Symlink(helper, filepath.Join(d, helperName)); err != nil {
			panic(err)
		}
	}
	other := commandNames[cs.R.Intn(len(commandNames))]
	for _, d := range []string{dir, filepath.Join(dir, "sub"), bin} {
		if err := os.Symlink(helper, filepath.Join(d, other)); err != nil {
			panic(err)
		}
	}
	oldpath := os.Getenv("PATH")
	defer os.Setenv("PATH", oldpath)
	os.Setenv("PATH", bin+":"+oldpath)
	defer os.Unsetenv("VERIF_BARE")
	os.Setenv("VERIF_BARE", top)
	defer stdin(filepath.Join(top, "stdin"))()

	file := "book.jsonnet"
	var restore func()
	switch cs.R.Intn(4) {
	case 0:
		restore = chdir(dir)
	case 1:
		restore = chdir(filepath.Join(top, "else"))
		file = "../the books/book.jsonnet"
	case 2:
		restore = chdir(filepath.Join(top, "else"))
		file = filepath.Join(dir, file)
	case 3:
		restore = chdir(top)
		file = "./the books/book.jsonnet"
	}
	defer restore()

	tasks, want, fails := m{}, map[string][]string{}, map[string]bool{}
	n := 1 + vk.Several(cs.R, 4, 20)
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("t%d", i)
		arg0 := []string{helperName, "./" + helperName, "../bin/" + helperName, helper, "./sub/" + helperName}[cs.R.Intn(5)]
		if cs.R.Intn(3) == 0 {
			arg0 = []string{other, "./" + other, "../bin/" + other, filepath.Join(bin, other), "./sub/" + other, "../bin/../the books//sub/./" + other}[cs.R.Intn(6)]
		}
		script := ""
		if cs.R.Intn(8) == 0 {
			script = failure(cs.R)
			fails[id] = true
		}
		argv := []string{arg0, top + reportPrefix + id, script}
		for j := vk.Several(cs.R, 6, 1000); j > 0; j-- {
			a := vk.Stretch(cs.R, args[cs.R.Intn(len(args))], 20000)
			if cs.R.Intn(8) == 0 {
				a = strings.Replace(vk.Odd(cs.R), "\x00", "", -1)
			}
			argv = append(argv, a)
		}
		if cs.R.Intn(20) == 0 {
			argv[0] = []string{"no-such-command", "./no-such-command", "/no/such/command", "./sub", "./book.jsonnet"}[cs.R.Intn(5)]
			fails[id] = true
		}
		if cs.R.Intn(5) == 0 {
			delete(fails, id)
			name := barePrefix + id
			for _, d := range []string{dir, bin} {
				if err := os.Symlink(helper, filepath.Join(d, name)); err != nil {
					panic(err)
				}
			}
			argv = []string{[]string{name, "./" + name, "../bin/" + name, filepath.Join(bin, name)}[cs.R.Intn(4)]}
			for j := cs.R.Intn(4) - 1; j > 0; j-- {
				argv = append(argv, args[cs.R.Intn(len(args))])
			}
		}
		list := l{}
		for _, a := range argv {
			list = append(list, a)
		}
		target := "q"
		if cs.R.Intn(2) == 0 {
			target = "q/exec"
		}
		tasks[id] = m{"target": target, "config": m{"args": list}}
		want[id] = argv
	}
	v := m{"targets": m{"q": m{"class": "sh", "config": m{"concurrency": 1 + cs.R.Intn(3)}}}, "tasks": tasks}
	write(filepath.Join(dir, "book.jsonnet"), jn.Plain(v))
	cwd, _ := os.Getwd()
	cs.Describe(map[string]interface{}{"cwd": cwd, "file": file, "runbook": v})
	err := run(file, io.Discard, io.Discard)
	if (err != nil) != (len(fails) > 0) {
		cs.Violatef("commands %q fail, but the result is %v", keys(fails), err)
	}
	realDir, err := filepath.EvalSymlinks(dir)
	if err != nil {
		panic(err)
	}
	for id, argv := range want {
		c := calls(top + reportPrefix + id)
		if len(c) == 0 && len(fails) > 0 {
			continue // not started, after another task failed
		}
		if len(c) != 1 {
			cs.Violatef("the command of task %q was executed %d times", id, len(c))
			continue
		}
		if !reflect.DeepEqual(c[0].Args, argv) {
			cs.Violatef("the arguments of task %q are %q instead of %q", id, c[0].Args, argv)
		}
		if c[0].Dir != realDir {
			cs.Violatef("the working directory of task %q is %q instead of %q", id, c[0].Dir, realDir)
		}
		if c[0].Stdin != "" {
			cs.Violatef("the standard input of task %q isn't empty: %q", id, c[0].Stdin)
		}
		cs.Count("commands_observed", 1)
	}
	if now, _ := os.Getwd(); now != cwd {
		cs.Violatef("the program's own working directory changed to %q", now)
	}
	cs.Count("commands_failing", len(fails))
	cs.Nontrivial("command" + file + vk.JSON(v))
	cs.Sample(map[string]interface{}{"cwd": cwd, "file": file, "runbook": v})
}

func keys(set map[string]bool) []string {
	var out []string
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ------------------------------------------------------- output

func output(cs *vk.Case) {
	dir := cs.Scratch()
	defer os.RemoveAll(dir)
	helper := install(dir)
	targets, tasks := m{}, m{}
	single, on := map[string]bool{}, map[string]string{}
	nq := 1 + cs.R.Intn(2)
	for i := 0; i < nq; i++ {
		q := fmt.Sprintf("q%d", i)
		limit := 1 + cs.R.Intn(3)
		targets[q] = m{"class": "sh", "config": m{"concurrency": limit}}
		single[q] = limit == 1
	}
	n := 1 + vk.Several(cs.R, 4, 20)
	wantOut, wantErr := map[string]string{}, map[string]string{}
	after := map[string][]string{}
	var order []string
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("t%d", i)
		var script []string
		for j := vk.Several(cs.R, 4, 40); j >= 0; j-- {
			size := []int{1, 30, 500, 5000, 70000, 200000, 1 + vk.Size(cs.R, 1000000)}[cs.R.Intn(7)]
			if j > 4 {
				size = 1 + vk.Size(cs.R, 5000)
			}
			if cs.R.Intn(2) == 0 {
				script = append(script, fmt.Sprintf("out:%d:%s.%d", size, id, j))
				wantOut[id] += chunk(fmt.Sprintf("%s.%d", id, j), "o", size)
			} else {
				script = append(script, fmt.Sprintf("err:%d:%s.%d", size, id, j))
				wantErr[id] += chunk(fmt.Sprintf("%s.%d", id, j), "e", size)
			}
		}
		on[id] = fmt.Sprintf("q%d", cs.R.Intn(nq))
		args := l{helper, "", strings.Join(script, ",")}
		for j := vk.Several(cs.R, 10, 300); j > 0; j-- {
			args = append(args, "ignored")
		}
		v := m{"target": on[id], "config": m{"args": args}}
		deps := l{}
		for _, x := range order {
			if cs.R.Intn(2) == 0 {
				deps = append(deps, x)
				after[id] = append(after[id], x)
			}
		}
		if len(deps) > 0 {
			v["after"] = deps
		}
		tasks[id] = v
		order = append(order, id)
	}
	file := filepath.Join(dir, "book.jsonnet")
	v := m{"targets": targets, "tasks": tasks}
	write(file, jn.Plain(v))
	files := cs.R.Intn(2) == 0
	cs.Describe(map[string]interface{}{"runbook": v, "files": files})
	var stdout, stderr string
	if files {
		var f [2]*os.File
		for i := range f {
			var err error
			f[i], err = os.OpenFile(filepath.Join(dir, fmt.Sprint("stream", i)), os.O_CREATE|os.O_RDWR|os.O_APPEND, 0644)
			if err != nil {
				panic(err)
			}
			defer f[i].Close()
		}
		if err := run(file, f[0], f[1]); err != nil {
			cs.Violatef("the runbook failed: %v", err)
		}
		b0, _ := os.ReadFile(f[0].Name())
		b1, _ := os.ReadFile(f[1].Name())
		stdout, stderr = string(b0), string(b1)
	} else {
		var b0, b1 locked
		if err := run(file, &b0, &b1); err != nil {
			cs.Violatef("the runbook failed: %v", err)
		}
		stdout, stderr = b0.b.String(), b1.b.String()
	}
	judgeStream(cs, "stdout", stdout, wantOut, after)
	judgeStream(cs, "stderr", stderr, wantErr, after)
	for i, a := range order {
		for _, b := range order[:i] {
			if on[a] == on[b] && single[on[a]] && !cs.Bad() {
				apart(cs, "stdout", stdout, a, b)
				apart(cs, "stderr", stderr, a, b)
			}
		}
	}
	cs.Count("bytes_compared", len(stdout)+len(stderr))
	cs.Nontrivial(fmt.Sprint("output", files, vk.JSON(v)))
	cs.Sample(map[string]interface{}{"runbook": v, "stdout_bytes": len(stdout), "stderr_bytes": len(stderr)})
}

// judgeStream checks that each task's bytes are there, once and in order, and where
// they may not be mixed with another task's
func judgeStream(cs *vk.Case, name, got string, want map[string]string, after map[string][]string) {
	total := 0
	for _, w := range want {
		total += len(w)
	}
	if len(got) != total {
		cs.Violatef("%d bytes on %s instead of %d", len(got), name, total)
		return
	}
	if len(want) == 1 {
		for id, w := range want {
			if got != w {
				cs.Violatef("the output of task %q on %s isn't what it wrote", id, name)
			}
		}
		return
	}
	// blocks of two tasks may only be mixed if neither waits for the other
	rest := map[string]string{}
	for id, w := range want {
		rest[id] = w
	}
	ancestors := map[string]map[string]bool{}
	var anc func(id string) map[string]bool
	anc = func(id string) map[string]bool {
		if ancestors[id] == nil {
			ancestors[id] = map[string]bool{}
			for _, x := range after[id] {
				ancestors[id][x] = true
				for y := range anc(x) {
					ancestors[id][y] = true
				}
			}
		}
		return ancestors[id]
	}
	independent := false
	for id := range want {
		for x := range want {
			if id != x && !anc(id)[x] && !anc(x)[id] {
				independent = true
			}
		}
	}
	if !independent {
		ids := make([]string, 0, len(want))
		for id := range want {
			ids = append(ids, id)
		}
		sort.Slice(ids, func(i, j int) bool { return anc(ids[j])[ids[i]] })
		all := ""
		for _, id := range ids {
			all += want[id]
		}
		if got != all {
			cs.Violatef("the output on %s isn't what tasks %q wrote, one after the other", name, ids)
		}
		cs.Count("streams_compared_exactly", 1)
		return
	}
	// chunks are mixed by the pipes they're written to: compare how often lines of a
	// task occur, and that everything a task depends on comes first, byte by byte
	for id := range want {
		var need []string
		for x := range anc(id) {
			if want[x] != "" {
				need = append(need, x)
			}
		}
		first := strings.Index(got, "<"+id+".")
		if want[id] == "" {
			continue
		}
		if first < 0 {
			cs.Violatef("no output of task %q on %s", id, name)
			continue
		}
		for _, x := range need {
			if last := strings.LastIndex(got, "<"+x+"."); last > first {
				cs.Violatef("task %q wrote to %s before task %q was completed", id, name, x)
			}
		}
	}
	if !sameBytes(got, want) {
		cs.Violatef("the bytes on %s aren't the ones the tasks wrote", name)
	}
	cs.Count("streams_compared_mixed", 1)
}

// apart checks that output of two tasks that don't run at the same time isn't mixed
func apart(cs *vk.Case, name, got, a, b string) {
	firstA, lastA := strings.Index(got, "<"+a+"."), strings.LastIndex(got, "<"+a+".")
	firstB, lastB := strings.Index(got, "<"+b+"."), strings.LastIndex(got, "<"+b+".")
	if firstA < 0 || firstB < 0 {
		return
	}
	if firstA < lastB && firstB < lastA {
		cs.Violatef("the output on %s of the tasks %q and %q of a target is mixed, but they can't run at once", name, a, b)
	}
	cs.Count("pairs_of_outputs_kept_apart", 1)
}

func sameBytes(got string, want map[string]string) bool {
	var a, b [256]int
	for i := 0; i < len(got); i++ {
		a[got[i]]++
	}
	for _, w := range want {
		for i := 0; i < len(w); i++ {
			b[w[i]]++
		}
	}
	return a == b
}

func binary(cs *vk.Case) {
	dir := cs.Scratch()
	defer os.RemoveAll(dir)
	helper := install(dir)
	n := 1 + vk.Size(cs.R, 3000000)
	exit := cs.R.Intn(2)
	file := filepath.Join(dir, "book.jsonnet")
	v := m{"targets": m{"q": m{"class": "sh"}}, "tasks": m{"t": m{"target": "q", "config": m{
		"args": l{helper, "", fmt.Sprintf("raw:%d,exit:%d", n, exit)}}}}}
	write(file, jn.Plain(v))
	cs.Describe(v)
	var stdout, stderr locked
	if err := run(file, &stdout, &stderr); (err != nil) != (exit != 0) {
		cs.Violatef("the command exited with status %d, but the result is %v", exit, err)
	}
	if !bytes.Equal(stdout.b.Bytes(), raw(n)) || stderr.b.Len() > 0 {
		cs.Violatef("%d bytes on stdout and %d on stderr aren't the %d bytes written to stdout", stdout.b.Len(), stderr.b.Len(), n)
	}
	cs.Count("bytes_compared", n)
	cs.Nontrivial(fmt.Sprint("raw", n, exit))
}

// background commands leave a child behind, which still writes to their output after
// they have ended
func background(cs *vk.Case) {
	dir := cs.Scratch()
	defer os.RemoveAll(dir)
	max := 700
	if cs.I == 0 {
		max = 3500
		if !cs.Quick() {
			max = 12000
		}
	}
	r := cs.R
	delay := max/10 + r.Intn(max*9/10)
	if cs.I == 0 {
		delay = max
	}
	early, late := r.Intn(3000), 1+r.Intn(200000)
	exit := r.Intn(4) / 3
	stream := 1 + r.Intn(2)
	emit := func(n int, c string) string {
		return fmt.Sprintf("head -c %d /dev/zero | tr '\\000' %s >&%d", n, c, stream)
	}
	script := fmt.Sprintf("%s; (sleep %d.%03d; %s) & exit %d", emit(early, "e"), delay/1000, delay%1000, emit(late, "l"), exit)
	file := filepath.Join(dir, "book.jsonnet")
	tasks := m{"t": m{"target": "q", "config": m{"args": l{"/bin/sh", "-c", script}}}}
	after := ""
	if exit == 0 && r.Intn(2) == 0 {
		// the next task's output comes after all of it
		tasks["u"] = m{"target": "q", "after": l{"t"}, "config": m{"args": l{"/bin/sh", "-c", fmt.Sprintf("printf after >&%d", stream)}}}
		after = "after"
	}
	v := m{"targets": m{"q": m{"class": "sh"}}, "tasks": tasks}
	write(file, jn.Plain(v))
	cs.Describe(v)
	var streams [3]locked
	if err := run(file, &streams[1], &streams[2]); (err != nil) != (exit != 0) {
		cs.Violatef("the command exited with status %d, but the result is %v", exit, err)
	}
	want := strings.Repeat("e", early) + strings.Repeat("l", late) + after
	if got := streams[stream].b.String(); got != want {
		cs.Violatef("%d bytes were written instead of %d, or others", len(got), len(want))
	}
	if other := streams[3-stream].b.String(); other != "" {
		cs.Violatef("the other stream has %q", other)
	}
	cs.Count("bytes_written_in_the_background", late)
	cs.Max("milliseconds_until_background_output", delay)
	cs.Nontrivial(script)
}

// ------------------------------------------------------- demo

func reverse(s string) string {
	r := []rune(s)
	out := make([]rune, 0, len(r))
	for i := len(r) - 1; i >= 0; i-- {
		out = append(out, r[i])
	}
	return string(out)
}

func rot13(s string) string {
	const a = "abcdefghijklmnopqrstuvwxyz"
	out := []rune{}
	for _, c := range s {
		if i := strings.IndexRune(a, c); i >= 0 {
			c = rune(a[(i+13)%26])
		} else if i := strings.IndexRune(strings.ToUpper(a), c); i >= 0 {
			c = rune(strings.ToUpper(a)[(i+13)%26])
		}
		out = append(out, c)
	}
	return string(out)
}

var texts = []string{"", "a", "ab", "Hello, World!", "The Quick Brown Fox Jumps Over The Lazy Dog 0123456789",
	"abcdefghijklmnopqrstuvwxyz ABCDEFGHIJKLMNOPQRSTUVWXYZ", "é日本🦉x", "mnMN", "azAZ`{@[", "a\u0301b", " x ", "\n", "\nx", "x\n\n", "\r\nx\r\n", "\t", "nul\x00nul",
	"100%", "%s %d %n %!", "%%", "%v%[1]v", `a\nb\\c`, "$HOME ${x} `id`", "<b>&amp;</b>", "{{.}}", `"quoted" 'text'`, "a,b;c"}

// slow is a writer, so that time passes while something is printed
type slow struct {
	b  bytes.Buffer
	at []time.Duration
	t0 time.Time
}

func (s *slow) Write(p []byte) (int, error) {
	s.at = append(s.at, time.Since(s.t0))
	return s.b.Write(p)
}

// mixed runbooks have targets of several classes, which execute tasks concurrently;
// only the race detector judges them
func mixed(cs *vk.Case) {
	dir := cs.Scratch()
	defer os.RemoveAll(dir)
	targets, tasks := m{}, m{}
	nq := 1 + cs.R.Intn(4)
	demo := map[string]bool{}
	for i := 0; i < nq; i++ {
		q := fmt.Sprintf("q%d", i)
		if cs.R.Intn(3) == 0 {
			demo[q] = true
			targets[q] = m{"class": "demo", "config": m{"string": texts[cs.R.Intn(len(texts))]}}
			continue
		}
		cfg := m{"concurrency": 1 + vk.Size(cs.R, 15)}
		if cs.R.Intn(2) == 0 {
			cfg["env"] = genFilter(cs.R).config()
		}
		targets[q] = m{"class": "sh", "config": cfg}
	}
	var order []string
	for i, n := 0, 2+vk.Size(cs.R, 20); i < n; i++ {
		id := fmt.Sprintf("t%d", i)
		q := fmt.Sprintf("q%d", cs.R.Intn(nq))
		v := m{"target": q}
		if cs.R.Intn(2) == 0 {
			v["message"] = "message of " + id
		}
		if demo[q] {
			v["target"] = q + "/" + []string{"echo", "rev", "rot13", "echo", "rev", "rot13", "fail"}[cs.R.Intn(7)]
		} else {
			cfg := m{"args": l{"/bin/sh", "-c", fmt.Sprintf("echo %s; echo error %s >&2; exec head -c %d /dev/zero", id, id, cs.R.Intn(5000))}}
			switch cs.R.Intn(12) {
			case 0:
				cfg["args"] = l{"false"}
			case 1:
				cfg["args"] = l{"./no such program"}
			}
			if cs.R.Intn(2) == 0 {
				cfg["env"] = genFilter(cs.R).config()
			}
			v["config"] = cfg
		}
		deps := l{}
		for _, x := range order {
			if cs.R.Intn(8) == 0 {
				deps = append(deps, x)
			}
		}
		if len(deps) > 0 {
			v["after"] = deps
		}
		tasks[id] = v
		order = append(order, id)
	}
	file := filepath.Join(dir, "book.jsonnet")
	v := m{"targets": targets, "tasks": tasks}
	write(file, jn.Plain(v))
	cs.Describe(map[string]interface{}{"runbook": v})
	var b0, b1 locked
	log := logger.New(3, &b1, nil)
	err := runbook.Run(&sys.IO{Log: log, Stdout: &b0, Stderr: &b1}, file)
	cs.Hist("mixed_runs", fmt.Sprintf("failed=%v", err != nil))
	cs.Count("raced_tasks", len(tasks))
	cs.Nontrivial("mixed" + vk.JSON(v))
}

func demos(cs *vk.Case) {
	dir := cs.Scratch()
	defer os.RemoveAll(dir)
	text := vk.Stretch(cs.R, texts[cs.R.Intn(len(texts))], 100000)
	if cs.R.Intn(3) == 0 {
		alphabet := []rune("aAbmMnNzZ yY1_-é🦉{`@[%$\\\"'<&")
		if cs.R.Intn(3) == 0 {
			alphabet = []rune("aN \n\r\t\v\x00\x1b\u0085\u00a0\u2028\ufeff")
		}
		if cs.R.Intn(4) == 0 {
			text += vk.Odd(cs.R)
		} else {
			text = ""
		}
		for i := vk.Several(cs.R, 40, 5000); i > 0; i-- {
			text += string(alphabet[cs.R.Intn(len(alphabet))])
		}
	}
	// one chain of tasks, so that their order is known; the other targets' tasks interleave with it
	targets, tasks := m{}, m{}
	texts := map[string]string{}
	nq := 1 + cs.R.Intn(3)
	for i := 0; i < nq; i++ {
		q := fmt.Sprintf("q%d", i)
		texts[q] = strings.Repeat(text, 1+i%2)
		switch cs.R.Intn(3) {
		case 0:
			texts[q] += fmt.Sprint(i)
		case 1:
			texts[q] = fmt.Sprint(i) + texts[q]
		}
		cfg := m{"string": texts[q]}
		targets[q] = m{"class": "demo", "config": cfg}
		if cs.R.Intn(8) == 0 {
			delete(targets[q].(m), "config")
			texts[q] = ""
		}
	}
	want := ""
	seconds := 0
	failsAt := -1
	n := 1 + vk.Several(cs.R, 9, 60)
	ids := cs.R.Perm(n)
	var wantAt []time.Duration
	for i := 0; i < n; i++ {
		q := fmt.Sprintf("q%d", cs.R.Intn(nq))
		class := []string{"echo", "echo", "rev", "rot13", "sleep", "fail"}[cs.R.Intn(6)]
		if class == "fail" && cs.R.Intn(3) > 0 {
			class = "echo"
		}
		v := m{"target": q + "/" + class}
		if i > 0 {
			v["after"] = l{fmt.Sprintf("t%d", ids[i-1])}
		}
		pause := 1
		if class == "sleep" {
			switch cs.R.Intn(4) {
			case 0:
				max := int64(100000000)
				if left := 7500000000 - int64(seconds) - int64(n-i)*max; left > max && cs.R.Intn(3) == 0 {
					max = left // as much as the clock can take
				}
				pause = int(vk.Int(cs.R, 2, max))
				v["config"] = m{"seconds": pause}
			case 1:
				v["config"] = m{"seconds": -cs.R.Intn(3)}
			case 2:
				v["config"] = m{}
			}
		}
		tasks[fmt.Sprintf("t%d", ids[i])] = v
		if failsAt >= 0 {
			continue
		}
		switch class {
		case "echo":
			want += texts[q] + "\n"
			wantAt = append(wantAt, time.Duration(seconds)*time.Second)
		case "rev":
			texts[q] = reverse(texts[q])
		case "rot13":
			texts[q] = rot13(texts[q])
		case "sleep":
			seconds += pause
		case "fail":
			failsAt = i
		}
	}
	v := m{"targets": targets, "tasks": tasks}
	file := filepath.Join(dir, "book.jsonnet")
	write(file, jn.Plain(v))
	cs.Describe(v)
	var err error
	var took time.Duration
	out := &slow{}
	synctest.Test(cs.T, func(*testing.T) {
		out.t0 = time.Now()
		err = run(file, out, io.Discard)
		took = time.Since(out.t0)
	})
	if (err != nil) != (failsAt >= 0) {
		cs.Violatef("task %d of the chain fails, but the result is %v", failsAt, err)
	}
	if out.b.String() != want {
		cs.Violatef("printed %q instead of %q", out.b.String(), want)
	}
	if took != time.Duration(seconds)*time.Second {
		cs.Violatef("took %v instead of %d seconds", took, seconds)
	}
	if !reflect.DeepEqual(out.at, wantAt) && !cs.Bad() && len(out.at) == len(wantAt) {
		cs.Violatef("printed after %v instead of %v", out.at, wantAt)
	}
	cs.Count("tasks_executed", n)
	if len(want) > 1 {
		cs.Nontrivial("demo" + vk.JSON(v))
	}
	cs.Sample(map[string]interface{}{"runbook": v, "output": want})
}

func init() {
	vk.Register("C17", "filter", func(c *vk.Ctx) { c.Cases("filter", c.N(20000, 400000), envFilter) })
	vk.Register("C17", "child", func(c *vk.Ctx) { c.Cases("child", c.N(500, 8000), childEnv) })
	vk.Register("C18", "commands", func(c *vk.Ctx) { c.Cases("commands", c.N(500, 8000), commands) })
	vk.Register("C19", "output", func(c *vk.Ctx) {
		c.Cases("streams", c.N(500, 6000), output)
		c.Cases("binary", c.N(80, 1000), binary)
		c.Cases("background", c.N(8, 100), background)
	})
	vk.Register("C05", "targets", func(c *vk.Ctx) {
		c.Mute = true
		c.Cases("mixed", c.N(60, 1500), mixed)
	})
	vk.Register("C20", "demo", func(c *vk.Ctx) { c.Cases("chain", c.N(4000, 60000), demos) })
}
