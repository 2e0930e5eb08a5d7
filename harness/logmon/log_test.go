//go:build go1.22

// Package logmon monitors loggers: which messages they write, where, and in one piece.
package logmon

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"go.uber.org/zap"

	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/zverif/vk"
)

func TestVerif(t *testing.T) { vk.Main(t) }

func init() {
	vk.Register("C32", "messages", messages)
	vk.Register("C32", "terminal", terminal)
	vk.Register("C33", "concurrent", concurrent)
}

var levels = []string{"ERROR", "WARN", "INFO", "DEBUG"} // by the verbosity they need

type message struct {
	Level  int // index of levels, or -1 and -2 for what's more severe
	Style  int // 0: print, 1: format, 2: with fields, 3: a logger with fields, 4: a named logger
	Text   string
	Fields map[string]interface{}
}

func (m message) level() string {
	if m.Level < 0 {
		return []string{"DPANIC", "PANIC"}[-1-m.Level]
	}
	return levels[m.Level]
}

func (m message) log(l *zap.SugaredLogger) {
	if m.Level == -2 {
		defer func() {
			if recover() == nil {
				panic("monitor panic: Panic returned")
			}
		}()
	}
	var kv []interface{}
	for k, v := range m.Fields {
		kv = append(kv, k, v)
	}
	switch m.Style {
	case 1:
		[]func(string, ...interface{}){l.Panicf, l.DPanicf, l.Errorf, l.Warnf, l.Infof, l.Debugf}[2+m.Level]("%s", m.Text)
		return
	case 2:
		[]func(string, ...interface{}){l.Panicw, l.DPanicw, l.Errorw, l.Warnw, l.Infow, l.Debugw}[2+m.Level](m.Text, kv...)
		return
	case 3:
		l = l.With(kv...)
	case 4:
		l = l.Named("name")
	}
	[]func(...interface{}){l.Panic, l.DPanic, l.Error, l.Warn, l.Info, l.Debug}[2+m.Level](m.Text)
}

var words = []string{"a", "message", "100%", "%s %d", "é", "日本", "\"quoted\"", "{}", "[x]", "ERROR", "back\\slash", "=", "tab\there"}

func random(r *rand.Rand, id int) message {
	m := message{Level: r.Intn(4), Style: r.Intn(5)}
	if r.Intn(16) == 0 {
		m.Level = -1 - r.Intn(2)
	}
	m.Text = fmt.Sprintf("<%d>", id)
	for n := vk.Several(r, 4, 100); n > 0; n-- {
		m.Text += " " + words[r.Intn(len(words))]
	}
	if r.Intn(30) == 0 {
		m.Text += strings.Repeat("x", vk.Size(r, 100000))
	}
	m.Text += fmt.Sprintf(" </%d>", id)
	if m.Style == 2 || m.Style == 3 {
		m.Fields = map[string]interface{}{}
		for n := 1 + vk.Several(r, 3, 40); n > 0; n-- {
			m.Fields[fmt.Sprintf("k%d", n)] = field(r)
		}
	}
	return m
}

// field is a value that's logged with a message
func field(r *rand.Rand) interface{} {
	switch r.Intn(10) {
	case 0:
		return true
	case 1:
		return nil
	case 2:
		return -1 - r.Int63()>>uint(r.Intn(60))
	case 3:
		return time.Duration(vk.Int(r, 0, 1<<50)) >> uint(r.Intn(40))
	case 4:
		return []string{words[r.Intn(len(words))], "", words[r.Intn(len(words))]}
	case 5:
		return map[string]interface{}{"a": words[r.Intn(len(words))], "b": []interface{}{1.5, nil}}
	case 6, 7:
		return float64(r.Intn(1000))
	}
	return words[r.Intn(len(words))]
}

// shown is how the value of a field is expected to be read
func shown(v interface{}) string {
	if d, ok := v.(time.Duration); ok {
		v = d.String()
	}
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// line tells whether s is how m was logged
func (m message) line(s string, debug bool) error {
	f := strings.SplitN(s, "\t", 2)
	if debug {
		if len(f) < 2 {
			return errors.New("has no time")
		}
		t, err := time.Parse("2006-01-02T15:04:05.000Z0700", f[0])
		if err != nil {
			return err
		}
		if d := time.Since(t); d < -time.Minute || d > 20*time.Minute {
			return fmt.Errorf("its time is off by %v", d)
		}
		f = strings.SplitN(f[1], "\t", 2)
	}
	if len(f) < 2 || f[0] != m.level() {
		return fmt.Errorf("isn't of level %s", m.level())
	}
	rest := f[1]
	if m.Style == 4 {
		if !strings.HasPrefix(rest, "name\t") {
			return errors.New("lacks the logger's name")
		}
		rest = rest[5:]
	}
	if !strings.HasPrefix(rest, m.Text) {
		return errors.New("lacks the message")
	}
	rest = rest[len(m.Text):]
	if len(m.Fields) == 0 {
		if rest != "" {
			return fmt.Errorf("has extra text %q", rest)
		}
		return nil
	}
	var got map[string]interface{}
	d := json.NewDecoder(strings.NewReader(rest))
	d.UseNumber()
	if err := d.Decode(&got); err != nil {
		return fmt.Errorf("fields %q: %v", rest, err)
	}
	if rest, _ := io.ReadAll(d.Buffered()); strings.TrimSpace(string(rest)) != "" {
		return fmt.Errorf("has extra text %q", rest)
	}
	for k, v := range m.Fields {
		if x, ok := got[k]; !ok || shown(x) != shown(v) {
			return fmt.Errorf("has %v instead of %v as field %q", shown(x), shown(v), k)
		}
	}
	if len(got) != len(m.Fields) {
		return fmt.Errorf("has fields %v instead of %v", got, m.Fields)
	}
	return nil
}

// compare a log with what should be in it, in order
func compare(cs *vk.Case, what, log string, want []message, debug bool) {
	if log != "" && !strings.HasSuffix(log, "\n") {
		cs.Violatef("the %s log doesn't end with a line break: %q", what, log)
		return
	}
	var lines []string
	if log != "" {
		lines = strings.Split(strings.TrimSuffix(log, "\n"), "\n")
	}
	for i, l := range lines {
		if i >= len(want) {
			cs.Violatef("the %s log has %d lines instead of %d, the first extra one is %q", what, len(lines), len(want), l)
			return
		}
		if err := want[i].line(l, debug); err != nil {
			cs.Violatef("line %d of the %s log, %q, should be %s, but %v", i, what, l, vk.JSON(want[i]), err)
			return
		}
	}
	if len(lines) < len(want) {
		cs.Violatef("the %s log has %d lines instead of %d, %s is missing", what, len(lines), len(want), vk.JSON(want[len(lines)]))
	}
	cs.Count("lines of the "+what+" log", len(lines))
}

func threshold(verbosity int) int {
	if verbosity < 0 {
		return 0
	}
	return verbosity
}

func messages(c *vk.Ctx) {
	c.Cases("generated", c.N(1500, 60000), func(cs *vk.Case) {
		r := cs.R
		verbosity := r.Intn(9) - 3
		if r.Intn(20) == 0 {
			verbosity = []int{-1000, 1000, 127, 128, 256, -128, -129}[r.Intn(7)]
		}
		var all, want []message
		repeat := r.Intn(4) == 0 // the same few messages again and again
		n, few := 1+vk.Several(r, 12, 600), 1<<30
		if repeat && r.Intn(8) == 0 {
			n, few = 100+vk.Size(r, 2000), 1+r.Intn(3)
		}
		for size := 0; n > 0 && size < 4<<20; n-- {
			m := random(r, len(all))
			if k := len(all); repeat && k > 0 && (r.Intn(4) > 0 || k >= few) {
				m = all[k-1-r.Intn(k)/2]
				if few < 5 {
					m = all[r.Intn(k)%few]
				}
			}
			all = append(all, m)
			size += len(m.Text)
			if m.Level <= threshold(verbosity) {
				want = append(want, m)
			}
		}
		kind := r.Intn(5)
		cs.Describe(map[string]interface{}{"verbosity": verbosity, "kind": kind, "messages": all})
		var out, dbg bytes.Buffer
		var defaultLog io.Writer = &out
		var debugLog io.Writer
		read := func() string { return out.String() }
		path := ""
		switch kind {
		case 1:
			debugLog = &dbg
		case 2: // files
			path = filepath.Join(cs.Scratch(), []string{"debug log", "100%.log", "%d%s%!", "déjà.log", "a=b", "{}", "'x'", "\"x\"", "x\\y", "#1"}[r.Intn(10)])
			f, err := os.OpenFile(path, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
			if err != nil {
				panic(err)
			}
			defer f.Close()
			debugLog = f
			name := cs.WriteFile(cs.Scratch(), "out", "")
			g, err := os.OpenFile(name, os.O_WRONLY, 0)
			if err != nil {
				panic(err)
			}
			defer g.Close()
			defaultLog = g
			read = func() string { b, _ := os.ReadFile(name); return string(b) }
		case 3: // only the default log fails
			debugLog = &dbg
			defaultLog = failing{}
			want = nil
		case 4: // only the debug log fails
			debugLog = failing{}
		}
		log := logger.New(verbosity, defaultLog, debugLog)
		if kind == 3 || kind == 4 {
			log = quiet(log)
		}
		for _, m := range all {
			m.log(log)
		}
		got := read()
		debugWant := all
		if path != "" {
			b, _ := os.ReadFile(path)
			dbg.Write(b)
			intro := message{Level: 2, Text: "logging to: " + path}
			debugWant = append([]message{intro}, all...)
			if threshold(verbosity) >= 2 {
				want = append([]message{intro}, want...)
			}
		}
		compare(cs, "default", got, want, false)
		if kind == 1 || kind == 2 || kind == 3 {
			compare(cs, "debug", dbg.String(), debugWant, true)
		}
		if strings.Contains(got+dbg.String(), "\x1b") {
			cs.Violatef("there are escape sequences in a log that isn't a terminal: %q", got)
		}
		cs.Hist("messages at verbosity", fmt.Sprint(verbosity))
		cs.Nontrivial(fmt.Sprint(verbosity, kind, vk.JSON(all)))
		if len(got) < 300 && kind == 1 {
			cs.Sample(map[string]interface{}{"verbosity": verbosity, "default": got, "debug": dbg.String()})
		}
	})
	c.One("discard", func(cs *vk.Case) {
		log := logger.Discard()
		for i := 0; i < 40; i++ {
			random(cs.R, i).log(log)
		}
	})
}

type failing struct{}

func (failing) Write(p []byte) (int, error) { return 0, errors.New("can't write") }

// quiet keeps zap from reporting write errors on stderr
func quiet(l *zap.SugaredLogger) *zap.SugaredLogger {
	return l.Desugar().WithOptions(zap.ErrorOutput(sink{})).Sugar()
}

type sink struct{}

func (sink) Write(p []byte) (int, error) { return len(p), nil }
func (sink) Sync() error                 { return nil }

// terminal opens a pseudo terminal: colors are for terminals only, and change nothing else
func terminal(c *vk.Ctx) {
	c.Cases("pty", c.N(8, 60), func(cs *vk.Case) {
		master, slave, err := vk.Terminal()
		if err != nil {
			return
		}
		defer master.Close()
		defer slave.Close()
		verbosity := cs.R.Intn(4)
		var want []message
		var dbg bytes.Buffer
		log := logger.New(verbosity, slave, &dbg)
		for i := 0; i < 5; i++ {
			m := random(cs.R, i)
			m.Style, m.Fields = 0, nil
			m.Text = fmt.Sprintf("message %d", i)
			m.log(log)
			if m.Level <= verbosity {
				want = append(want, m)
			}
		}
		fmt.Fprint(slave, "END\n")
		var all []byte
		buf := make([]byte, 4096)
		for !bytes.Contains(all, []byte("END")) {
			k, err := master.Read(buf)
			if err != nil {
				return
			}
			all = append(all, buf[:k]...)
		}
		text := strings.Replace(string(all[:bytes.Index(all, []byte("END"))]), "\r\n", "\n", -1)
		cs.Describe(text)
		if len(want) > 0 && !strings.Contains(text, "\x1b[") {
			cs.Violatef("the log has no colors on a terminal: %q", text)
		}
		var b strings.Builder
		for i := 0; i < len(text); i++ {
			if text[i] == 0x1b {
				for i < len(text) && text[i] != 'm' {
					i++
				}
				continue
			}
			b.WriteByte(text[i])
		}
		compare(cs, "default", b.String(), want, false)
		if strings.Contains(dbg.String(), "\x1b") {
			cs.Violatef("there are escape sequences in the debug log: %q", dbg.String())
		}
		cs.Nontrivial(fmt.Sprint("terminal", cs.I))
		cs.Count("terminals", 1)
	})
}

// guarded detects that it's used by two goroutines at once. As it isn't synchronised,
// the race detector does, too.
type guarded struct {
	buf     bytes.Buffer
	busy    int
	overlap bool
	pause   int
}

func (g *guarded) Write(p []byte) (int, error) {
	g.busy++
	if g.busy != 1 {
		g.overlap = true
	}
	// write in pieces, to give others a chance to interfere
	n := len(p)/2 + 1
	if n > len(p) {
		n = len(p)
	}
	g.buf.Write(p[:n])
	for i := 0; i < g.pause; i++ {
		runtime.Gosched()
	}
	g.buf.Write(p[n:])
	if g.busy != 1 {
		g.overlap = true
	}
	g.busy--
	return len(p), nil
}

// ids is more than the messages of a goroutine
const ids = 100000

func concurrent(c *vk.Ctx) {
	c.Cases("generated", c.N(120, 4000), func(cs *vk.Case) { share(cs, false) })
	c.Cases("bursts", c.N(12, 300), func(cs *vk.Case) { share(cs, true) })
}

// share a logger; in a burst, there are many messages with the same text
func share(cs *vk.Case, burst bool) {
	r := cs.R
	users, each := 2+vk.Several(r, 12, 150), 1+vk.Several(r, 30, 300)
	if burst {
		each = (500 + vk.Size(r, 30000)) / users
	}
	verbosity := r.Intn(4)
	hasDebug := r.Intn(3) > 0
	cs.Describe(map[string]interface{}{"users": users, "each": each, "verbosity": verbosity, "debug": hasDebug})
	out, dbg := &guarded{pause: r.Intn(4)}, &guarded{pause: r.Intn(4)}
	var debugLog io.Writer
	if hasDebug {
		debugLog = dbg
	}
	log := logger.New(verbosity, out, debugLog)
	plan := make([][]message, users)
	for u := range plan {
		for i := 0; i < each; i++ {
			m := random(r, u*ids+i)
			if burst {
				m.Text, m.Style = "tick", 2
				m.Fields = map[string]interface{}{"id": fmt.Sprintf("<%d>", u*ids+i)}
				if r.Intn(4) > 0 {
					m.Level = 2 - r.Intn(2)
				}
			}
			plan[u] = append(plan[u], m)
		}
	}
	var wg sync.WaitGroup
	start := make(chan bool)
	for u := range plan {
		wg.Add(1)
		go func(l []message, yield int) {
			defer wg.Done()
			<-start
			for i, m := range l {
				m.log(log)
				if yield > 0 && i%yield == 0 {
					runtime.Gosched()
				}
			}
		}(plan[u], r.Intn(3))
	}
	close(start)
	wg.Wait()
	check := func(what string, g *guarded, debug bool) {
		if g.overlap {
			cs.Violatef("the writer of the %s log was used by two goroutines at once", what)
		}
		next := make([]int, users)
		skip := func(u int) {
			for !debug && next[u] < each && plan[u][next[u]].Level > verbosity {
				next[u]++
			}
		}
		order := []string{}
		for _, l := range strings.Split(strings.TrimSuffix(g.buf.String(), "\n"), "\n") {
			if l == "" {
				continue
			}
			i := strings.Index(l, "<")
			var id int
			if i < 0 {
				cs.Violatef("the %s log has a line of no message: %q", what, l)
				return
			}
			if _, err := fmt.Sscanf(l[i:], "<%d>", &id); err != nil || id/ids >= users {
				cs.Violatef("the %s log has a damaged line: %q", what, l)
				return
			}
			u := id / ids
			skip(u)
			if next[u] >= each {
				cs.Violatef("the %s log has a message again: %q", what, l)
				return
			}
			// in the order of each goroutine, and in one piece
			if err := plan[u][next[u]].line(l, debug); err != nil {
				cs.Violatef("the %s log has the line %q, expected %s: %v", what, l, vk.JSON(plan[u][next[u]]), err)
				return
			}
			next[u]++
			order = append(order, fmt.Sprint(u))
		}
		for u := range next {
			skip(u)
			if next[u] < each {
				cs.Violatef("the %s log lacks %s", what, vk.JSON(plan[u][next[u]]))
				return
			}
		}
		switches := 0
		for i := 1; i < len(order); i++ {
			if order[i] != order[i-1] {
				switches++
			}
		}
		cs.Count("lines of concurrent logs", len(order))
		cs.Count("switches between goroutines", switches)
		if switches >= users {
			cs.Nontrivial(what + strings.Join(order, ","))
		}
	}
	check("default", out, false)
	if hasDebug {
		check("debug", dbg, true)
	}
}
