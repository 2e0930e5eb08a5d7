//go:build go1.22

// Package pgfake is a server that speaks PostgreSQL's protocol, over a catalog made
// of plain data. It records everything clients do, and fails on demand.
package pgfake

import (
	"crypto/md5"
	"crypto/tls"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/jackc/pgx/pgproto3"
)

// Error is reported to the client
type Error struct {
	Code, Message string
}

// Col describes a result's column
type Col struct {
	Name string
	OID  uint32
}

// Fault interrupts a statement
type Fault struct {
	Kind  string // "error", "drop", "parse", "bind"
	After int    // rows sent before
	Err   Error
}

// Result of a statement
type Result struct {
	Cols  []Col
	Rows  [][]Value
	Tag   string
	Fault *Fault
}

// Query is what a client asked for
type Query struct {
	Seq    int64
	SQL    string
	Args   []string
	Simple bool
	Init   bool // part of the driver's handshake
	Rows   int  // rows that were sent
	Fault  string
	Since  time.Time
	Done   int64 // after the last result was produced, before the client could know
}

var clock int64 // orders the events of all servers

// Conn is what a client did
type Conn struct {
	ID         int
	At         time.Time
	AskedTLS   bool
	TLS        bool
	TLSFailed  string
	ServerName string
	Startup    map[string]string
	Plain      bool // the startup message wasn't encrypted
	Password   string
	MD5        bool
	Ready      bool
	Queries    []*Query
	Terminated bool // said goodbye
	Closed     bool
}

// Server configuration; set before Listen
type Server struct {
	TLS        *tls.Config // nil: refuses
	RefusePlan bool        // rejects unencrypted sessions
	RefuseTLS  bool        // rejects encrypted sessions, after accepting TLS
	Auth       string      // "", "password", "md5", "reject"
	Password   string
	AuthCode   string                   // error when the password is wrong
	Reject     string                   // a user that is rejected
	User       string                   // if not "", anyone else is rejected
	Version    string                   // 12.1 if it's ""
	Rude       bool                     // resets connections instead of closing them
	Fail       func(attempt int) string // "", "drop", "error", "ready-error": what happens to the nth connection

	// Describe returns the parameters and columns of a statement
	Describe func(c *Conn, sql string) (params int, cols []Col, err *Error)
	// Exec executes it; for the simple protocol there may be several results
	Exec func(c *Conn, q *Query) []*Result

	l    net.Listener
	mu   sync.Mutex
	cond []*Conn
	wg   sync.WaitGroup
	open map[net.Conn]bool
	n    int
	dir  string
}

// Listen on a network and address
func (s *Server) Listen(network, addr string) {
	// there are no free ports for a while after too many connections
	for i := 0; ; i++ {
		err := s.TryListen(network, addr)
		if err == nil {
			return
		}
		if i > 60 || !errors.Is(err, syscall.EADDRINUSE) {
			panic(err)
		}
		time.Sleep(2 * time.Second)
	}
}

var listeners int32

// ListenAnywhere mostly uses unix sockets, as these don't run out of ports
func (s *Server) ListenAnywhere() {
	if atomic.AddInt32(&listeners, 1)%8 > 0 {
		dir, err := os.MkdirTemp("", "s")
		if err != nil {
			panic(err)
		}
		if len(dir) < 85 {
			s.dir = dir
			s.Listen("unix", filepath.Join(dir, ".s.PGSQL.5432"))
			return
		}
		os.RemoveAll(dir)
	}
	s.Listen("tcp", "127.0.0.1:0")
}

// Host is where clients find the server
func (s *Server) Host() string {
	if s.dir != "" {
		return s.dir
	}
	return "127.0.0.1"
}

// TryListen is Listen, but reports errors
func (s *Server) TryListen(network, addr string) error {
	l, err := net.Listen(network, addr)
	if err != nil {
		return err
	}
	s.l = l
	s.open = map[net.Conn]bool{}
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		for {
			nc, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			c := &Conn{ID: len(s.cond), At: time.Now()}
			s.cond = append(s.cond, c)
			s.open[nc] = true
			s.n++
			n := s.n
			s.mu.Unlock()
			s.wg.Add(1)
			go func() {
				defer s.wg.Done()
				defer func() {
					s.mu.Lock()
					delete(s.open, nc)
					c.Closed = true
					s.mu.Unlock()
					if t, ok := nc.(*net.TCPConn); ok && s.Rude {
						t.SetLinger(0)
					}
					nc.Close()
				}()
				s.serve(nc, c, n)
			}()
		}
	}()
	return nil
}

func (s *Server) version() string {
	if s.Version == "" {
		return "12.1"
	}
	return s.Version
}

// Port the server listens on
func (s *Server) Port() uint16 {
	if s.dir != "" {
		return 5432
	}
	return uint16(s.l.Addr().(*net.TCPAddr).Port)
}

// Close waits for all connections to end; those that are left open are interrupted
func (s *Server) Close() (leftOpen int) {
	s.l.Close()
	if s.dir != "" {
		os.RemoveAll(s.dir)
	}
	// the client may have closed its side only just now
	for i := 0; i < 200; i++ {
		s.mu.Lock()
		leftOpen = len(s.open)
		s.mu.Unlock()
		if leftOpen == 0 {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	s.mu.Lock()
	for nc := range s.open {
		nc.Close()
	}
	s.mu.Unlock()
	s.wg.Wait()
	return leftOpen
}

// Conns lists everything that was observed; call it after Close
func (s *Server) Conns() []*Conn {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*Conn(nil), s.cond...)
}

func fail(nc net.Conn, e Error) {
	b, _ := pgproto3.NewBackend(nc, nc)
	b.Send(&pgproto3.ErrorResponse{Severity: "FATAL", Code: e.Code, Message: e.Message})
}

func (s *Server) set(fn func()) {
	s.mu.Lock()
	defer s.mu.Unlock()
	fn()
}

func (s *Server) serve(nc net.Conn, c *Conn, attempt int) {
	how := ""
	if s.Fail != nil {
		how = s.Fail(attempt)
	}
	if how == "drop" {
		return
	}
	var startup []byte
	for {
		head := make([]byte, 8)
		if _, err := io.ReadFull(nc, head); err != nil {
			return
		}
		n, code := binary.BigEndian.Uint32(head), binary.BigEndian.Uint32(head[4:])
		if n < 8 || n > 1<<16 {
			return
		}
		if code == 80877103 && n == 8 { // SSLRequest
			s.set(func() { c.AskedTLS = true })
			if s.TLS == nil || c.TLS {
				nc.Write([]byte("N"))
				continue
			}
			nc.Write([]byte("S"))
			cfg := s.TLS.Clone()
			cfg.GetConfigForClient = func(h *tls.ClientHelloInfo) (*tls.Config, error) {
				s.set(func() { c.ServerName = h.ServerName })
				return nil, nil
			}
			t := tls.Server(nc, cfg)
			if err := t.Handshake(); err != nil {
				s.set(func() { c.TLSFailed = err.Error() })
				return
			}
			s.set(func() { c.TLS = true })
			nc = t
			continue
		}
		rest := make([]byte, n-8)
		if _, err := io.ReadFull(nc, rest); err != nil {
			return
		}
		if code != 196608 {
			return
		}
		startup = rest
		break
	}
	params := map[string]string{}
	f := strings.Split(string(startup), "\x00")
	for i := 0; i+1 < len(f) && f[i] != ""; i += 2 {
		params[f[i]] = f[i+1]
	}
	s.set(func() { c.Startup, c.Plain = params, !c.TLS })
	b, err := pgproto3.NewBackend(nc, nc)
	if err != nil {
		panic(err)
	}
	switch {
	case how == "error":
		fail(nc, Error{"57P03", "the database system is starting up"})
		return
	case s.RefusePlan && !c.TLS, s.RefuseTLS && c.TLS, s.User != "" && params["user"] != s.User,
		s.Reject != "" && params["user"] == s.Reject:
		fail(nc, Error{"28000", "no pg_hba.conf entry"})
		return
	}
	salt := [4]byte{1, 2, 3, byte(c.ID)}
	switch s.Auth {
	case "reject":
		fail(nc, Error{"28P01", "password authentication failed"})
		return
	case "password", "md5":
		msg := &pgproto3.Authentication{Type: 3}
		if s.Auth == "md5" {
			msg = &pgproto3.Authentication{Type: 5, Salt: salt}
		}
		if b.Send(msg) != nil {
			return
		}
		m, err := b.Receive()
		if err != nil {
			return
		}
		p, ok := m.(*pgproto3.PasswordMessage)
		if !ok {
			return
		}
		want := s.Password
		if s.Auth == "md5" {
			want = digest(digest(s.Password+params["user"])+string(salt[:]), "md5")
		}
		got := p.Password
		s.set(func() { c.Password, c.MD5 = got, s.Auth == "md5" })
		if got != want {
			fail(nc, Error{"28P01", "password authentication failed"})
			return
		}
	}
	b.Send(&pgproto3.Authentication{Type: 0})
	b.Send(&pgproto3.ParameterStatus{Name: "server_version", Value: s.version()})
	b.Send(&pgproto3.ParameterStatus{Name: "standard_conforming_strings", Value: "on"})
	b.Send(&pgproto3.BackendKeyData{ProcessID: uint32(c.ID + 1), SecretKey: 42})
	if how == "ready-error" {
		fail(nc, Error{"57P01", "terminating connection due to administrator command"})
		return
	}
	if b.Send(&pgproto3.ReadyForQuery{TxStatus: 'I'}) != nil {
		return
	}
	s.set(func() { c.Ready = true })
	s.session(nc, b, c)
}

func digest(s string, prefix ...string) string {
	h := md5.Sum([]byte(s))
	return strings.Join(prefix, "") + hex.EncodeToString(h[:])
}

type portal struct {
	q       *Query
	res     *Result
	formats []int16
}

func (s *Server) session(nc net.Conn, b *pgproto3.Backend, c *Conn) {
	stmts := map[string]string{}
	var p *portal
	skip := false // until Sync, after an error
	report := func(e Error) {
		b.Send(&pgproto3.ErrorResponse{Severity: "ERROR", Code: e.Code, Message: e.Message})
	}
	add := func(q *Query) {
		q.Seq = atomic.AddInt64(&clock, 1)
		q.Since = time.Now()
		s.set(func() { c.Queries = append(c.Queries, q) })
	}
	for {
		m, err := b.Receive()
		if err != nil {
			return
		}
		if _, ok := m.(*pgproto3.Sync); skip && !ok {
			if _, ok := m.(*pgproto3.Terminate); !ok {
				continue
			}
		}
		switch m := m.(type) {
		case *pgproto3.Terminate:
			s.set(func() { c.Terminated = true })
			return
		case *pgproto3.Sync:
			skip = false
			b.Send(&pgproto3.ReadyForQuery{TxStatus: 'I'})
		case *pgproto3.Flush:
		case *pgproto3.Close:
			b.Send(&pgproto3.CloseComplete{})
		case *pgproto3.Parse:
			stmts[m.Name] = m.Query
			if _, _, e := s.describe(c, m.Query); e != nil {
				add(&Query{SQL: m.Query, Init: isInit(m.Query), Fault: "parse"})
				if e.Code == "drop" {
					return
				}
				report(*e)
				skip = true
				continue
			}
			b.Send(&pgproto3.ParseComplete{})
		case *pgproto3.Describe:
			if m.ObjectType == 'P' {
				b.Send(rowDescription(p.res.Cols, p.formats))
				continue
			}
			n, cols, _ := s.describe(c, stmts[m.Name])
			oids := make([]uint32, n)
			for i := range oids {
				oids[i] = 25
			}
			b.Send(&pgproto3.ParameterDescription{ParameterOIDs: oids})
			if len(cols) == 0 {
				b.Send(&pgproto3.NoData{})
			} else {
				b.Send(rowDescription(cols, nil))
			}
		case *pgproto3.Bind:
			q := &Query{SQL: stmts[m.PreparedStatement], Init: isInit(stmts[m.PreparedStatement])}
			for _, v := range m.Parameters {
				q.Args = append(q.Args, string(v))
			}
			add(q)
			p = &portal{q: q, formats: append([]int16(nil), m.ResultFormatCodes...)}
			rs := s.exec(c, q)
			if len(rs) != 1 {
				panic("monitor panic: a prepared statement with several results")
			}
			p.res = rs[0]
			if p.res.Fault != nil && p.res.Fault.Kind == "bind" {
				q.Fault = "bind"
				report(p.res.Fault.Err)
				skip = true
				continue
			}
			b.Send(&pgproto3.BindComplete{})
		case *pgproto3.Execute:
			ok, drop := s.send(b, p.q, p.res, p.formats)
			if drop {
				return
			}
			if !ok {
				report(p.res.Fault.Err)
				skip = true
			}
		case *pgproto3.Query:
			q := &Query{SQL: m.String, Simple: true}
			add(q)
			rs := s.exec(c, q)
			if len(rs) == 0 {
				q.Done = atomic.AddInt64(&clock, 1)
				b.Send(&pgproto3.EmptyQueryResponse{})
			}
			for _, r := range rs {
				if len(r.Cols) > 0 && (r.Fault == nil || r.Fault.After > 0) {
					b.Send(rowDescription(r.Cols, nil))
				}
				ok, drop := s.send(b, q, r, nil)
				if drop {
					return
				}
				if !ok {
					report(r.Fault.Err)
					break
				}
			}
			b.Send(&pgproto3.ReadyForQuery{TxStatus: 'I'})
		default:
			panic(fmt.Sprintf("monitor panic: unexpected message %T", m))
		}
	}
}

func (s *Server) describe(c *Conn, sql string) (int, []Col, *Error) {
	if n, cols, ok := describeInit(sql); ok {
		return n, cols, nil
	}
	return s.Describe(c, sql)
}

func (s *Server) exec(c *Conn, q *Query) []*Result {
	if q.Init {
		return []*Result{execInit(q.SQL)}
	}
	return s.Exec(c, q)
}

func (s *Server) send(b *pgproto3.Backend, q *Query, r *Result, formats []int16) (ok, drop bool) {
	for i, row := range r.Rows {
		if r.Fault != nil && i >= r.Fault.After {
			break
		}
		msg := &pgproto3.DataRow{}
		for j, v := range row {
			msg.Values = append(msg.Values, encode(v, r.Cols[j].OID, format(formats, j)))
		}
		if b.Send(msg) != nil {
			return false, true
		}
		q.Rows++
	}
	q.Done = atomic.AddInt64(&clock, 1)
	if r.Fault != nil {
		q.Fault = r.Fault.Kind
		return false, r.Fault.Kind == "drop"
	}
	tag := r.Tag
	if tag == "" {
		tag = fmt.Sprintf("SELECT %d", len(r.Rows))
	}
	b.Send(&pgproto3.CommandComplete{CommandTag: tag})
	return true, false
}

func format(formats []int16, i int) int16 {
	switch len(formats) {
	case 0:
		return 0
	case 1:
		return formats[0]
	}
	return formats[i]
}

func rowDescription(cols []Col, formats []int16) *pgproto3.RowDescription {
	m := &pgproto3.RowDescription{}
	for i, c := range cols {
		size := map[uint32]int16{16: 1, 18: 1, 19: 64, 20: 8, 21: 2, 23: 4, 26: 4}[c.OID]
		if size == 0 {
			size = -1
		}
		m.Fields = append(m.Fields, pgproto3.FieldDescription{Name: c.Name, DataTypeOID: c.OID,
			DataTypeSize: size, TypeModifier: -1, Format: format(formats, i)})
	}
	return m
}

func encode(v Value, oid uint32, f int16) []byte {
	if v == nil {
		return nil
	}
	if f == 0 {
		return []byte(text(v))
	}
	switch oid {
	case 16:
		if v.(bool) {
			return []byte{1}
		}
		return []byte{0}
	case 20:
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], uint64(v.(int64)))
		return b[:]
	case 23, 26:
		var b [4]byte
		binary.BigEndian.PutUint32(b[:], uint32(v.(int64)))
		return b[:]
	case 21:
		var b [2]byte
		binary.BigEndian.PutUint16(b[:], uint16(v.(int64)))
		return b[:]
	}
	return []byte(text(v))
}

// ---------------------------------------------------- the driver's handshake

var typeOIDs = map[string]int64{"bool": 16, "bytea": 17, "char": 18, "name": 19, "int8": 20, "int2": 21, "int4": 23,
	"text": 25, "oid": 26, "json": 114, "float4": 700, "float8": 701, "unknown": 705, "varchar": 1043, "bpchar": 1042,
	"timestamp": 1114, "timestamptz": 1184, "numeric": 1700, "_int2": 1005, "_text": 1009, "_name": 1003, "_int8": 1016, "_int4": 1007}

func isInit(sql string) bool {
	_, _, ok := describeInit(sql)
	return ok
}

func describeInit(sql string) (int, []Col, bool) {
	if !strings.Contains(sql, "pg_type") || !strings.HasPrefix(sql, "select t.oid,") {
		return 0, nil, false
	}
	if strings.Contains(sql, "typbasetype") {
		return 0, []Col{{"oid", 26}, {"typname", 19}, {"typbasetype", 26}}, true
	}
	return 0, []Col{{"oid", 26}, {"typname", 25}}, true
}

func execInit(sql string) *Result {
	_, cols, _ := describeInit(sql)
	r := &Result{Cols: cols}
	if strings.Contains(sql, "nsp.nspname") {
		for name, oid := range typeOIDs {
			r.Rows = append(r.Rows, []Value{oid, name})
		}
	}
	return r
}
