//go:build go1.22

package pgfake

import (
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
)

// Database is what a catalog describes
type Database struct {
	Legacy     bool // before version 10
	SearchPath string
	Path       []string // the schemas it consists of
	Timezone   string
	Version    string
	Schemas    []Schema
	Functions  []Function
	Sequences  []Sequence
	Relations  []Relation
}

type Schema struct {
	Name, Owner string
	Comment     *string
}

type Function struct {
	Schema, Name, Owner string
	Comment, Returns    *string
	Language, Source    string
	Args                int // functions with different arguments may have the same name
}

type Sequence struct {
	Schema, Name, Owner               string
	Comment                           *string
	Type                              string
	Start, Min, Max, Increment, Cache int64
	Cycle                             bool
	Table                             string // of the same schema, or ""
	Column                            string
	Dep                               string // "a" or "i"
}

// Relation is a table, if Kind is "r" or "p"
type Relation struct {
	Kind                string
	Schema, Name, Owner string
	Comment             *string
	Columns             []Column
	Checks              []Constraint
	ForeignKeys         []Constraint
	Others              []Constraint // of other kinds
	Params              []string
	Indexes             []Index
	Triggers            []Trigger
}

type Column struct {
	Name, Type       string
	NotNull, Dropped bool
	Default, Comment *string
}

type Constraint struct {
	Name, Def string
	Type      string // of others
	Ref       string // a table
	RefSchema string // if it's of another schema
	Key       []int64
}

type Index struct {
	Name, Def       string
	Primary, Unique bool
}

type Trigger struct {
	Name, Def string
	Internal  bool
}

// SystemSchemas exist in every database
var SystemSchemas = []string{"pg_catalog", "information_schema", "pg_toast", "pg_temp_1", "pg_toast_temp_1"}

func opaque(names string) map[string]bool {
	m := map[string]bool{"ctid": true, "xmin": true, "tableoid": true}
	for _, n := range strings.Fields(names) {
		m[n] = true
	}
	return m
}

type builder struct {
	db    *DB
	r     *rand.Rand
	used  map[int64]bool
	roles map[string]int64
	desc  map[[3]int64]string // object, catalog, column
	cls   map[string]int64    // oids of catalogs
	types map[string]int64
	mods  map[[2]int64]string
	defs  map[int64]string
}

func (b *builder) oid() int64 {
	for {
		o := 16384 + int64(b.r.Intn(1<<20))
		if !b.used[o] {
			b.used[o] = true
			return o
		}
	}
}

func (b *builder) role(name string) int64 {
	if b.roles[name] == 0 {
		b.roles[name] = b.oid()
	}
	return b.roles[name]
}

func (b *builder) typ(name string) (oid, mod int64) {
	base, mod := name, int64(-1)
	if i := strings.IndexByte(name, '('); i >= 0 {
		base = strings.TrimSpace(name[:i])
		mod = int64(4 + b.r.Intn(1<<16))
	}
	if b.types[base] == 0 {
		b.types[base] = b.oid()
		b.mods[[2]int64{b.types[base], -1}] = base
	}
	for mod >= 0 && b.mods[[2]int64{b.types[base], mod}] != "" && b.mods[[2]int64{b.types[base], mod}] != name {
		mod++
	}
	b.mods[[2]int64{b.types[base], mod}] = name
	return b.types[base], mod
}

func (b *builder) comment(oid int64, catalog string, sub int64, c *string) {
	if c != nil {
		b.desc[[3]int64{oid, b.cls[catalog], sub}] = *c
	}
	if b.r.Intn(3) == 0 {
		// the comment of something else, that happens to have the same oid
		other := []string{"pg_namespace", "pg_class", "pg_proc", "pg_type"}[b.r.Intn(4)]
		if other != catalog && b.desc[[3]int64{oid, b.cls[other], 0}] == "" {
			b.desc[[3]int64{oid, b.cls[other], 0}] = "someone else's comment"
		}
	}
}

// table has columns like "name:type=value", whose values may be left out of the
// rows, and ones that exist but aren't modeled
func (b *builder) table(name string, cols string, hidden string) *Table {
	t := &Table{Opaque: opaque(hidden)}
	for _, c := range strings.Fields(cols) {
		c, def, _ := strings.Cut(c, "=")
		f := strings.SplitN(c, ":", 2)
		oid := typeOIDs[f[1]]
		if oid == 0 {
			oid = 25
		}
		t.Cols = append(t.Cols, Col{f[0], uint32(oid)})
		var v Value
		switch {
		case def == "null":
		case f[1] == "bool":
			v = def == "t"
		case f[1] == "int2" || f[1] == "int4" || f[1] == "int8" || f[1] == "oid":
			n, _ := strconv.ParseInt(def, 10, 64)
			v = n
		case strings.HasPrefix(f[1], "_"):
			v = []Value{}
		default:
			v = def
		}
		t.defaults = append(t.defaults, v)
	}
	b.db.Tables["pg_catalog"][name] = t
	return t
}

// add a row of pairs of names and values
func (t *Table) add(pairs ...Value) {
	row := append([]Value(nil), t.defaults...)
	for i := 0; i < len(pairs); i += 2 {
		c := t.col(pairs[i].(string))
		if c < 0 {
			if t.Opaque[pairs[i].(string)] || t.absent[pairs[i].(string)] {
				continue // not in this version
			}
			panic(fmt.Sprintf("monitor panic: column %s", pairs[i]))
		}
		row[c] = pairs[i+1]
	}
	t.Rows = append(t.Rows, row)
}

// without columns of other versions
func (t *Table) without(names string) {
	t.absent = map[string]bool{}
	for _, n := range strings.Fields(names) {
		c := t.col(n)
		t.absent[n] = true
		t.Cols = append(t.Cols[:c:c], t.Cols[c+1:]...)
		t.defaults = append(t.defaults[:c:c], t.defaults[c+1:]...)
	}
}

// shortTypes are the names types have in the catalog
var shortTypes = map[string]string{"integer": "int4", "bigint": "int8", "smallint": "int2", "boolean": "bool", "character varying": "varchar",
	"timestamp with time zone": "timestamptz", "double precision": "float8"}

// one in n
func (b *builder) one(n int) bool { return b.r.Intn(n) == 0 }

func str(p *string) Value {
	if p == nil {
		return nil
	}
	return *p
}

// Build the catalog of a database
func Build(r *rand.Rand, d *Database) *DB {
	db := &DB{Tables: map[string]map[string]*Table{"pg_catalog": {}}, Funcs: map[string]Func{},
		Path:  append([]string{"pg_catalog"}, d.Path...),
		Shows: map[string]string{"search_path": d.SearchPath, "timezone": d.Timezone, "server_version": "12.1", "server_version_num": "120001"}}
	if d.Legacy {
		db.Shows["server_version"], db.Shows["server_version_num"] = "9.6.24", "90624"
	}
	b := &builder{db: db, r: r, used: map[int64]bool{}, roles: map[string]int64{}, desc: map[[3]int64]string{},
		cls: map[string]int64{}, types: map[string]int64{}, mods: map[[2]int64]string{}, defs: map[int64]string{}}
	nst := b.table("pg_namespace", "oid:oid nspname:name nspowner:oid", "nspacl")
	class := b.table("pg_class", "oid:oid relname:name relnamespace:oid reltype:oid reloftype:oid relowner:oid relam:oid relfilenode:oid reltablespace:oid "+
		"relpages:int4 relallvisible:int4 reltoastrelid:oid relhasindex:bool relisshared:bool relpersistence:text=p relkind:text relnatts:int2 relchecks:int2 "+
		"relhasoids:bool relhasrules:bool relhastriggers:bool relhassubclass:bool relrowsecurity:bool relforcerowsecurity:bool relispopulated:bool=t "+
		"relreplident:text=d relispartition:bool reloptions:_text=null", "reltuples relacl relfrozenxid relminmxid relpartbound relrewrite relhaspkey")
	attr := b.table("pg_attribute", "attrelid:oid attname:name atttypid:oid attstattarget:int4=-1 attlen:int2=-1 attnum:int2 attndims:int4 attcacheoff:int4=-1 "+
		"atttypmod:int4=-1 attbyval:bool attstorage:text=x attalign:text=i attnotnull:bool atthasdef:bool atthasmissing:bool attidentity:text attgenerated:text "+
		"attisdropped:bool attislocal:bool=t attinhcount:int4 attcollation:oid attoptions:_text=null attfdwoptions:_text=null", "attacl attmissingval")
	attrdef := b.table("pg_attrdef", "oid:oid adrelid:oid adnum:int2 adbin:text adsrc:text", "")
	proc := b.table("pg_proc", "oid:oid proname:name pronamespace:oid proowner:oid prolang:oid prosrc:text provariadic:oid prokind:text=f proisagg:bool proiswindow:bool "+
		"prosecdef:bool proleakproof:bool proisstrict:bool proretset:bool provolatile:text=v proparallel:text=u pronargs:int2 pronargdefaults:int2 prorettype:oid",
		"procost prorows protransform prosupport proargtypes proallargtypes proargmodes proargnames proargdefaults protrftypes probin proconfig proacl")
	lang := b.table("pg_language", "oid:oid lanname:name lanowner:oid lanispl:bool lanpltrusted:bool=t", "lanplcallfoid laninline lanvalidator lanacl")
	con := b.table("pg_constraint", "oid:oid conname:name connamespace:oid contype:text condeferrable:bool condeferred:bool convalidated:bool=t conrelid:oid contypid:oid "+
		"conindid:oid conparentid:oid confrelid:oid confupdtype:text confdeltype:text confmatchtype:text conislocal:bool=t coninhcount:int4 connoinherit:bool "+
		"conkey:_int2=null confkey:_int2=null", "conpfeqop conppeqop conffeqop conexclop conbin consrc")
	index := b.table("pg_index", "indexrelid:oid indrelid:oid indnatts:int2 indnkeyatts:int2 indisunique:bool indisprimary:bool indisexclusion:bool indimmediate:bool=t "+
		"indisclustered:bool indisvalid:bool=t indcheckxmin:bool indisready:bool=t indislive:bool=t indisreplident:bool indexprs:text=null indpred:text=null",
		"indkey indcollation indclass indoption")
	trig := b.table("pg_trigger", "oid:oid tgrelid:oid tgname:name tgfoid:oid tgenabled:text=O tgisinternal:bool tgconstrrelid:oid tgconstrindid:oid tgconstraint:oid "+
		"tgdeferrable:bool tginitdeferred:bool", "tgtype tgnargs tgattr tgargs tgqual tgoldtable tgnewtable")
	dep := b.table("pg_depend", "classid:oid objid:oid objsubid:int4 refclassid:oid refobjid:oid refobjsubid:int4 deptype:text", "")
	authid := b.table("pg_authid", "oid:oid rolname:name rolsuper:bool rolcanlogin:bool rolinherit:bool=t rolcreaterole:bool rolcreatedb:bool rolreplication:bool rolbypassrls:bool rolconnlimit:int4=-1", "rolpassword rolvaliduntil")
	roles := b.table("pg_roles", "oid:oid rolname:name rolsuper:bool rolcanlogin:bool rolinherit:bool=t rolcreaterole:bool rolcreatedb:bool rolreplication:bool rolbypassrls:bool rolconnlimit:int4=-1", "rolpassword rolvaliduntil rolconfig")
	users := b.table("pg_user", "usesysid:oid usename:name usesuper:bool usecreatedb:bool userepl:bool usebypassrls:bool", "passwd valuntil useconfig")
	inherits := b.table("pg_inherits", "inhrelid:oid inhparent:oid inhseqno:int4=1", "")
	ext := b.table("pg_extension", "oid:oid extname:name extowner:oid extnamespace:oid extrelocatable:bool extversion:text=1.0", "extconfig extcondition")
	settings := b.table("pg_settings", "name:text setting:text", "unit category short_desc extra_desc context vartype source min_val max_val enumvals boot_val reset_val sourcefile sourceline pending_restart")
	descriptions := b.table("pg_description", "objoid:oid classoid:oid objsubid:int4 description:text", "")
	if d.Legacy {
		class.without("relispartition")
		attr.without("attidentity attgenerated atthasmissing")
		proc.without("prokind")
		con.without("conparentid")
		index.without("indnkeyatts")
	} else {
		class.without("relhasoids")
		attrdef.without("adsrc")
		proc.without("proisagg proiswindow")
	}
	for _, n := range []string{"trigger", "void", "record", "integer", "bigint", "text", "boolean", "oid", "name"} {
		b.typ(n)
	}
	typ := b.table("pg_type", "oid:oid typname:name typnamespace:oid typtype:text=b typelem:oid typrelid:oid typisdefined:bool=t typnotnull:bool", "typowner typlen typbyval typcategory typarray typinput typoutput typbasetype typtypmod typcollation typdefault")
	var seq *Table
	if !d.Legacy {
		seq = b.table("pg_sequence", "seqrelid:oid seqtypid:oid seqstart:int8 seqincrement:int8 seqmax:int8 seqmin:int8 seqcache:int8 seqcycle:bool", "")
	}

	ns := map[string]int64{}
	all := []Schema{}
	for _, s := range SystemSchemas {
		all = append(all, Schema{Name: s, Owner: "postgres"})
	}
	all = append(all, d.Schemas...)
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	for name := range db.Tables["pg_catalog"] {
		b.cls[name] = int64(1000 + len(b.cls))
	}
	for _, s := range all {
		o := b.oid()
		ns[s.Name] = o
		nst.add("oid", o, "nspname", s.Name, "nspowner", b.role(s.Owner))
		b.comment(o, "pg_namespace", 0, s.Comment)
		if db.Tables[s.Name] == nil {
			db.Tables[s.Name] = map[string]*Table{}
		}
	}
	visible := map[int64]bool{}
	taken := map[string]map[string]bool{}
	addRel := func(o int64, schema, name, owner, kind string, opts []string, more ...Value) {
		var v Value
		if opts != nil {
			var l []Value
			for _, x := range opts {
				l = append(l, x)
			}
			v = l
		}
		class.add(append([]Value{"oid", o, "relname", name, "relnamespace", ns[schema], "relowner", b.role(owner), "relkind", kind, "reloptions", v,
			"relfilenode", b.oid(), "relpages", int64(r.Intn(1000))}, more...)...)
		if taken[schema] == nil {
			taken[schema] = map[string]bool{}
		}
		if taken[schema][name] {
			panic("monitor panic: relation " + schema + "." + name + " exists twice")
		}
		taken[schema][name] = true
	}
	for name, o := range b.cls {
		addRel(o, "pg_catalog", name, "postgres", "r", nil)
		if name == "pg_class" {
			attr.add("attrelid", o, "attname", "relname", "atttypid", int64(19), "attnotnull", true, "attnum", int64(2))
		}
	}
	// what every database has besides
	addRel(b.oid(), "information_schema", "sql_features", "postgres", "r", nil)
	addRel(b.oid(), "information_schema", "tables", "postgres", "v", nil)
	addRel(b.oid(), "pg_toast", "pg_toast_2604", "postgres", "t", nil)
	addRel(b.oid(), "pg_toast", "pg_toast_odd", "postgres", "r", nil)
	langs := map[string]int64{}
	for _, f := range d.Functions {
		if langs[f.Language] == 0 {
			langs[f.Language] = b.oid()
			lang.add("oid", langs[f.Language], "lanname", f.Language, "lanispl", f.Language == "plpgsql", "lanpltrusted", f.Language != "c")
		}
	}
	results := map[int64]Value{}
	argLists := map[int64]Value{}
	fvisible := map[int64]bool{}
	fns := append([]Function(nil), d.Functions...)
	ret := "integer"
	fns = append(fns, Function{Schema: "pg_catalog", Name: "abs", Owner: "postgres", Returns: &ret, Language: "internal", Source: "int4abs"},
		Function{Schema: "information_schema", Name: "_pg_char_max_length", Owner: "postgres", Returns: &ret, Language: "sql", Source: "SELECT 1"})
	r.Shuffle(len(fns), func(i, j int) { fns[i], fns[j] = fns[j], fns[i] })
	for _, f := range fns {
		if langs[f.Language] == 0 {
			langs[f.Language] = b.oid()
			lang.add("oid", langs[f.Language], "lanname", f.Language, "lanispl", f.Language == "plpgsql", "lanpltrusted", f.Language != "c")
		}
		o := b.oid()
		ret := b.types["record"]
		if f.Returns != nil && b.types[*f.Returns] != 0 {
			ret = b.types[*f.Returns]
		}
		kind := "f"
		if f.Returns == nil {
			kind = "p"
		} else if r.Intn(10) == 0 {
			kind = "w"
		}
		proc.add("oid", o, "proname", f.Name, "pronamespace", ns[f.Schema], "proowner", b.role(f.Owner), "prolang", langs[f.Language], "prosrc", f.Source,
			"prokind", kind, "proiswindow", kind == "w", "prosecdef", b.one(4), "proleakproof", b.one(8), "proisstrict", b.one(2), "proretset", b.one(4),
			"provolatile", string("ivs"[r.Intn(3)]), "proparallel", string("sru"[r.Intn(3)]), "pronargs", int64(f.Args), "prorettype", ret)
		results[o] = str(f.Returns)
		argLists[o] = strings.TrimSuffix(strings.Repeat("integer, ", f.Args), ", ")
		b.comment(o, "pg_proc", 0, f.Comment)
		fvisible[o] = f.Schema == "pg_catalog"
		for _, s := range d.Path {
			if s == f.Schema {
				fvisible[o] = true
				break
			}
			hidden := false
			for _, g := range d.Functions {
				hidden = hidden || g.Schema == s && g.Name == f.Name && g.Args == f.Args
			}
			if hidden {
				break
			}
		}
	}
	rels := append([]Relation(nil), d.Relations...)
	r.Shuffle(len(rels), func(i, j int) { rels[i], rels[j] = rels[j], rels[i] })
	oids := map[string]int64{}
	nums := map[string]int64{}
	var parents []int64 // of which these are the children
	for _, t := range rels {
		o := b.oid()
		oids[t.Schema+"\x00"+t.Name] = o
		partition := (t.Kind == "r" || t.Kind == "p") && !d.Legacy && b.one(4)
		inherited := partition || t.Kind == "r" && b.one(5)
		if inherited {
			parents = append(parents, o)
		}
		addRel(o, t.Schema, t.Name, t.Owner, t.Kind, t.Params, "relispartition", partition, "relpersistence", []string{"p", "p", "p", "u"}[r.Intn(4)],
			"relhasindex", len(t.Indexes) > 0 || b.one(6), "relnatts", int64(len(t.Columns)), "relchecks", int64(len(t.Checks)), "relhasrules", t.Kind == "v" || t.Kind == "m" || b.one(6),
			"relhastriggers", len(t.Triggers) > 0 || len(t.ForeignKeys) > 0 || b.one(6), "relhassubclass", t.Kind == "p" || b.one(6),
			"relrowsecurity", b.one(4), "relforcerowsecurity", b.one(6), "relreplident", string("ddfni"[r.Intn(5)]), "reltablespace", []Value{int64(0), int64(0), int64(1663)}[r.Intn(3)])
		b.comment(o, "pg_class", 0, t.Comment)
		ut := &Table{Opaque: map[string]bool{}}
		db.Tables[t.Schema][t.Name] = ut
		first := len(attr.Rows)
		attr.add("attrelid", o, "attname", "ctid", "atttypid", int64(27), "attnotnull", true, "attnum", int64(-1))
		attr.add("attrelid", o, "attname", "tableoid", "atttypid", int64(26), "attnotnull", true, "attnum", int64(-6))
		for i, c := range t.Columns {
			num := int64(i + 1)
			local, inh := true, int64(0)
			if inherited && r.Intn(3) > 0 {
				local, inh = b.one(4), 1
			}
			if c.Dropped {
				attr.add("attrelid", o, "attname", fmt.Sprintf("........pg.dropped.%d........", num), "attnum", num, "attisdropped", true, "attislocal", local, "attinhcount", inh)
				continue
			}
			ty, mod := b.typ(c.Type)
			nums[t.Schema+"\x00"+t.Name+"\x00"+c.Name] = num
			identity, generated := "", ""
			switch {
			case c.Default != nil:
				generated = []string{"", "", "s"}[r.Intn(3)]
			case c.NotNull:
				identity = []string{"", "", "a", "d"}[r.Intn(4)]
			}
			attr.add("attrelid", o, "attname", c.Name, "atttypid", ty, "atttypmod", mod, "attnotnull", c.NotNull, "attnum", num, "atthasdef", c.Default != nil,
				"attislocal", local, "attinhcount", inh, "attidentity", identity, "attgenerated", generated, "atthasmissing", b.one(8),
				"attstattarget", []Value{int64(-1), int64(-1), int64(0), int64(100)}[r.Intn(4)], "attcollation", []Value{int64(0), int64(100), int64(950)}[r.Intn(3)],
				"attstorage", string("pexm"[r.Intn(4)]), "attlen", []Value{int64(-1), int64(4), int64(8)}[r.Intn(3)])
			if c.Default != nil {
				attrdef.add("oid", b.oid(), "adrelid", o, "adnum", num, "adbin", *c.Default, "adsrc", *c.Default)
			}
			b.comment(o, "pg_class", num, c.Comment)
			ut.Opaque[c.Name] = true
		}
		rows := attr.Rows[first:]
		r.Shuffle(len(rows), func(i, j int) { rows[i], rows[j] = rows[j], rows[i] })
	}
	for _, t := range rels {
		o := oids[t.Schema+"\x00"+t.Name]
		add := func(c Constraint, kind string) {
			co := b.oid()
			b.defs[co] = c.Def
			var key Value
			var l []Value
			for _, k := range c.Key {
				l = append(l, k)
			}
			if l != nil {
				key = l
			}
			schema := t.Schema
			if c.RefSchema != "" {
				schema = c.RefSchema
			}
			action := func(event string) string {
				for a, l := range map[string]string{"RESTRICT": "r", "CASCADE": "c", "SET NULL": "n", "SET DEFAULT": "d"} {
					if strings.Contains(c.Def, " ON "+event+" "+a) {
						return l
					}
				}
				return "a"
			}
			// defs are written the way the server does
			deferrable := strings.Contains(c.Def, " DEFERRABLE")
			local, inh := true, int64(0)
			if b.one(4) {
				local, inh = b.one(3), 1
			}
			pairs := []Value{"oid", co, "conname", c.Name, "connamespace", ns[t.Schema], "contype", kind, "conrelid", o, "conkey", key,
				"condeferrable", deferrable, "condeferred", strings.Contains(c.Def, " INITIALLY DEFERRED"), "conislocal", local, "coninhcount", inh}
			if kind == "f" {
				match := "s"
				if strings.Contains(c.Def, " MATCH FULL") {
					match = "f"
				}
				parent := int64(0)
				if b.one(4) {
					parent = b.oid()
				}
				pairs = append(pairs, "confrelid", oids[schema+"\x00"+c.Ref], "confkey", key, "conindid", b.oid(), "conparentid", parent,
					"confupdtype", action("UPDATE"), "confdeltype", action("DELETE"), "confmatchtype", match)
			} else if kind == "p" || kind == "u" || kind == "x" {
				pairs = append(pairs, "conindid", b.oid())
			}
			con.add(pairs...)
		}
		for _, c := range t.Checks {
			add(c, "c")
		}
		for _, c := range t.ForeignKeys {
			add(c, "f")
		}
		for _, c := range t.Others {
			add(c, c.Type)
		}
		for _, i := range t.Indexes {
			io := b.oid()
			b.defs[io] = i.Def
			kind := "i"
			if t.Kind == "p" && !d.Legacy {
				kind = "I"
			}
			addRel(io, t.Schema, i.Name, t.Owner, kind, nil, "relispartition", b.one(5), "relam", int64(403))
			natts := int64(1 + strings.Count(i.Def, ","))
			var exprs, pred Value
			if strings.Count(i.Def, "(") > 1 {
				exprs = "({FUNCEXPR})"
			}
			if strings.Contains(i.Def, " WHERE ") {
				pred = "{OPEXPR}"
			}
			// what a failed CREATE INDEX CONCURRENTLY leaves behind
			valid, ready := true, true
			if !i.Primary && b.one(4) {
				valid, ready = false, b.one(2)
			}
			index.add("indexrelid", io, "indrelid", o, "indisprimary", i.Primary, "indisunique", i.Unique, "indnatts", natts, "indnkeyatts", natts,
				"indexprs", exprs, "indpred", pred, "indisvalid", valid, "indisready", ready, "indisexclusion", !i.Unique && b.one(5), "indimmediate", !i.Unique || !b.one(3),
				"indisclustered", b.one(5), "indisreplident", i.Unique && b.one(5), "indcheckxmin", b.one(5))
		}
		for _, g := range t.Triggers {
			to := b.oid()
			b.defs[to] = g.Def
			constraint := int64(0)
			if g.Internal || strings.HasPrefix(g.Def, "CREATE CONSTRAINT") {
				constraint = b.oid()
			}
			trig.add("oid", to, "tgrelid", o, "tgname", g.Name, "tgisinternal", g.Internal, "tgfoid", b.oid(), "tgenabled", string("OOODRA"[r.Intn(6)]), "tgconstraint", constraint,
				"tgdeferrable", strings.Contains(g.Def, " DEFERRABLE") && !strings.Contains(g.Def, "NOT DEFERRABLE"), "tginitdeferred", strings.Contains(g.Def, " INITIALLY DEFERRED"))
		}
	}
	for _, t := range []*Table{con, index, trig} {
		r.Shuffle(len(t.Rows), func(i, j int) { t.Rows[i], t.Rows[j] = t.Rows[j], t.Rows[i] })
	}
	for _, o := range parents {
		x := rels[r.Intn(len(rels))]
		inherits.add("inhrelid", o, "inhparent", oids[x.Schema+"\x00"+x.Name])
	}
	depend := func(class string, obj, sub int64, ref string, refobj, refsub int64, kind string) {
		dep.Rows = append(dep.Rows, []Value{b.cls[class], obj, sub, b.cls[ref], refobj, refsub, kind})
	}
	for _, s := range d.Sequences {
		o := b.oid()
		addRel(o, s.Schema, s.Name, s.Owner, "S", nil)
		b.comment(o, "pg_class", 0, s.Comment)
		if d.Legacy {
			t := &Table{Opaque: opaque("sequence_name last_value log_cnt is_called")}
			for _, c := range []string{"start_value", "increment_by", "max_value", "min_value", "cache_value"} {
				t.Cols = append(t.Cols, Col{c, 20})
			}
			t.Cols = append(t.Cols, Col{"is_cycled", 16})
			t.Rows = [][]Value{{s.Start, s.Increment, s.Max, s.Min, s.Cache, s.Cycle}}
			db.Tables[s.Schema][s.Name] = t
		} else {
			ty, _ := b.typ(s.Type)
			seq.Rows = append(seq.Rows, []Value{o, ty, s.Start, s.Increment, s.Max, s.Min, s.Cache, s.Cycle})
			db.Tables[s.Schema][s.Name] = &Table{Opaque: opaque("last_value log_cnt is_called")}
		}
		depend("pg_class", o, 0, "pg_namespace", ns[s.Schema], 0, "n")
		if s.Table != "" {
			to := oids[s.Schema+"\x00"+s.Table]
			num := nums[s.Schema+"\x00"+s.Table+"\x00"+s.Column]
			if to == 0 || num == 0 {
				panic("monitor panic: owner of sequence " + s.Name)
			}
			depend("pg_class", o, 0, "pg_class", to, num, s.Dep)
			if s.Dep == "a" {
				// the column's default uses the sequence
				depend("pg_attrdef", b.oid(), 0, "pg_class", o, 0, "n")
			}
		}
		if r.Intn(3) == 0 && len(rels) > 0 {
			// dependencies which don't make anyone the owner
			x := rels[r.Intn(len(rels))]
			to := oids[x.Schema+"\x00"+x.Name]
			if r.Intn(2) == 0 {
				depend("pg_class", o, 0, "pg_class", to, 1, "n")
			} else {
				depend("pg_type", o, 0, "pg_class", to, 1, "a")
			}
		}
	}
	// some belong to an extension
	eo := b.oid()
	ext.add("oid", eo, "extname", "plpgsql", "extowner", b.role("postgres"), "extnamespace", ns["pg_catalog"])
	for cat, t := range map[string]*Table{"pg_class": class, "pg_proc": proc} {
		rows := append([][]Value(nil), t.Rows...)
		sort.Slice(rows, func(i, j int) bool { return rows[i][0].(int64) < rows[j][0].(int64) })
		for _, row := range rows {
			if b.one(5) {
				depend(cat, row[0].(int64), 0, "pg_extension", eo, 0, "e")
			} else if b.one(5) {
				depend(cat, row[0].(int64), 0, "pg_namespace", row[2].(int64), 0, "n")
			}
		}
	}
	r.Shuffle(len(dep.Rows), func(i, j int) { dep.Rows[i], dep.Rows[j] = dep.Rows[j], dep.Rows[i] })
	r.Shuffle(len(class.Rows), func(i, j int) { class.Rows[i], class.Rows[j] = class.Rows[j], class.Rows[i] })
	nsname := map[int64]string{}
	for n, o := range ns {
		nsname[o] = n
	}
	for _, row := range class.Rows {
		schema, name := nsname[row[2].(int64)], row[1].(string)
		for _, s := range db.Path {
			if s == schema {
				visible[row[0].(int64)] = true
				break
			}
			if taken[s][name] {
				break
			}
		}
	}

	fn := func(name string, oid uint32, arity string, f func(a []Value) Value) {
		db.Funcs[name] = Func{oid, func(a []Value) Value {
			if !strings.Contains(arity, fmt.Sprint(len(a))) {
				raise("42883", "function %s with %d arguments does not exist", name, len(a))
			}
			if len(a) > 0 && a[0] == nil {
				return nil
			}
			return f(a)
		}}
	}
	fn("pg_get_userbyid", 19, "1", func(a []Value) Value {
		for n, o := range b.roles {
			if o == a[0] {
				return n
			}
		}
		return fmt.Sprintf("unknown (OID=%d)", a[0])
	})
	describe := func(o, cat, sub int64) Value {
		if c, ok := b.desc[[3]int64{o, cat, sub}]; ok {
			return c
		}
		return nil
	}
	fn("obj_description", 25, "12", func(a []Value) Value {
		if len(a) == 1 {
			for _, cat := range []string{"pg_type", "pg_proc", "pg_namespace", "pg_class"} {
				if c := describe(a[0].(int64), b.cls[cat], 0); c != nil {
					return c
				}
			}
			return nil
		}
		return describe(a[0].(int64), b.cls[a[1].(string)], 0)
	})
	fn("col_description", 25, "2", func(a []Value) Value {
		if a[1] == nil {
			return nil
		}
		return describe(a[0].(int64), b.cls["pg_class"], a[1].(int64))
	})
	fn("pg_get_function_result", 25, "1", func(a []Value) Value { return results[a[0].(int64)] })
	fn("pg_function_is_visible", 16, "1", func(a []Value) Value { return fvisible[a[0].(int64)] })
	fn("pg_table_is_visible", 16, "1", func(a []Value) Value { return visible[a[0].(int64)] })
	fn("format_type", 25, "2", func(a []Value) Value {
		mod := int64(-1)
		if a[1] != nil {
			mod = a[1].(int64)
		}
		if s, ok := b.mods[[2]int64{a[0].(int64), mod}]; ok {
			return s
		}
		return "???"
	})
	fn("pg_get_expr", 25, "23", func(a []Value) Value { return a[0] })
	def := func(a []Value) Value {
		if s, ok := b.defs[a[0].(int64)]; ok {
			return s
		}
		return nil
	}
	fn("pg_get_constraintdef", 25, "12", def)
	fn("pg_get_indexdef", 25, "13", def)
	fn("pg_get_triggerdef", 25, "12", def)
	// names of things, as text
	db.regText = func(kind string, o int64) Value {
		if kind == "regtype" {
			if s, ok := b.mods[[2]int64{o, -1}]; ok {
				return s
			}
		}
		for _, row := range class.Rows {
			if kind == "regclass" && row[0] == o {
				n := quoteIdent(row[1].(string))
				if !visible[o] {
					n = quoteIdent(nsname[row[2].(int64)]) + "." + n
				}
				return n
			}
		}
		return fmt.Sprint(o)
	}
	fn("to_regtype!", 26, "1", func(a []Value) Value {
		n := strings.TrimPrefix(a[0].(string), "pg_catalog.")
		for long, short := range shortTypes {
			if n == short {
				n = long
			}
		}
		if o := b.types[n]; o != 0 {
			return o
		}
		raise("42704", "type %q does not exist", a[0])
		return nil
	})
	fn("unnest", 25, "1", func(a []Value) Value { return a[0] })
	args := func(a []Value) Value { return argLists[a[0].(int64)] }
	fn("pg_get_function_arguments", 25, "1", args)
	fn("pg_get_function_identity_arguments", 25, "1", args)
	fn("current_schemas", 1003, "1", func(a []Value) Value {
		var l []Value
		for _, s := range db.Path {
			if s != "pg_catalog" || a[0] == true || has(d.Path, s) {
				l = append(l, s)
			}
		}
		return l
	})
	fn("current_schema", 19, "0", func(a []Value) Value {
		if len(d.Path) == 0 {
			return nil
		}
		return d.Path[0]
	})
	for _, n := range []string{"search_path", "server_version", "server_version_num"} {
		settings.add("name", n, "setting", db.Shows[n])
	}
	settings.add("name", "TimeZone", "setting", db.Shows["timezone"])
	fn("version", 25, "0", func(a []Value) Value { return d.Version })
	fn("lower", 25, "1", func(a []Value) Value { return strings.ToLower(a[0].(string)) })
	fn("upper", 25, "1", func(a []Value) Value { return strings.ToUpper(a[0].(string)) })
	fn("to_regclass!", 26, "1", func(a []Value) Value {
		n := strings.TrimPrefix(a[0].(string), "pg_catalog.")
		if o := b.cls[n]; o != 0 {
			return o
		}
		raise("42P01", "relation %q does not exist", a[0])
		return nil
	})
	fn("to_regclass", 26, "1", func(a []Value) Value {
		if o := b.cls[strings.TrimPrefix(a[0].(string), "pg_catalog.")]; o != 0 {
			return o
		}
		return nil
	})
	fn("current_setting", 25, "12", func(a []Value) Value {
		n := strings.ToLower(a[0].(string))
		if s, ok := db.Shows[n]; ok {
			return s
		}
		if len(a) > 1 {
			unsupported("current_setting(%q)", n)
		}
		raise("42704", "unrecognized configuration parameter %q", n)
		return nil
	})
	names := []string{}
	for name := range b.types {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		n := name
		if s := shortTypes[n]; s != "" {
			n = s
		} else if s := strings.TrimSuffix(n, "[]"); s != n {
			n = "_" + s
		}
		kind := "b"
		if n == "trigger" || n == "void" || n == "record" {
			kind = "p"
		}
		typ.add("oid", b.types[name], "typname", n, "typnamespace", ns["pg_catalog"], "typtype", kind)
	}
	names = nil
	for name := range b.roles {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		authid.add("oid", b.roles[name], "rolname", name, "rolsuper", name == "postgres", "rolcanlogin", b.one(2), "rolcreatedb", b.one(3))
		if b.one(2) {
			users.add("usesysid", b.roles[name], "usename", name, "usesuper", name == "postgres")
		}
	}
	authid.add("oid", b.oid(), "rolname", "pg_monitor")
	roles.Rows = authid.Rows
	for k, c := range b.desc {
		descriptions.Rows = append(descriptions.Rows, []Value{k[0], k[1], k[2], c})
	}
	sort.Slice(descriptions.Rows, func(i, j int) bool {
		x, y := descriptions.Rows[i], descriptions.Rows[j]
		for n := 0; n < 3; n++ {
			if x[n].(int64) != y[n].(int64) {
				return x[n].(int64) < y[n].(int64)
			}
		}
		return false
	})
	return db
}
