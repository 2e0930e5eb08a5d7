From ad4fc0be5dbbd1b1ee72ce898c44127258729c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:45 +0000
Subject: [PATCH 01/40] fix: report unschedulable runbooks instead of
 succeeding without running them

A dependency cycle or an unknown task in 'after' made the scheduler fail,
but the error was dropped: Run started the targets, executed nothing and
returned nil.
---
 internal/runbook/runner.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/internal/runbook/runner.go b/internal/runbook/runner.go
index fa46adb..0bb1bf6 100644
--- a/internal/runbook/runner.go
+++ b/internal/runbook/runner.go
@@ -63,8 +63,11 @@ func (r *runner) closeDone() {
 func (r *runner) run() error {
 	defer r.closeDone()
 
-	r.startScheduler()
-	err := r.startTargets()
+	err := r.startScheduler()
+	if err != nil {
+		return err
+	}
+	err = r.startTargets()
 	if err != nil {
 		return err
 	}
@@ -90,12 +93,17 @@ func (r *runner) run() error {
 	return err
 }
 
-func (r *runner) startScheduler() {
+func (r *runner) startScheduler() error {
+	s, ready, err := scheduler.New(r.targets, r.tasks)
+	if err != nil {
+		close(r.ready)
+		return err
+	}
+
 	go func(readyChan chan<- *readyMsg, doneChan <-chan TaskID) {
 		defer close(readyChan)
 
 		r.log.Debug("scheduler: started")
-		s, ready, err := scheduler.New(r.targets, r.tasks)
 		for {
 			if err != nil {
 				break
@@ -121,6 +129,7 @@ func (r *runner) startScheduler() {
 		}
 		r.log.Debug("scheduler: stopped")
 	}(r.ready, r.done)
+	return nil
 }
 
 func (r *runner) startTargets() (err error) {
-- 
2.43.0


From 9945a594ae9b984f03e40d82d277204a5211b0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:47 +0000
Subject: [PATCH 02/40] fix: return from a runbook without tasks instead of
 waiting forever

With no tasks the scheduler waited for a completion that could never
happen, and Run deadlocked.
---
 internal/runbook/runner.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/runbook/runner.go b/internal/runbook/runner.go
index 0bb1bf6..ef9b5e9 100644
--- a/internal/runbook/runner.go
+++ b/internal/runbook/runner.go
@@ -63,6 +63,12 @@ func (r *runner) closeDone() {
 func (r *runner) run() error {
 	defer r.closeDone()
 
+	if len(r.tasks) < 1 {
+		// without tasks there would be nothing for the scheduler to wait for
+		r.log.Debug("runner: no tasks")
+		return nil
+	}
+
 	err := r.startScheduler()
 	if err != nil {
 		return err
-- 
2.43.0


From 0ac376e96cd43d4f06a9ceba43cbc81c51eacf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:49 +0000
Subject: [PATCH 03/40] fix: stop started targets and run nothing when a target
 fails to start

When a target failed to start, tasks of the targets already started were
executed after Run had returned, and the router blocked forever on the
missing channel, so those targets were never stopped.
---
 internal/runbook/runner.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/runbook/runner.go b/internal/runbook/runner.go
index ef9b5e9..3527746 100644
--- a/internal/runbook/runner.go
+++ b/internal/runbook/runner.go
@@ -75,6 +75,10 @@ func (r *runner) run() error {
 	}
 	err = r.startTargets()
 	if err != nil {
+		// wait for the targets that did start to be stopped
+		r.closeDone()
+		for range r.ended {
+		}
 		return err
 	}
 
@@ -157,9 +161,13 @@ func (r *runner) startTargets() (err error) {
 
 	// start goroutine, even if there's an error, because it's
 	// responsible for closing channels
+	aborted := err != nil
 	go func() {
 		r.log.Debug("router: started")
 		for x := range r.ready {
+			if aborted {
+				continue
+			}
 			r.log.Debugw("router: task ready", "task", x.taskID, "target", x.target)
 			ch := channels[x.target]
 			ch <- x
-- 
2.43.0


From f77ee41c421b6e555e8eaa48691a6b511e2b5819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:07 +0000
Subject: [PATCH 04/40] fix: size the runner's channels by the number of tasks

A large concurrency limit overflowed the capacity (makechan: size out of
range) or allocated gigabytes for messages that could never exist.
---
 internal/runbook/runner.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/runbook/runner.go b/internal/runbook/runner.go
index 3527746..e84a420 100644
--- a/internal/runbook/runner.go
+++ b/internal/runbook/runner.go
@@ -36,7 +36,7 @@ type runner struct {
 func newRunner(log sys.Logger, targets types.Targets, tasks types.Tasks) *runner {
 	capacity := 0
 	for _, t := range targets {
-		capacity += t.ConcurrencyLimit()
+		capacity += maxOutstanding(t, tasks)
 	}
 	capacity *= 2
 
@@ -53,6 +53,15 @@ func newRunner(log sys.Logger, targets types.Targets, tasks types.Tasks) *runner
 	}
 }
 
+// maxOutstanding is the most tasks a target can have been assigned, but not finished
+func maxOutstanding(target types.Target, tasks types.Tasks) int {
+	limit := target.ConcurrencyLimit()
+	if limit > len(tasks) {
+		limit = len(tasks)
+	}
+	return limit
+}
+
 func (r *runner) closeDone() {
 	if r.done != nil {
 		close(r.done)
-- 
2.43.0


From 918c0842bd77585bfe40fab18ac9c0dc974d837a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:09 +0000
Subject: [PATCH 05/40] fix: don't let one target block the delivery of tasks
 to the others

With a concurrency limit above one, the router blocked on a busy target
while other targets had nothing to do, and deadlocked Run when a target
failed with a second task waiting for it.
---
 internal/runbook/runner.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/runbook/runner.go b/internal/runbook/runner.go
index e84a420..d73d701 100644
--- a/internal/runbook/runner.go
+++ b/internal/runbook/runner.go
@@ -162,7 +162,9 @@ func (r *runner) startTargets() (err error) {
 		}
 
 		wg.Add(1)
-		ch := make(chan *readyMsg)
+		// the scheduler never has more tasks outstanding than this, so neither
+		// a busy target nor a failed one can block the router
+		ch := make(chan *readyMsg, maxOutstanding(target, r.tasks))
 		startTargetGoroutine(r.ctx, r.log, wg, target, ch, r.ended)
 		channels[TargetID(targetID)] = ch
 		r.log.Debugf("target started:  %s", targetID)
-- 
2.43.0


From 9094f916eeca3f980d6e18c23d6beb85de7cf3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:28 +0000
Subject: [PATCH 06/40] fix: return every task that can be started, even
 adjacent ones

After unlinking a ready task, Next skipped the task that followed it, so a
task without unfinished dependencies could be withheld until some other
task completed.
---
 internal/dag/dependency.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/dag/dependency.go b/internal/dag/dependency.go
index 00df408..fa57c71 100644
--- a/internal/dag/dependency.go
+++ b/internal/dag/dependency.go
@@ -73,11 +73,13 @@ func (g *DependencyGraph) Next(completed string) []string {
 	}
 	g.pending = head
 
-	for head = g.pending; head != nil && head.next != nil; head = head.next {
+	for head = g.pending; head != nil && head.next != nil; {
 		p := head.next
 		if g.dependencies[p.id].Size() < 1 {
 			ready = append(ready, p.id)
 			head.next = p.next
+		} else {
+			head = p
 		}
 	}
 	return ready
-- 
2.43.0


From ba9f96714111f08f92b5d4b2059b91d6bbd2d9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:43 +0000
Subject: [PATCH 07/40] fix: don't treat a task with an empty id as completed
 before it ran

---
 internal/dag/dependency.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/dag/dependency.go b/internal/dag/dependency.go
index fa57c71..34b063b 100644
--- a/internal/dag/dependency.go
+++ b/internal/dag/dependency.go
@@ -5,6 +5,7 @@ type DependencyGraph struct {
 	dependencies map[string]NodeSet
 	dependents   map[string]NodeSet
 	pending      *pendingTask
+	started      NodeSet
 }
 
 type pendingTask struct {
@@ -22,6 +23,7 @@ func NewDependencyGraph(nodes map[string][]string) (*DependencyGraph, error) {
 	g := &DependencyGraph{
 		dependencies: map[string]NodeSet{},
 		dependents:   map[string]NodeSet{},
+		started:      NodeSet{},
 	}
 	nodeOrder, cycle := TSort(digraph)
 	if cycle != nil {
@@ -62,8 +64,10 @@ func (g *DependencyGraph) HasPending() bool {
 // that can be started given previously completed tasks
 func (g *DependencyGraph) Next(completed string) []string {
 	var ready []string
-	for id := range g.dependents[completed] {
-		g.dependencies[id].Remove(completed)
+	if g.started.Contains(completed) {
+		for id := range g.dependents[completed] {
+			g.dependencies[id].Remove(completed)
+		}
 	}
 
 	head := g.pending
@@ -82,5 +86,8 @@ func (g *DependencyGraph) Next(completed string) []string {
 			head = p
 		}
 	}
+	for _, id := range ready {
+		g.started.Add(id)
+	}
 	return ready
 }
-- 
2.43.0


From 29be985396974b761a60feacc3b1cc6470de0af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:02 +0000
Subject: [PATCH 08/40] fix: report the whole cycle when it includes a node
 with an empty id

---
 internal/dag/tsort.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/internal/dag/tsort.go b/internal/dag/tsort.go
index faafd19..e370842 100644
--- a/internal/dag/tsort.go
+++ b/internal/dag/tsort.go
@@ -46,30 +46,31 @@ type visitor struct {
 	sorted   []string
 }
 
-func (v *visitor) visit(n string) (cycleStart string) {
+// visit reports the node a cycle starts with, until the cycle is complete
+func (v *visitor) visit(n string) (cycleStart string, inCycle bool) {
 	if _, ok := v.visiting[n]; ok {
 		if v.cycle == nil {
 			v.cycle = make([]string, 0)
 		}
-		return n
+		return n, true
 	} else if _, ok := v.visited[n]; ok {
-		return ""
+		return "", false
 	}
 	v.visiting[n] = struct{}{}
 	for _, m := range v.graph[n] {
-		cycleStart := v.visit(m)
+		cycleStart, inCycle := v.visit(m)
 		if v.cycle != nil {
-			if cycleStart != "" {
+			if inCycle {
 				if n == cycleStart {
-					cycleStart = ""
+					inCycle = false
 				}
 				v.cycle = append(v.cycle, n)
 			}
-			return cycleStart
+			return cycleStart, inCycle
 		}
 	}
 	delete(v.visiting, n)
 	v.visited[n] = struct{}{}
 	v.sorted = append(v.sorted, n)
-	return ""
+	return "", false
 }
-- 
2.43.0


From 275405f80553cbbe80c4d9fc39ca620fcdd2025e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:02 +0000
Subject: [PATCH 09/40] fix: reject null targets and tasks instead of panicking

---
 internal/runbook/parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/runbook/parser/parser.go b/internal/runbook/parser/parser.go
index 0478b30..2ffbe9c 100644
--- a/internal/runbook/parser/parser.go
+++ b/internal/runbook/parser/parser.go
@@ -82,6 +82,9 @@ func (p *Parser) Parse(filename string) (*types.Runbook, error) {
 
 func (p *Parser) loadTargets(tmp *runbook, book *types.Runbook) error {
 	for targetID, wrapper := range tmp.Targets {
+		if wrapper == nil {
+			return errors.New("invalid target definition")
+		}
 		factory, ok := p.Targets[wrapper.Class]
 		if !ok {
 			return errors.New("invalid target class")
@@ -107,6 +110,9 @@ func (p *Parser) loadTargets(tmp *runbook, book *types.Runbook) error {
 
 func (p *Parser) loadTasks(tmp *runbook, book *types.Runbook) error {
 	for taskID, task := range tmp.Tasks {
+		if task == nil {
+			return errors.New("invalid task definition")
+		}
 		targetID := task.Target
 		taskClass := ""
 		if idx := strings.Index(task.Target, "/"); idx != -1 {
-- 
2.43.0


From f55a2372fc81bae280c6cd765897f4d10f04e2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:45 +0000
Subject: [PATCH 10/40] fix: report errors that interrupt a query's results
 instead of returning part of them

---
 internal/pg/check.go                    | 3 +++
 internal/pg/columns.go                  | 3 +++
 internal/pg/foreign_key.go              | 3 +++
 internal/pg/functions.go                | 3 +++
 internal/pg/index.go                    | 3 +++
 internal/pg/schemas.go                  | 3 +++
 internal/pg/sequence.go                 | 6 ++++++
 internal/pg/table_storage_parameters.go | 3 +++
 internal/pg/tables.go                   | 3 +++
 internal/pg/triggers.go                 | 3 +++
 10 files changed, 33 insertions(+)

diff --git a/internal/pg/check.go b/internal/pg/check.go
index d5fd7d1..ed3d7e7 100644
--- a/internal/pg/check.go
+++ b/internal/pg/check.go
@@ -46,6 +46,9 @@ func (c *Conn) ListChecks(schema, table string) ([]*ddl.Check, error) {
 		check.Name = name
 		checks = append(checks, check)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/columns.go b/internal/pg/columns.go
index 81e3ada..bb3f0a2 100644
--- a/internal/pg/columns.go
+++ b/internal/pg/columns.go
@@ -52,6 +52,9 @@ func (c *Conn) ListColumns(schema, table string) ([]*ddl.Column, error) {
 		c.log.Debugw("row scanned", "column", col.Name, "type", col.Type)
 		columns = append(columns, col)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/foreign_key.go b/internal/pg/foreign_key.go
index 03f76d8..d232ff7 100644
--- a/internal/pg/foreign_key.go
+++ b/internal/pg/foreign_key.go
@@ -48,6 +48,9 @@ func (c *Conn) ListForeignKeys(schema, table string) ([]*ddl.ForeignKey, error)
 		fk.Name = name
 		fks = append(fks, fk)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/functions.go b/internal/pg/functions.go
index c452dcc..4d955a7 100644
--- a/internal/pg/functions.go
+++ b/internal/pg/functions.go
@@ -109,6 +109,9 @@ func (c *Conn) ListFunctions() ([]*ddl.Function, error) {
 		c.log.Debugw("scanned", "function", function)
 		functions = append(functions, function)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/index.go b/internal/pg/index.go
index 18752e0..d913353 100644
--- a/internal/pg/index.go
+++ b/internal/pg/index.go
@@ -53,6 +53,9 @@ func (c *Conn) ListIndexes(schema, table string) ([]*ddl.Index, error) {
 		index.Primary = isPrimary
 		indexes = append(indexes, index)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/schemas.go b/internal/pg/schemas.go
index 7e6a3b0..9d0f9ae 100644
--- a/internal/pg/schemas.go
+++ b/internal/pg/schemas.go
@@ -41,6 +41,9 @@ func (c *Conn) ListSchemas() ([]*ddl.Schema, error) {
 		c.log.Debugw("row scanned", "schema", schema)
 		schemas = append(schemas, schema)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/sequence.go b/internal/pg/sequence.go
index ba46fd7..bbc1fef 100644
--- a/internal/pg/sequence.go
+++ b/internal/pg/sequence.go
@@ -152,6 +152,9 @@ func (c *Conn) listSequences() ([]*ddl.Sequence, error) {
 		c.log.Debugw("row scanned", "sequence", sequence)
 		sequences = append(sequences, sequence)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
@@ -198,6 +201,9 @@ func (c *Conn) listSequencesLegacy() ([]*ddl.Sequence, error) {
 		c.log.Debugw("row scanned", "sequence", sequence)
 		sequences = append(sequences, sequence)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/table_storage_parameters.go b/internal/pg/table_storage_parameters.go
index cbc4d7e..51941e0 100644
--- a/internal/pg/table_storage_parameters.go
+++ b/internal/pg/table_storage_parameters.go
@@ -47,6 +47,9 @@ func (c *Conn) ListTableStorageParameters(schema, table string) (*ddl.TableStora
 			return nil, err
 		}
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/tables.go b/internal/pg/tables.go
index e3084b8..022f579 100644
--- a/internal/pg/tables.go
+++ b/internal/pg/tables.go
@@ -47,6 +47,9 @@ func (c *Conn) ListTables() ([]*ddl.Table, error) {
 		c.log.Debugw("row scanned", "table", table)
 		tables = append(tables, table)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/triggers.go b/internal/pg/triggers.go
index 492f7a7..6e80ecf 100644
--- a/internal/pg/triggers.go
+++ b/internal/pg/triggers.go
@@ -89,6 +89,9 @@ func (c *Conn) ListTriggers(schema, table string) ([]*ddl.Trigger, error) {
 		trigger.Schema = schema
 		triggers = append(triggers, trigger)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 4b696dc48b92f7ad155a9f78e598ca0c473e473f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:07 +0000
Subject: [PATCH 11/40] fix: keep the first connection that succeeds instead of
 opening one per retry

---
 internal/pg/pg.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/pg/pg.go b/internal/pg/pg.go
index f42475f..60e42b4 100644
--- a/internal/pg/pg.go
+++ b/internal/pg/pg.go
@@ -60,8 +60,11 @@ func New(o *Options) (*Conn, error) {
 
 	delay := 100 * time.Millisecond
 	var conn *pgx.Conn
-	for retries := 0; retries <= o.ConnectRetries; retries++ {
+	for retries := 0; retries == 0 || retries <= o.ConnectRetries; retries++ {
 		conn, err = pgx.Connect(cfg)
+		if err == nil {
+			break
+		}
 		if err != nil {
 			if retries < o.ConnectRetries {
 				time.Sleep(delay)
-- 
2.43.0


From 0ed8f97de433af06106b0309d26f1fe2a772a9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:07 +0000
Subject: [PATCH 12/40] fix: sort check constraints before adding them to the
 table

---
 internal/pg/inspect.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/pg/inspect.go b/internal/pg/inspect.go
index 028722b..9803a5d 100644
--- a/internal/pg/inspect.go
+++ b/internal/pg/inspect.go
@@ -87,14 +87,14 @@ func (c *Conn) inspectTable(o *InspectOptions, db *ddl.Database, table *ddl.Tabl
 	if err != nil {
 		return err
 	}
-	if len(checks) > 0 {
-		table.Checks = append(table.Checks, checks...)
-	}
 	if o.SortChecks {
 		sort.Slice(checks, func(i, j int) bool {
 			return (checks[i].Expression < checks[j].Expression)
 		})
 	}
+	if len(checks) > 0 {
+		table.Checks = append(table.Checks, checks...)
+	}
 
 	fks, err := c.ListForeignKeys(table.Schema, table.Name)
 	if err != nil {
-- 
2.43.0


From 23a7a6ab8f4fdb871c8905f6b6698811fa73c0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:47 +0000
Subject: [PATCH 13/40] fix: accept every spelling of a boolean storage
 parameter PostgreSQL does

---
 internal/ddl/table_storage_parameters.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/internal/ddl/table_storage_parameters.go b/internal/ddl/table_storage_parameters.go
index b3c9bc9..4ef5e67 100644
--- a/internal/ddl/table_storage_parameters.go
+++ b/internal/ddl/table_storage_parameters.go
@@ -1,6 +1,10 @@
 package ddl
 
-import "strconv"
+import (
+	"fmt"
+	"strconv"
+	"strings"
+)
 
 // TableStorageParameters influence how table data is stored and maintained
 type TableStorageParameters struct {
@@ -34,7 +38,7 @@ func (p *TableStorageParameters) Set(key, value string) error {
 		p.ParallelWorkers = &tmp
 		return err
 	case "autovacuum_enabled":
-		tmp, err := strconv.ParseBool(value)
+		tmp, err := parseBool(value)
 		p.AutovacuumEnabled = &tmp
 		return err
 	case "autovacuum_vacuum_threshold":
@@ -86,9 +90,23 @@ func (p *TableStorageParameters) Set(key, value string) error {
 		p.LogAutovacuumMinDuration = &tmp
 		return err
 	case "user_catalog_table":
-		tmp, err := strconv.ParseBool(value)
+		tmp, err := parseBool(value)
 		p.UserCatalogTable = &tmp
 		return err
 	}
 	return nil
 }
+
+// parseBool accepts the same spellings PostgreSQL does
+func parseBool(s string) (bool, error) {
+	lower := strings.ToLower(s)
+	switch {
+	case lower == "":
+		break
+	case strings.HasPrefix("true", lower), strings.HasPrefix("yes", lower), lower == "on", lower == "1":
+		return true, nil
+	case strings.HasPrefix("false", lower), strings.HasPrefix("no", lower), lower == "of", lower == "off", lower == "0":
+		return false, nil
+	}
+	return false, fmt.Errorf("invalid boolean value: %q", s)
+}
-- 
2.43.0


From 40b533684133e3f1bfe3ac9f3c11b8a90a6568ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:49 +0000
Subject: [PATCH 14/40] fix: point parse errors at the input that caused them

---
 internal/ddl/check_parser.go       | 2 +-
 internal/ddl/check_parser.rl       | 2 +-
 internal/ddl/foreign_key_parser.go | 2 +-
 internal/ddl/foreign_key_parser.rl | 2 +-
 internal/ddl/index_parser.go       | 2 +-
 internal/ddl/index_parser.rl       | 2 +-
 internal/ddl/parser_utils.go       | 2 +-
 internal/ddl/trigger_parser.go     | 2 +-
 internal/ddl/trigger_parser.rl     | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/internal/ddl/check_parser.go b/internal/ddl/check_parser.go
index 83d0ae7..6805e32 100644
--- a/internal/ddl/check_parser.go
+++ b/internal/ddl/check_parser.go
@@ -1114,7 +1114,7 @@ tr39:
 
 	if cs < check_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/check_parser.rl b/internal/ddl/check_parser.rl
index 44f37ba..d6d475c 100644
--- a/internal/ddl/check_parser.rl
+++ b/internal/ddl/check_parser.rl
@@ -46,7 +46,7 @@ func ParseCheck(data string) (*Check, error) {
 
 	if cs < check_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/foreign_key_parser.go b/internal/ddl/foreign_key_parser.go
index 1b19665..b974cfa 100644
--- a/internal/ddl/foreign_key_parser.go
+++ b/internal/ddl/foreign_key_parser.go
@@ -3975,7 +3975,7 @@ tr193:
 
 	if cs < foreign_key_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/foreign_key_parser.rl b/internal/ddl/foreign_key_parser.rl
index 17a6cfe..cc88f1c 100644
--- a/internal/ddl/foreign_key_parser.rl
+++ b/internal/ddl/foreign_key_parser.rl
@@ -83,7 +83,7 @@ func ParseForeignKey(data string) (*ForeignKey, error) {
 
 	if cs < foreign_key_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/index_parser.go b/internal/ddl/index_parser.go
index 3b6e1bc..4514246 100644
--- a/internal/ddl/index_parser.go
+++ b/internal/ddl/index_parser.go
@@ -1269,7 +1269,7 @@ tr64:
 
 	if cs < index_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/index_parser.rl b/internal/ddl/index_parser.rl
index d6d98c5..f853b34 100644
--- a/internal/ddl/index_parser.rl
+++ b/internal/ddl/index_parser.rl
@@ -84,7 +84,7 @@ func ParseIndex(data string) (*Index, error) {
 
 	if cs < index_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/parser_utils.go b/internal/ddl/parser_utils.go
index 51cfee7..ed1766c 100644
--- a/internal/ddl/parser_utils.go
+++ b/internal/ddl/parser_utils.go
@@ -39,7 +39,7 @@ OUTER:
 		switch {
 		case idx == -1:
 			break OUTER
-		case idx > cs:
+		case idx >= cs:
 			data = data[:idx]
 			break OUTER
 		default:
diff --git a/internal/ddl/trigger_parser.go b/internal/ddl/trigger_parser.go
index 8b8cc35..d24e58a 100644
--- a/internal/ddl/trigger_parser.go
+++ b/internal/ddl/trigger_parser.go
@@ -3378,7 +3378,7 @@ tr195:
 
 	if cs < trigger_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/trigger_parser.rl b/internal/ddl/trigger_parser.rl
index 0922ff0..b914b35 100644
--- a/internal/ddl/trigger_parser.rl
+++ b/internal/ddl/trigger_parser.rl
@@ -91,7 +91,7 @@ func ParseTrigger(data string) (*Trigger, error) {
 
 	if cs < trigger_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
-- 
2.43.0


From f4ce75623b27ad298d3d90ec59c23992eb835f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:51 +0000
Subject: [PATCH 15/40] fix: preserve whitespace inside quoted strings

---
 internal/ddl/parser_utils.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/ddl/parser_utils.go b/internal/ddl/parser_utils.go
index ed1766c..56f72aa 100644
--- a/internal/ddl/parser_utils.go
+++ b/internal/ddl/parser_utils.go
@@ -6,10 +6,16 @@ import (
 	"strings"
 )
 
-var whitespace = regexp.MustCompile(`\s+`)
+// quoted strings are matched so that whitespace inside them can be preserved
+var whitespace = regexp.MustCompile(`'[^']*'|"[^"]*"|\s+`)
 
 func collapseWhitespace(before string) string {
-	after := whitespace.ReplaceAllString(before, " ")
+	after := whitespace.ReplaceAllStringFunc(before, func(s string) string {
+		if s[0] == '\'' || s[0] == '"' {
+			return s
+		}
+		return " "
+	})
 	return after
 }
 
-- 
2.43.0


From 5b7b8741ccca14a51465a6477e67547580159c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 16/40] fix: don't mistake the sort order of an index's key for
 an operator class

---
 internal/ddl/index.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/ddl/index.go b/internal/ddl/index.go
index 0d6c2da..0e7a728 100644
--- a/internal/ddl/index.go
+++ b/internal/ddl/index.go
@@ -40,7 +40,14 @@ func (idx *Index) setName(name string) {
 
 func (idx *Index) setOpClass(opclass string) {
 	key := idx.Keys[len(idx.Keys)-1]
-	key.OpClass = opclass
+	switch upper(opclass) {
+	case "ASC":
+		key.Descending = false
+	case "DESC":
+		key.Descending = true
+	default:
+		key.OpClass = opclass
+	}
 }
 
 func (idx *Index) setTable(table string) {
-- 
2.43.0


From 9c4c8a32001c3094066ffa96e657017e75060956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:55 +0000
Subject: [PATCH 17/40] fix: include all of a trigger's events and options in
 its SQL

---
 internal/ddl/trigger.go | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/internal/ddl/trigger.go b/internal/ddl/trigger.go
index 7a8d4c1..d6c3f09 100644
--- a/internal/ddl/trigger.go
+++ b/internal/ddl/trigger.go
@@ -47,15 +47,50 @@ func (t *Trigger) setWhen(s string) {
 
 func (t *Trigger) ToSQL() (string, error) {
 	var sb strings.Builder
-	sb.WriteString("CREATE TRIGGER ")
+	if t.Constraint {
+		sb.WriteString("CREATE CONSTRAINT TRIGGER ")
+	} else {
+		sb.WriteString("CREATE TRIGGER ")
+	}
 	sb.WriteString(quoteName(t.Name))
 	sb.WriteString("\n  ")
 	sb.WriteString(t.When)
+	sep := " "
+	if t.Insert {
+		sb.WriteString(sep)
+		sb.WriteString("INSERT")
+		sep = " OR "
+	}
+	if t.Delete {
+		sb.WriteString(sep)
+		sb.WriteString("DELETE")
+		sep = " OR "
+	}
 	if t.Update {
-		sb.WriteString(" UPDATE")
+		sb.WriteString(sep)
+		sb.WriteString("UPDATE")
+		for i, column := range t.Columns {
+			if i < 1 {
+				sb.WriteString(" OF ")
+			} else {
+				sb.WriteString(", ")
+			}
+			sb.WriteString(quoteName(column))
+		}
+		sep = " OR "
+	}
+	if t.Truncate {
+		sb.WriteString(sep)
+		sb.WriteString("TRUNCATE")
 	}
 	sb.WriteString(" ON ")
 	sb.WriteString(quoteName(t.Table))
+	if t.Deferrable {
+		sb.WriteString("\n  DEFERRABLE")
+	}
+	if t.InitiallyDeferred {
+		sb.WriteString("\n  INITIALLY DEFERRED")
+	}
 	if t.ForEachRow {
 		sb.WriteString("\n  FOR EACH ROW")
 	}
-- 
2.43.0


From d89ad587cbf9b72a0acb94438d50064d36343483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:15 +0000
Subject: [PATCH 18/40] fix: limit a target's concurrent tasks, and close its
 results even if it is idle

---
 internal/taskset/base/base.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/internal/taskset/base/base.go b/internal/taskset/base/base.go
index 406910e..5703d0c 100644
--- a/internal/taskset/base/base.go
+++ b/internal/taskset/base/base.go
@@ -28,6 +28,9 @@ func (t *Task) Provides() []string {
 type RunTask func(types.TaskID, types.Task, chan<- types.TaskResults)
 
 func RunTasks(fn RunTask, maxConcurrency int) (chan<- types.TaskBatch, <-chan types.TaskResults) {
+	if maxConcurrency < 1 {
+		maxConcurrency = 1
+	}
 	queue := make(chan types.TaskBatch, maxConcurrency)
 	results := make(chan types.TaskResults, maxConcurrency)
 
@@ -40,6 +43,10 @@ func RunTasks(fn RunTask, maxConcurrency int) (chan<- types.TaskBatch, <-chan ty
 			case tasks, ok := <-queue:
 				if ok {
 					for id, task := range tasks {
+						for running >= maxConcurrency {
+							results <- <-relay
+							running--
+						}
 						fmt.Println(id)
 						fn(id, task, relay)
 						running++
@@ -53,14 +60,12 @@ func RunTasks(fn RunTask, maxConcurrency int) (chan<- types.TaskBatch, <-chan ty
 			}
 		}
 	shutdown:
-		for result := range relay {
-			results <- result
+		for running > 0 {
+			results <- <-relay
 			running--
-			if running < 1 {
-				close(relay)
-				close(results)
-			}
 		}
+		close(relay)
+		close(results)
 	}(queue, results)
 
 	return queue, results
-- 
2.43.0


From 75663589b088a736703a54d9dcc7b978d22c69e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:15 +0000
Subject: [PATCH 19/40] fix: lock writers shared by concurrent users of a
 logger

---
 internal/logger/logger.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/logger/logger.go b/internal/logger/logger.go
index 1774897..433f590 100644
--- a/internal/logger/logger.go
+++ b/internal/logger/logger.go
@@ -54,7 +54,7 @@ func New(verbosity int, defaultLog io.Writer, debugLog io.Writer) *zap.SugaredLo
 	}
 	core := zapcore.NewCore(
 		zapcore.NewConsoleEncoder(cfg),
-		zapcore.AddSync(defaultLog),
+		zapcore.Lock(zapcore.AddSync(defaultLog)),
 		level,
 	)
 
@@ -70,7 +70,7 @@ func New(verbosity int, defaultLog io.Writer, debugLog io.Writer) *zap.SugaredLo
 				EncodeLevel:    zapcore.CapitalLevelEncoder,
 				EncodeTime:     zapcore.ISO8601TimeEncoder,
 			}),
-			zapcore.AddSync(debugLog),
+			zapcore.Lock(zapcore.AddSync(debugLog)),
 			zapcore.DebugLevel,
 		)
 		core = zapcore.NewTee(core, debugCore)
-- 
2.43.0


From d142848d1359181389ecb45eea44f668ebd63e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:09 +0000
Subject: [PATCH 20/40] fix: quote IDs that aren't valid DOT identifiers

---
 internal/runbook/runbook.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/internal/runbook/runbook.go b/internal/runbook/runbook.go
index 41d2c94..6f7ab8c 100644
--- a/internal/runbook/runbook.go
+++ b/internal/runbook/runbook.go
@@ -4,6 +4,8 @@ import (
 	"encoding/json"
 	"io"
 	"path/filepath"
+	"regexp"
+	"strings"
 
 	dot "github.com/awalterschulze/gographviz"
 	"github.com/hokaccha/go-prettyjson"
@@ -45,6 +47,21 @@ func newParser(sys *sys.IO, basedir string) (*parser.Parser, error) {
 	return p, nil
 }
 
+var plainDotID = regexp.MustCompile(`^[a-zA-Z_][a-zA-Z0-9_]*$`)
+
+// dotID quotes an ID if using it as-is would change the meaning of a DOT file
+func dotID(id string) string {
+	switch strings.ToLower(id) {
+	case "digraph", "edge", "graph", "node", "strict", "subgraph":
+		// keywords
+	default:
+		if plainDotID.MatchString(id) {
+			return id
+		}
+	}
+	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(id) + `"`
+}
+
 // Dot generates a GraphViz compatible description of a runbook's tasks
 func Dot(sys *sys.IO, filename string, w io.Writer, splines string) error {
 	p, err := newParser(sys, filepath.Dir(filename))
@@ -65,16 +82,16 @@ func Dot(sys *sys.IO, filename string, w io.Writer, splines string) error {
 	}
 
 	for targetID := range runbook.Targets {
-		graphID := "cluster_" + targetID
+		graphID := dotID("cluster_" + targetID)
 		g.AddSubGraph("runbook", graphID, nil)
-		g.AddAttr(graphID, "label", targetID)
+		g.AddAttr(graphID, "label", dotID(targetID))
 	}
 
 	for dstID, task := range runbook.Tasks {
-		graphID := "cluster_" + task.Target
-		g.AddNode(graphID, dstID, nil)
+		graphID := dotID("cluster_" + task.Target)
+		g.AddNode(graphID, dotID(dstID), nil)
 		for _, srcID := range task.After {
-			g.AddEdge(srcID, dstID, true, nil)
+			g.AddEdge(dotID(srcID), dotID(dstID), true, nil)
 		}
 	}
 
-- 
2.43.0


From 4988b47698a693ce4d1ffc9fe8c3ad70250bd4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:12 +0000
Subject: [PATCH 21/40] fix: graph the same runbook the same way, and reject
 unknown dependencies

---
 internal/runbook/runbook.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/runbook/runbook.go b/internal/runbook/runbook.go
index 6f7ab8c..255935e 100644
--- a/internal/runbook/runbook.go
+++ b/internal/runbook/runbook.go
@@ -5,11 +5,13 @@ import (
 	"io"
 	"path/filepath"
 	"regexp"
+	"sort"
 	"strings"
 
 	dot "github.com/awalterschulze/gographviz"
 	"github.com/hokaccha/go-prettyjson"
 
+	"github.com/sjansen/pgutil/internal/dag"
 	"github.com/sjansen/pgutil/internal/runbook/demo"
 	"github.com/sjansen/pgutil/internal/runbook/parser"
 	"github.com/sjansen/pgutil/internal/runbook/pg"
@@ -87,10 +89,20 @@ func Dot(sys *sys.IO, filename string, w io.Writer, splines string) error {
 		g.AddAttr(graphID, "label", dotID(targetID))
 	}
 
-	for dstID, task := range runbook.Tasks {
+	taskIDs := make([]string, 0, len(runbook.Tasks))
+	for taskID := range runbook.Tasks {
+		taskIDs = append(taskIDs, taskID)
+	}
+	sort.Strings(taskIDs)
+
+	for _, dstID := range taskIDs {
+		task := runbook.Tasks[dstID]
 		graphID := dotID("cluster_" + task.Target)
 		g.AddNode(graphID, dotID(dstID), nil)
 		for _, srcID := range task.After {
+			if _, ok := runbook.Tasks[srcID]; !ok {
+				return &dag.InvalidEdgeError{Node: dstID, Edge: srcID}
+			}
 			g.AddEdge(dotID(srcID), dotID(dstID), true, nil)
 		}
 	}
-- 
2.43.0


From 70c4f318ad88d67d1be6c599cc22d5f55757184e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:15 +0000
Subject: [PATCH 22/40] fix: report failures to write a command's output

---
 internal/commands/ping.go           |  2 +-
 internal/commands/runbook_list.go   | 10 ++++++++--
 internal/commands/version.go        | 13 ++++++++-----
 internal/commands/version_legacy.go |  4 ++--
 internal/runbook/runbook.go         |  4 ++--
 5 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/internal/commands/ping.go b/internal/commands/ping.go
index 85397cc..bf5dd69 100644
--- a/internal/commands/ping.go
+++ b/internal/commands/ping.go
@@ -33,7 +33,7 @@ func (c *PingCmd) Run(base *Base) error {
 
 	version, err := conn.ServerVersion()
 	if err == nil {
-		fmt.Fprintln(base.Stdout, version)
+		_, err = fmt.Fprintln(base.Stdout, version)
 	}
 	return err
 }
diff --git a/internal/commands/runbook_list.go b/internal/commands/runbook_list.go
index c8fbbe3..051b222 100644
--- a/internal/commands/runbook_list.go
+++ b/internal/commands/runbook_list.go
@@ -30,10 +30,16 @@ func (c *RunBookListCmd) Run(base *Base) error {
 	}
 	sort.Strings(sorted)
 
-	fmt.Fprintln(base.Stdout, "Tasks & Targets:")
+	_, err = fmt.Fprintln(base.Stdout, "Tasks & Targets:")
+	if err != nil {
+		return err
+	}
 	for _, task := range sorted {
 		target := tasks[runbook.TaskID(task)]
-		fmt.Fprintf(base.Stdout, "  %-*s  %s\n", longest, task, target)
+		_, err = fmt.Fprintf(base.Stdout, "  %-*s  %s\n", longest, task, target)
+		if err != nil {
+			return err
+		}
 	}
 	return nil
 }
diff --git a/internal/commands/version.go b/internal/commands/version.go
index 50b1b1e..cc095d4 100644
--- a/internal/commands/version.go
+++ b/internal/commands/version.go
@@ -18,12 +18,15 @@ type VersionCmd struct {
 
 // Run executes the command
 func (c *VersionCmd) Run(base *Base) error {
-	fmt.Fprintln(base.Stdout, c.App, c.Build)
-	if c.Verbose && c.BuildInfo != nil {
-		fmt.Println("")
+	_, err := fmt.Fprintln(base.Stdout, c.App, c.Build)
+	if c.Verbose && c.BuildInfo != nil && err == nil {
+		_, err = fmt.Fprintln(base.Stdout, "")
 		for _, m := range c.BuildInfo.Deps {
-			fmt.Printf("%-40s %-35s\n", m.Path, m.Version)
+			if err != nil {
+				break
+			}
+			_, err = fmt.Fprintf(base.Stdout, "%-40s %-35s\n", m.Path, m.Version)
 		}
 	}
-	return nil
+	return err
 }
diff --git a/internal/commands/version_legacy.go b/internal/commands/version_legacy.go
index b6676bd..85dcea2 100644
--- a/internal/commands/version_legacy.go
+++ b/internal/commands/version_legacy.go
@@ -14,6 +14,6 @@ type VersionCmd struct {
 
 // Run executes the command
 func (c *VersionCmd) Run(base *Base) error {
-	fmt.Fprintln(base.Stdout, c.App, c.Build)
-	return nil
+	_, err := fmt.Fprintln(base.Stdout, c.App, c.Build)
+	return err
 }
diff --git a/internal/runbook/runbook.go b/internal/runbook/runbook.go
index 255935e..987f6d2 100644
--- a/internal/runbook/runbook.go
+++ b/internal/runbook/runbook.go
@@ -107,8 +107,8 @@ func Dot(sys *sys.IO, filename string, w io.Writer, splines string) error {
 		}
 	}
 
-	w.Write([]byte(g.String()))
-	return nil
+	_, err = io.WriteString(w, g.String())
+	return err
 }
 
 // Eval converts a runbook to JSON and pretty prints it
-- 
2.43.0


From a725d64f4f0224c921917caa53234c94ba1c4b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:17 +0000
Subject: [PATCH 23/40] fix: escape keys when a runbook is converted to JSON

---
 internal/runbook/runbook.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/runbook/runbook.go b/internal/runbook/runbook.go
index 987f6d2..6ce984f 100644
--- a/internal/runbook/runbook.go
+++ b/internal/runbook/runbook.go
@@ -1,6 +1,7 @@
 package runbook
 
 import (
+	"bytes"
 	"encoding/json"
 	"io"
 	"path/filepath"
@@ -129,8 +130,20 @@ func Eval(sys *sys.IO, filename string, w io.Writer, color bool) error {
 		return err
 	}
 
+	if !color {
+		// prettyjson doesn't escape keys
+		var buf bytes.Buffer
+		enc := json.NewEncoder(&buf)
+		enc.SetEscapeHTML(false)
+		enc.SetIndent("", "  ")
+		if err = enc.Encode(unformatted); err != nil {
+			return err
+		}
+		_, err = w.Write(bytes.TrimSuffix(buf.Bytes(), []byte("\n")))
+		return err
+	}
+
 	formatter := prettyjson.NewFormatter()
-	formatter.DisabledColor = !color
 	formatted, err := formatter.Marshal(unformatted)
 	if err != nil {
 		return err
-- 
2.43.0


From 1d930739d3830b48dfbfece61e2f5f3318d3d087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:46 +0000
Subject: [PATCH 24/40] fix: keep a command's existing output file if the
 runbook is invalid

---
 internal/commands/base.go         | 25 +++++++++++++++++++++++++
 internal/commands/runbook_dot.go  |  8 +++-----
 internal/commands/runbook_eval.go | 10 ++++------
 3 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/internal/commands/base.go b/internal/commands/base.go
index a32a803..dc41dbd 100644
--- a/internal/commands/base.go
+++ b/internal/commands/base.go
@@ -13,3 +13,28 @@ type Base struct {
 	Debug     *os.File
 	Verbosity int
 }
+
+// outputFile replaces the contents of a file, but not before there's something to write
+type outputFile struct {
+	name string
+	file *os.File
+}
+
+// Write writes to the file, which is first created or truncated if necessary
+func (o *outputFile) Write(p []byte) (n int, err error) {
+	if o.file == nil {
+		o.file, err = os.OpenFile(o.name, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0666)
+		if err != nil {
+			return 0, err
+		}
+	}
+	return o.file.Write(p)
+}
+
+// Close closes the file if it was opened
+func (o *outputFile) Close() error {
+	if o.file == nil {
+		return nil
+	}
+	return o.file.Close()
+}
diff --git a/internal/commands/runbook_dot.go b/internal/commands/runbook_dot.go
index 4a4f9c7..35a2b1c 100644
--- a/internal/commands/runbook_dot.go
+++ b/internal/commands/runbook_dot.go
@@ -1,7 +1,6 @@
 package commands
 
 import (
-	"os"
 	"path/filepath"
 
 	"github.com/sjansen/pgutil/internal/runbook"
@@ -29,10 +28,9 @@ func (c *RunBookDotCmd) Run(base *Base) (err error) {
 
 	w := base.Stdout
 	if output != "-" {
-		w, err = os.OpenFile(output, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0666)
-		if err != nil {
-			return err
-		}
+		f := &outputFile{name: output}
+		defer f.Close()
+		w = f
 	}
 	return runbook.Dot(&base.IO, c.File, w, c.Splines)
 }
diff --git a/internal/commands/runbook_eval.go b/internal/commands/runbook_eval.go
index 0e04c2b..ce1901a 100644
--- a/internal/commands/runbook_eval.go
+++ b/internal/commands/runbook_eval.go
@@ -1,8 +1,6 @@
 package commands
 
 import (
-	"os"
-
 	isatty "github.com/mattn/go-isatty"
 
 	"github.com/sjansen/pgutil/internal/runbook"
@@ -24,15 +22,15 @@ func (c *RunBookEvalCmd) Run(base *Base) (err error) {
 
 	w := base.Stdout
 	if output != "-" {
-		w, err = os.OpenFile(output, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0666)
-		if err != nil {
-			return err
-		}
+		f := &outputFile{name: output}
+		defer f.Close()
+		w = f
 	}
 
 	color := false
 	switch c.Color {
 	case "auto":
+		// a file that hasn't been opened yet is never a terminal
 		if x, ok := w.(interface{ Fd() uintptr }); ok {
 			color = isatty.IsTerminal(x.Fd())
 		}
-- 
2.43.0


From 6895b0d093f841746ec24bd05c74c4bddcc45d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:00 +0000
Subject: [PATCH 25/40] fix: don't confuse tasks with the clusters of targets

---
 internal/runbook/runbook.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/internal/runbook/runbook.go b/internal/runbook/runbook.go
index 6ce984f..2f1a18c 100644
--- a/internal/runbook/runbook.go
+++ b/internal/runbook/runbook.go
@@ -65,6 +65,18 @@ func dotID(id string) string {
 	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(id) + `"`
 }
 
+// clusterPrefix chooses a prefix for the names of subgraphs, which must differ from
+// the names of nodes
+func clusterPrefix(tasks types.Tasks) string {
+	prefix := "cluster_"
+	for taskID := range tasks {
+		for strings.HasPrefix(taskID, prefix) {
+			prefix += "_"
+		}
+	}
+	return prefix
+}
+
 // Dot generates a GraphViz compatible description of a runbook's tasks
 func Dot(sys *sys.IO, filename string, w io.Writer, splines string) error {
 	p, err := newParser(sys, filepath.Dir(filename))
@@ -84,8 +96,9 @@ func Dot(sys *sys.IO, filename string, w io.Writer, splines string) error {
 		g.AddAttr("runbook", "splines", splines)
 	}
 
+	prefix := clusterPrefix(runbook.Tasks)
 	for targetID := range runbook.Targets {
-		graphID := dotID("cluster_" + targetID)
+		graphID := dotID(prefix + targetID)
 		g.AddSubGraph("runbook", graphID, nil)
 		g.AddAttr(graphID, "label", dotID(targetID))
 	}
@@ -98,7 +111,7 @@ func Dot(sys *sys.IO, filename string, w io.Writer, splines string) error {
 
 	for _, dstID := range taskIDs {
 		task := runbook.Tasks[dstID]
-		graphID := dotID("cluster_" + task.Target)
+		graphID := dotID(prefix + task.Target)
 		g.AddNode(graphID, dotID(dstID), nil)
 		for _, srcID := range task.After {
 			if _, ok := runbook.Tasks[srcID]; !ok {
-- 
2.43.0


From 9d83591ed5d71633b317eaaa475d41c11b655048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:29 +0000
Subject: [PATCH 26/40] fix: back off exponentially between attempts to connect

---
 internal/pg/pg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/pg/pg.go b/internal/pg/pg.go
index 60e42b4..9ba544b 100644
--- a/internal/pg/pg.go
+++ b/internal/pg/pg.go
@@ -68,7 +68,7 @@ func New(o *Options) (*Conn, error) {
 		if err != nil {
 			if retries < o.ConnectRetries {
 				time.Sleep(delay)
-				delay = time.Duration(2^retries) * 100 * time.Millisecond
+				delay *= 2
 			} else {
 				return nil, err
 			}
-- 
2.43.0


From c2c33dca829a58a7808bce7a3215f63f35325441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:29 +0000
Subject: [PATCH 27/40] fix: include sequences that aren't owned by a column

---
 internal/pg/sequence.go | 48 ++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/internal/pg/sequence.go b/internal/pg/sequence.go
index bbc1fef..068302c 100644
--- a/internal/pg/sequence.go
+++ b/internal/pg/sequence.go
@@ -36,20 +36,20 @@ JOIN pg_catalog.pg_sequence s
   ON s.seqrelid = c.oid
 LEFT JOIN pg_catalog.pg_depend d
   ON d.objid = c.oid
-JOIN pg_catalog.pg_class c2
+  AND d.classid='pg_catalog.pg_class'::pg_catalog.regclass
+  AND d.refclassid='pg_catalog.pg_class'::pg_catalog.regclass
+  AND d.deptype IN ('a', 'i')
+LEFT JOIN pg_catalog.pg_class c2
   ON c2.oid = d.refobjid
-JOIN pg_catalog.pg_namespace n2
+LEFT JOIN pg_catalog.pg_namespace n2
   ON n2.oid = c2.relnamespace
-JOIN pg_catalog.pg_attribute a2
+LEFT JOIN pg_catalog.pg_attribute a2
   ON (a2.attrelid = c2.oid AND a2.attnum = d.refobjsubid)
 WHERE c.relkind = 'S'
   AND n.nspname <> 'pg_catalog'
   AND n.nspname <> 'information_schema'
   AND n.nspname !~ '^pg_toast'
   AND pg_catalog.pg_table_is_visible(c.oid)
-  AND d.classid='pg_catalog.pg_class'::pg_catalog.regclass
-  AND d.refclassid='pg_catalog.pg_class'::pg_catalog.regclass
-  AND d.deptype IN ('a', 'i')
 ORDER BY "Schema", "Name"
 `
 
@@ -67,20 +67,20 @@ JOIN pg_catalog.pg_namespace n
   ON n.oid = c.relnamespace
 LEFT JOIN pg_catalog.pg_depend d
   ON d.objid = c.oid
-JOIN pg_catalog.pg_class c2
+  AND d.classid='pg_catalog.pg_class'::pg_catalog.regclass
+  AND d.refclassid='pg_catalog.pg_class'::pg_catalog.regclass
+  AND d.deptype IN ('a', 'i')
+LEFT JOIN pg_catalog.pg_class c2
   ON c2.oid = d.refobjid
-JOIN pg_catalog.pg_namespace n2
+LEFT JOIN pg_catalog.pg_namespace n2
   ON n2.oid = c2.relnamespace
-JOIN pg_catalog.pg_attribute a2
+LEFT JOIN pg_catalog.pg_attribute a2
   ON (a2.attrelid = c2.oid AND a2.attnum = d.refobjsubid)
 WHERE c.relkind = 'S'
   AND n.nspname <> 'pg_catalog'
   AND n.nspname <> 'information_schema'
   AND n.nspname !~ '^pg_toast'
   AND pg_catalog.pg_table_is_visible(c.oid)
-  AND d.classid='pg_catalog.pg_class'::pg_catalog.regclass
-  AND d.refclassid='pg_catalog.pg_class'::pg_catalog.regclass
-  AND d.deptype IN ('a', 'i')
 ORDER BY "Schema", "Name"
 `
 
@@ -143,11 +143,7 @@ func (c *Conn) listSequences() ([]*ddl.Sequence, error) {
 			Increment: increment,
 			Cache:     cache,
 			Cycle:     cycle,
-			OwnedBy: &ddl.SequenceOwner{
-				Schema: String(ownerSchema),
-				Table:  String(ownerName),
-				Column: String(ownerColumn),
-			},
+			OwnedBy:   sequenceOwner(ownerSchema, ownerName, ownerColumn),
 		}
 		c.log.Debugw("row scanned", "sequence", sequence)
 		sequences = append(sequences, sequence)
@@ -192,11 +188,7 @@ func (c *Conn) listSequencesLegacy() ([]*ddl.Sequence, error) {
 			Comment: String(comment),
 
 			DataType: "bigint",
-			OwnedBy: &ddl.SequenceOwner{
-				Schema: String(ownerSchema),
-				Table:  String(ownerName),
-				Column: String(ownerColumn),
-			},
+			OwnedBy:  sequenceOwner(ownerSchema, ownerName, ownerColumn),
 		}
 		c.log.Debugw("row scanned", "sequence", sequence)
 		sequences = append(sequences, sequence)
@@ -240,3 +232,15 @@ FROM ` + Identifier(seq.Schema, seq.Name)
 
 	return sequences, nil
 }
+
+// sequenceOwner returns nil if a sequence isn't owned by a column
+func sequenceOwner(schema, table, column *string) *ddl.SequenceOwner {
+	if column == nil {
+		return nil
+	}
+	return &ddl.SequenceOwner{
+		Schema: String(schema),
+		Table:  String(table),
+		Column: String(column),
+	}
+}
-- 
2.43.0


From cf46152cc1f77dd0f20fe8c6e3a60bfba94516e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:29 +0000
Subject: [PATCH 28/40] fix: verify the certificate of the host that's
 connected to

---
 internal/pg/pg.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/pg/pg.go b/internal/pg/pg.go
index 9ba544b..ce82459 100644
--- a/internal/pg/pg.go
+++ b/internal/pg/pg.go
@@ -52,6 +52,9 @@ func New(o *Options) (*Conn, error) {
 		if err != nil {
 			return nil, err
 		}
+	} else if cfg.TLSConfig != nil && !cfg.TLSConfig.InsecureSkipVerify {
+		// the environment's host isn't necessarily the one being connected to
+		cfg.TLSConfig.ServerName = cfg.Host
 	}
 
 	cfg.Logger = zapadapter.NewLogger(
-- 
2.43.0


From 6aa2015cbb0206bfcc86bbf3b3f85f628cef26ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:50 +0000
Subject: [PATCH 29/40] fix: don't mistake text inside a check's expression for
 its options

---
 internal/ddl/check_parser.go | 4 ++--
 internal/ddl/check_parser.rl | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/ddl/check_parser.go b/internal/ddl/check_parser.go
index 6805e32..d6ed550 100644
--- a/internal/ddl/check_parser.go
+++ b/internal/ddl/check_parser.go
@@ -273,13 +273,13 @@ tr9:
 	
 //line check_parser.rl:22
 
-		mark2 = p
+		mark2 = p; check.Deferrable, check.InitiallyDeferred = false, false
 	
 	goto st56
 tr11:
 //line check_parser.rl:22
 
-		mark2 = p
+		mark2 = p; check.Deferrable, check.InitiallyDeferred = false, false
 	
 	goto st56
 	st56:
diff --git a/internal/ddl/check_parser.rl b/internal/ddl/check_parser.rl
index d6d475c..a30371c 100644
--- a/internal/ddl/check_parser.rl
+++ b/internal/ddl/check_parser.rl
@@ -20,7 +20,7 @@ func ParseCheck(data string) (*Check, error) {
 		mark1 = fpc
 	}
 	action setMark2 {
-		mark2 = fpc
+		mark2 = fpc; check.Deferrable, check.InitiallyDeferred = false, false
 	}
 
 	action matchDeferrable        { check.Deferrable = true }
-- 
2.43.0


From 1ef79b90793186176f2e4c7cc0b2b6e87e41db30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:57 +0000
Subject: [PATCH 30/40] fix: treat vertical tabs as whitespace everywhere

---
 internal/ddl/parser_utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ddl/parser_utils.go b/internal/ddl/parser_utils.go
index 56f72aa..9669b07 100644
--- a/internal/ddl/parser_utils.go
+++ b/internal/ddl/parser_utils.go
@@ -7,7 +7,7 @@ import (
 )
 
 // quoted strings are matched so that whitespace inside them can be preserved
-var whitespace = regexp.MustCompile(`'[^']*'|"[^"]*"|\s+`)
+var whitespace = regexp.MustCompile(`'[^']*'|"[^"]*"|[\s\v]+`)
 
 func collapseWhitespace(before string) string {
 	after := whitespace.ReplaceAllStringFunc(before, func(s string) string {
-- 
2.43.0


From 60c744c5221814b1c3cb137ecdf91806e5bfa28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:08 +0000
Subject: [PATCH 31/40] fix: quote function bodies that contain dollar signs

---
 internal/ddl/function.go |  8 ++++++--
 internal/ddl/util.go     | 15 ++++++++++++++-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/internal/ddl/function.go b/internal/ddl/function.go
index b609e3f..9c3930b 100644
--- a/internal/ddl/function.go
+++ b/internal/ddl/function.go
@@ -21,9 +21,13 @@ func (f *Function) ToSQL() (string, error) {
 	sb.WriteString("()\n")
 	sb.WriteString("RETURNS ")
 	sb.WriteString(f.Returns)
-	sb.WriteString(" AS $$\n")
+	delimiter := dollarQuote(f.Definition)
+	sb.WriteString(" AS ")
+	sb.WriteString(delimiter)
+	sb.WriteString("\n")
 	sb.WriteString(f.Definition)
-	sb.WriteString("$$ LANGUAGE '")
+	sb.WriteString(delimiter)
+	sb.WriteString(" LANGUAGE '")
 	sb.WriteString(f.Language)
 	sb.WriteString("'\n;\n")
 	return sb.String(), nil
diff --git a/internal/ddl/util.go b/internal/ddl/util.go
index 0fe6ee6..025d722 100644
--- a/internal/ddl/util.go
+++ b/internal/ddl/util.go
@@ -1,6 +1,19 @@
 package ddl
 
-import "strings"
+import (
+	"fmt"
+	"strings"
+)
+
+// dollarQuote returns a delimiter that doesn't occur in s
+func dollarQuote(s string) string {
+	delimiter := "$$"
+	// s may end with the beginning of a delimiter
+	for i := 0; strings.Contains(s+"$", delimiter); i++ {
+		delimiter = fmt.Sprintf("$body%d$", i)
+	}
+	return delimiter
+}
 
 func quoteName(s string) string {
 	return `"` + strings.Replace(s, `"`, `""`, -1) + `"`
-- 
2.43.0


From fc6f077e417201d22eb071f61b6555f22294526a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:09 +0000
Subject: [PATCH 32/40] fix: keep the dependencies of tasks when loading a task
 set

---
 internal/taskset/base/base.go     | 8 ++++++++
 internal/taskset/parser/parser.go | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/internal/taskset/base/base.go b/internal/taskset/base/base.go
index 5703d0c..346a272 100644
--- a/internal/taskset/base/base.go
+++ b/internal/taskset/base/base.go
@@ -13,6 +13,14 @@ type Task struct {
 	Require []string `hcl:"require,optional"`
 }
 
+// Relate records how a task is related to its target and other tasks
+func (t *Task) Relate(target string, after, provide, require []string) {
+	t.Target = target
+	t.After = after
+	t.Provide = provide
+	t.Require = require
+}
+
 func (t *Task) Dependencies() []string {
 	deps := make([]string, 0, len(t.After)+len(t.Require))
 	for _, id := range t.After {
diff --git a/internal/taskset/parser/parser.go b/internal/taskset/parser/parser.go
index 593b6b2..d27183b 100644
--- a/internal/taskset/parser/parser.go
+++ b/internal/taskset/parser/parser.go
@@ -35,6 +35,11 @@ type task struct {
 	Config hcl.Body `hcl:",remain"`
 }
 
+// related is implemented by tasks that need to know their relations
+type related interface {
+	Relate(target string, after, provide, require []string)
+}
+
 // Parser registers available targets and tasks
 type Parser struct {
 	Targets map[string]types.TargetFactory
@@ -129,6 +134,9 @@ func (p *Parser) loadTasks(raw *taskSet, ts *types.TaskSet) error {
 			return diag
 		}
 
+		if x, ok := task.(related); ok {
+			x.Relate(t.Target, t.After, t.Provide, t.Require)
+		}
 		ts.Tasks[types.TaskID(t.ID)] = task
 	}
 	return nil
-- 
2.43.0


From 9fe3b68a1119abd839c30c0901ad51c7767238a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:20 +0000
Subject: [PATCH 33/40] fix: refuse task sets that define a target or task
 twice

---
 internal/taskset/parser/parser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/taskset/parser/parser.go b/internal/taskset/parser/parser.go
index d27183b..fb50a98 100644
--- a/internal/taskset/parser/parser.go
+++ b/internal/taskset/parser/parser.go
@@ -91,11 +91,16 @@ func (p *Parser) loadDefaultTargets(ts *types.TaskSet) error {
 }
 
 func (p *Parser) loadExplicitTargets(raw *taskSet, ts *types.TaskSet) error {
+	seen := map[[2]string]bool{}
 	for _, t := range raw.Targets {
 		factory, ok := p.Targets[t.Type]
 		if !ok {
 			return errors.New("invalid target type")
 		}
+		if seen[[2]string{t.Type, t.ID}] {
+			return errors.New("duplicate target")
+		}
+		seen[[2]string{t.Type, t.ID}] = true
 		target := factory.NewTarget()
 		err := gohcl.DecodeBody(t.Config, nil, target)
 		if err != nil {
@@ -108,6 +113,10 @@ func (p *Parser) loadExplicitTargets(raw *taskSet, ts *types.TaskSet) error {
 
 func (p *Parser) loadTasks(raw *taskSet, ts *types.TaskSet) error {
 	for _, t := range raw.Tasks {
+		if _, ok := ts.Tasks[types.TaskID(t.ID)]; ok {
+			return errors.New("duplicate task")
+		}
+
 		targetType, taskType := t.Type, ""
 		if x := strings.SplitN(t.Type, "/", 2); len(x) > 1 {
 			targetType = x[0]
-- 
2.43.0


From 57379198a925fd46a61cd06838006c2468ec0a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:21 +0000
Subject: [PATCH 34/40] fix: don't overwrite a runbook with its graph

---
 internal/commands/runbook_dot.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/commands/runbook_dot.go b/internal/commands/runbook_dot.go
index 35a2b1c..d35e641 100644
--- a/internal/commands/runbook_dot.go
+++ b/internal/commands/runbook_dot.go
@@ -24,6 +24,9 @@ func (c *RunBookDotCmd) Run(base *Base) (err error) {
 		src := c.File
 		ext := filepath.Ext(src)
 		output = src[:len(src)-len(ext)] + ".dot"
+		if output == src {
+			output = src + ".dot" // never overwrite the runbook
+		}
 	}
 
 	w := base.Stdout
-- 
2.43.0


From 894305603908ebf13d871053cfbb19f129e9e704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:55 +0000
Subject: [PATCH 35/40] fix: eval with colors when they're requested

---
 internal/runbook/runbook.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/runbook/runbook.go b/internal/runbook/runbook.go
index 2f1a18c..fc2311a 100644
--- a/internal/runbook/runbook.go
+++ b/internal/runbook/runbook.go
@@ -157,6 +157,12 @@ func Eval(sys *sys.IO, filename string, w io.Writer, color bool) error {
 	}
 
 	formatter := prettyjson.NewFormatter()
+	// color was requested, even if stdout isn't a terminal
+	formatter.KeyColor.EnableColor()
+	formatter.StringColor.EnableColor()
+	formatter.BoolColor.EnableColor()
+	formatter.NumberColor.EnableColor()
+	formatter.NullColor.EnableColor()
 	formatted, err := formatter.Marshal(unformatted)
 	if err != nil {
 		return err
-- 
2.43.0


From 8dba9a4ba649107fd462c686b038eaa9ea96cff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:05 +0000
Subject: [PATCH 36/40] fix: don't allocate memory for task sets' concurrency
 limits that can't be reached

---
 internal/taskset/base/base.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/taskset/base/base.go b/internal/taskset/base/base.go
index 346a272..432103d 100644
--- a/internal/taskset/base/base.go
+++ b/internal/taskset/base/base.go
@@ -39,8 +39,13 @@ func RunTasks(fn RunTask, maxConcurrency int) (chan<- types.TaskBatch, <-chan ty
 	if maxConcurrency < 1 {
 		maxConcurrency = 1
 	}
-	queue := make(chan types.TaskBatch, maxConcurrency)
-	results := make(chan types.TaskResults, maxConcurrency)
+	// a limit can be much higher than the number of tasks there will ever be
+	capacity := maxConcurrency
+	if capacity > 1024 {
+		capacity = 1024
+	}
+	queue := make(chan types.TaskBatch, capacity)
+	results := make(chan types.TaskResults, capacity)
 
 	go func(queue <-chan types.TaskBatch, results chan<- types.TaskResults) {
 		relay := make(chan types.TaskResults)
-- 
2.43.0


From 46bfcbc0310533f7beec054c01f9582072a2baf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:23 +0000
Subject: [PATCH 37/40] fix: don't begin the definition of a table without
 columns with a comma

---
 internal/ddl/table.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/ddl/table.go b/internal/ddl/table.go
index 3c0aef3..3333322 100644
--- a/internal/ddl/table.go
+++ b/internal/ddl/table.go
@@ -48,8 +48,13 @@ func (t *Table) ToSQL() (string, error) {
 		}
 		sb.WriteString("\n")
 	}
-	for _, check := range t.Checks {
-		sb.WriteString(", CHECK(")
+	for i, check := range t.Checks {
+		if i > 0 || len(t.Columns) > 0 {
+			sb.WriteString(", ")
+		} else {
+			sb.WriteString("  ")
+		}
+		sb.WriteString("CHECK(")
 		sb.WriteString(check.Expression)
 		sb.WriteString(")\n")
 	}
-- 
2.43.0


From c3995bd3edebc2ec715172253de944f2bbcb7d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:46 +0000
Subject: [PATCH 38/40] fix: mark errors beyond the millionth column of a line

---
 internal/ddl/parser_utils.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/ddl/parser_utils.go b/internal/ddl/parser_utils.go
index 9669b07..be2792a 100644
--- a/internal/ddl/parser_utils.go
+++ b/internal/ddl/parser_utils.go
@@ -1,7 +1,6 @@
 package ddl
 
 import (
-	"fmt"
 	"regexp"
 	"strings"
 )
@@ -55,5 +54,5 @@ OUTER:
 		}
 	}
 
-	return fmt.Sprintf("%s\n%*s", data, cs+1, "^")
+	return data + "\n" + strings.Repeat(" ", cs) + "^"
 }
-- 
2.43.0


From f38fa4bcefd3b8463582f9de95247204216cd8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 39/40] fix: split the search path into the names of schemas

---
 internal/pg/parameters.go | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/internal/pg/parameters.go b/internal/pg/parameters.go
index 054e910..f59c918 100644
--- a/internal/pg/parameters.go
+++ b/internal/pg/parameters.go
@@ -19,7 +19,7 @@ func (c *Conn) ListParameters() (*ddl.Parameters, error) {
 	if err != nil {
 		return nil, err
 	}
-	params.SearchPath = strings.Split(tmp, ",")
+	params.SearchPath = splitIdentifiers(tmp)
 
 	c.log.Debugw("SHOW timezone")
 	row = c.conn.QueryRow("SHOW timezone")
@@ -30,3 +30,33 @@ func (c *Conn) ListParameters() (*ddl.Parameters, error) {
 
 	return params, nil
 }
+
+// splitIdentifiers splits a comma separated list of identifiers, and removes
+// the quotes around identifiers that need them.
+func splitIdentifiers(list string) []string {
+	identifiers := []string{}
+	var sb strings.Builder
+	quoted, seen := false, false // inside of quotes; had quotes
+	for _, r := range list {
+		switch {
+		case r == '"':
+			if !quoted && seen {
+				// two quotes inside of quotes are one quote
+				sb.WriteRune(r)
+			}
+			quoted, seen = !quoted, true
+		case quoted:
+			sb.WriteRune(r)
+		case r == ',':
+			identifiers = append(identifiers, sb.String())
+			sb.Reset()
+			seen = false
+		case r != ' ' && r != '\t' && r != '\r' && r != '\n' && r != '\f':
+			sb.WriteRune(r)
+		}
+	}
+	if seen || sb.Len() > 0 || len(identifiers) > 0 {
+		identifiers = append(identifiers, sb.String())
+	}
+	return identifiers
+}
-- 
2.43.0


From 13cfa7e0e43ee891fd7c47002a65c6b0b8b165e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:48 +0000
Subject: [PATCH 40/40] fix: reject storage parameters that aren't numbers

---
 internal/ddl/table_storage_parameters.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/ddl/table_storage_parameters.go b/internal/ddl/table_storage_parameters.go
index 4ef5e67..d4dab91 100644
--- a/internal/ddl/table_storage_parameters.go
+++ b/internal/ddl/table_storage_parameters.go
@@ -2,6 +2,7 @@ package ddl
 
 import (
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 )
@@ -46,7 +47,7 @@ func (p *TableStorageParameters) Set(key, value string) error {
 		p.AutovacuumVacuumThreshold = &tmp
 		return err
 	case "autovacuum_vacuum_scale_factor":
-		tmp, err := strconv.ParseFloat(value, 64)
+		tmp, err := parseFloat(value)
 		p.AutovacuumVacuumScaleFactor = &tmp
 		return err
 	case "autovacuum_analyze_threshold":
@@ -54,7 +55,7 @@ func (p *TableStorageParameters) Set(key, value string) error {
 		p.AutovacuumAnalyzeThreshold = &tmp
 		return err
 	case "autovacuum_analyze_scale_factor":
-		tmp, err := strconv.ParseFloat(value, 64)
+		tmp, err := parseFloat(value)
 		p.AutovacuumAnalyzeScaleFactor = &tmp
 		return err
 	case "autovacuum_vacuum_cost_limit":
@@ -110,3 +111,12 @@ func parseBool(s string) (bool, error) {
 	}
 	return false, fmt.Errorf("invalid boolean value: %q", s)
 }
+
+// parseFloat accepts the same numbers PostgreSQL does
+func parseFloat(s string) (float64, error) {
+	n, err := strconv.ParseFloat(s, 64)
+	if err == nil && (math.IsNaN(n) || math.IsInf(n, 0) || strings.Contains(s, "_")) {
+		err = fmt.Errorf("invalid floating point value: %q", s)
+	}
+	return n, err
+}
-- 
2.43.0

