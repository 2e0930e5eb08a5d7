//go:build go1.22

// Package demo replaces internal/runbook/demo while the runner is monitored: its
// targets do nothing but report what they're asked to do.
package demo

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"syscall"
	"time"

	"go.uber.org/zap"

	"github.com/sjansen/pgutil/internal/runbook/scheduler"
	"github.com/sjansen/pgutil/internal/runbook/types"
)

// Event kinds: "start", "started", "startfail", "begin", "end", "fail", "stop"
var Event = func(kind, target, task string, obj interface{}) {}

// Hold, if not nil, is called instead of sleeping while a task is executed
var Hold func(target, task string)

var Analyzed func(target string)

type TargetFactory struct {
	Log    *zap.SugaredLogger
	Stdout io.Writer
}

type Target struct {
	ID          string
	Concurrency int
	FailStart   bool
	StartMs     int
	StopMs      int
	FailStop    bool
	Cause       string
	Bare        bool
	BadConfig   bool

	unsynchronized int
}

type Task struct {
	ID        string
	Ms        int
	Fail      bool
	BadConfig bool
	Cause     string
	Bare      bool // the error is nothing but its cause

	unsynchronized int
	class          string
}

type TaskError struct {
	ID    string
	Cause error
}

func (e *TaskError) Error() string { return fmt.Sprintf("task %q failed", e.ID) }
func (e *TaskError) Unwrap() error { return e.Cause }

type StartError struct {
	ID    string
	Cause error
}

func (e *StartError) Error() string { return fmt.Sprintf("target %q failed to start", e.ID) }
func (e *StartError) Unwrap() error { return e.Cause }

type silent struct{}

func (silent) Error() string { return "" }

// Causes are errors which some code treats in a special way
var Causes = map[string]error{
	"eof": io.EOF, "closed pipe": io.ErrClosedPipe, "canceled": context.Canceled, "deadline": context.DeadlineExceeded,
	"no file": os.ErrNotExist, "closed": os.ErrClosed, "pipe": syscall.EPIPE, "again": syscall.EAGAIN,
	"no tasks": scheduler.ErrNoPendingTasks, "no program": exec.ErrNotFound, "path": &os.PathError{Op: "open", Path: "x", Err: os.ErrNotExist},
	"exit": &exec.ExitError{ProcessState: &os.ProcessState{}}, "silent": silent{},
}

// Matches tells whether err is the one a failing task or target returned
func Matches(err error, id, cause string, bare bool) bool {
	if bare {
		return errors.Is(err, Causes[cause])
	}
	var te *TaskError
	var se *StartError
	return errors.As(err, &te) && te.ID == id || errors.As(err, &se) && se.ID == id
}

func (f *TargetFactory) NewTarget() types.Target { return &Target{Concurrency: 1} }

func (t *Target) Analyze() error {
	if t.BadConfig {
		return errors.New("bad target config")
	}
	return nil
}

func (t *Target) ConcurrencyLimit() int { return t.Concurrency }

func (t *Target) NewTaskConfig(class string) (types.TaskConfig, error) {
	return &Task{class: class}, nil
}

func (t *Target) Start() error {
	t.unsynchronized++
	Event("start", t.ID, "", t)
	if t.StartMs > 0 {
		time.Sleep(time.Duration(t.StartMs) * time.Millisecond)
	}
	if t.FailStart {
		Event("startfail", t.ID, "", t)
		if t.Bare {
			return Causes[t.Cause]
		}
		return &StartError{t.ID, Causes[t.Cause]}
	}
	Event("started", t.ID, "", t)
	return nil
}

func (t *Target) Stop() error {
	t.unsynchronized++
	Event("stop", t.ID, "", t)
	if t.StopMs > 0 {
		time.Sleep(time.Duration(t.StopMs) * time.Millisecond)
	}
	Event("stopped", t.ID, "", t)
	if t.FailStop {
		return errors.New("failed to stop")
	}
	return nil
}

func (t *Target) Handle(ctx context.Context, x types.TaskConfig) error {
	task, ok := x.(*Task)
	if !ok {
		return errors.New("not a task")
	}
	if t.Concurrency == 1 {
		t.unsynchronized++
	}
	task.unsynchronized++
	Event("begin", t.ID, task.ID, task)
	if Hold != nil {
		Hold(t.ID, task.ID)
	} else if task.Ms > 0 {
		time.Sleep(time.Duration(task.Ms) * time.Millisecond)
	}
	task.unsynchronized++
	if t.Concurrency == 1 {
		t.unsynchronized++
	}
	if task.Fail {
		Event("fail", t.ID, task.ID, task)
		if task.Bare {
			return Causes[task.Cause]
		}
		return &TaskError{task.ID, Causes[task.Cause]}
	}
	Event("end", t.ID, task.ID, task)
	return nil
}

func (t *Task) Check() error {
	if t.BadConfig {
		return errors.New("bad task config")
	}
	return nil
}
