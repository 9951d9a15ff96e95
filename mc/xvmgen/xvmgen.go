// Package xvmgen is the concurrent machine of /repo/x/vm on the controlled
// runtime. Its files are generated from the working tree at check time (see
// ../gen); this file is the placeholder other checks are built with.
package xvmgen

import (
	"gorgonia.org/gorgonia"

	context "verif/mc/vs/vcontext"
)

// M is the concurrent machine.
type M interface {
	Run(ctx context.Context) error
	GetResult(id int64) gorgonia.Value
	Close()
}

// New makes a machine that runs on the controlled runtime.
func New(g *gorgonia.ExprGraph) M { panic("built without the concurrent machine") }

// Ev is a trace event.
type Ev struct {
	ID    int64
	State string
	End   bool
}

// Logs tells whether the states nodes go through are announced to Enter.
var Logs bool

// Enter is told about every state a node goes through.
var Enter func(id int64, state string)

// Tracing turns on tracing. With sink, events go to it at once; without, the
// returned function receives one event.
func Tracing(ctx context.Context, sink func(Ev)) (context.Context, func() (Ev, bool)) {
	panic("no machine")
}

// StopTracing ends tracing.
func StopTracing(ctx context.Context) { panic("no machine") }
