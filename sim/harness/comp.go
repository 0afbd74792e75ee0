package main

import (
	"strings"

	"gotor/simreset"

	"vsim/rt"
)

// Component scenarios drive the exported API of one part of the client directly,
// from several tasks of one simulated process. They reach states that the client
// itself does not (yet) drive a component into.

const compLimit = 3000 * sec

// comp runs body as the main task of the client's process; it returns when done()
// holds, the process died, or limit has passed (false unless done() holds).
func (w *World) comp(limit int64, body func(), done func() bool) bool {
	r := w.r
	w.host.Crashed, w.host.Exited = false, false
	w.attempts++
	w.host.Start("component", []string{"gotor"}, func() {
		simreset.All()
		body()
		rt.BlockForever()
	})
	return r.until(limit, 5*ms, func() bool { return done() || w.dead() || w.sim.Overrun }) && done()
}

// compDead reports a component process that died.
func (w *World) compDead(props string) bool {
	r := w.r
	if !w.dead() || w.killed() || r.bad() {
		return w.dead()
	}
	if w.host.Crashed {
		r.Fail(props, "process crashed: %s", w.host.CrashMsg)
		r.Notes = append(r.Notes, w.host.CrashStk)
	} else {
		r.Fail(props, "process exited (%d): %s", w.host.ExitCode, w.host.ExitMsg)
	}
	return true
}

// compHung reports tasks that did not end.
func (w *World) compHung(props, what string) {
	if w.sim.Overrun {
		return
	}
	w.r.Fail(props, "%s: %s", what, strings.Join(w.host.Goroutines(), "; "))
}
