package hraft

import (
	"github.com/kgantsov/doq/pkg/zzverif/sym"
	"github.com/kgantsov/doq/pkg/zzverif/symenv"
	"github.com/kgantsov/doq/pkg/zzverif/symraft"
)

// once is the state of a node that applied the whole log exactly once.
func once(h *history) *state {
	symraft.FromSnap, symraft.Replay = false, 0
	r := start("ref", symenv.NewDB())
	return dump(r.QueueManager, h.names, h.ids)
}

// prefix is a queue of any type with two messages of any (or one of two) priorities.
func prefix(few bool) *history {
	n := start("n1", symenv.NewDB())
	h := &history{n: n, names: []string{"q"}, few: few}
	h.create("C18")
	h.enqueue("q")
	h.enqueue("q")
	return h
}

// A node restarts from its own storage, at any point of a history of two
// enqueues, a dequeue and two (thorough: three) commands of any kind with any
// priorities, and replays its whole log: it ends as a node that applied every
// command once. (No message times out during the history.)
func C18_restart() {
	h := prefix(!sym.Deep())
	h.n.Dequeue("q", sym.Choose("auto ack", 2) == 1)
	steps := 2
	if sym.Deep() {
		steps = 3
	}
	at := sym.Choose("restart after", steps+1)
	for i := 0; i < steps; i++ {
		if i == at {
			h.restart()
		}
		h.step()
	}
	if at == steps {
		h.restart()
	}
	got := dump(h.n.QueueManager, h.names, h.ids)
	sym.Assert(got.same(once(h)), "C18: a restarted node does not reach the committed state")
	sym.Reach("restarted")
}

// restart brings the node up again on what it stored.
func (h *history) restart() {
	symraft.Replay = 0
	h.n = start("n1", symenv.Reopen(h.n.db))
	h.n.m.IsLeader = true
}

// The same when the node crashes at any commit of a command (before or after
// it takes effect) and when the queue is deleted and created again before.
func C18_crash() {
	sym.ModelOnly()
	h := prefix(!sym.Deep())
	if sym.Choose("recreate", 2) == 1 {
		h.n.DeleteQueue("q")
		h.n.CreateQueue(anyType(), "q")
		h.enqueue("q")
	}
	if sym.Choose("in flight", 2) == 1 {
		h.n.Dequeue("q", false)
	}
	symenv.CrashBudget = 1
	cr := symenv.Crashed(func() { h.step() })
	symenv.CrashBudget = 0
	if !cr {
		sym.Stop()
	}
	sym.Reach("crashed")
	// an enqueue that crashed has an id nobody was told
	h.restart()
	got := dump(h.n.QueueManager, h.names, h.ids)
	sym.Assert(got.same(once(h)), "C18: a node that crashed does not reach the committed state")
}

// A node that joins with an empty store and applies the whole log ends as one
// that was there all the time.
func C18_newcomer() {
	h := prefix(!sym.Deep())
	h.n.Dequeue("q", sym.Choose("auto ack", 2) == 1)
	h.step()
	h.names = []string{"q", "r"}
	h.step()
	want := dump(h.n.QueueManager, h.names, h.ids)
	symraft.Replay = 0
	n2 := start("node-b", symenv.NewDB())
	got := dump(n2.QueueManager, h.names, h.ids)
	sym.Assert(got.same(want), "C18: a node that applies the whole log later does not reach the committed state")
	sym.Reach("joined")
}

// A command that precedes the creation of its queue has no effect, also when
// a node restarts with the queue in its storage and replays the log.
func C18_early() {
	n := start("n1", symenv.NewDB())
	h := &history{n: n, names: []string{"q"}, few: true}
	_, err := n.Enqueue("q", "a", h.prio("prio"), "early")
	sym.Assert(err != nil, "C18: a message is accepted for a queue that does not exist")
	sym.Assert(n.CreateQueue(anyType(), "q") == nil, "C18: creating a queue fails")
	h.step()
	h.restart()
	got := dump(h.n.QueueManager, h.names, h.ids)
	want := once(h)
	// known: the replayed enqueue finds the queue in the storage
	more := got.info[0] != nil && want.info[0] != nil && got.info[0].Total > want.info[0].Total
	sym.AssertKF(got.same(want), "C18: a command from before the creation of its queue takes effect after a restart", "C18-early", more)
	sym.Reach("restarted")
}

// With a snapshot after any of the commands: a node that restarts from it, or
// joins from it with an empty store, and applies the remaining commands, ends
// as a node that applied every command once.
func C18_snapshot() {
	h := prefix(true)
	cut := sym.Choose("snapshot after", 3)
	for i := 0; i < 2; i++ {
		if i == cut {
			h.n.m.TakeSnapshot()
		}
		h.step()
	}
	if cut == 2 {
		h.n.m.TakeSnapshot()
	}
	k := 0
	if symraft.Snap != nil {
		k = symraft.Snap.Index
		sym.Reach("snapshot")
	}
	joins := sym.Choose("new node", 2) == 1
	db, same := symenv.NewDB(), symenv.NewDB()
	if !joins {
		same = symenv.Clone(h.n.db)
		db = symenv.Reopen(h.n.db)
	}
	symraft.FromSnap = true
	got := dump(start("node-b", db).QueueManager, h.names, h.ids)
	// known: the snapshot holds nothing, so only the remaining commands are
	// applied, to nothing or to a storage that has seen them already
	symraft.FromSnap, symraft.Replay = false, k
	known := dump(start("n3", same).QueueManager, h.names, h.ids)
	want := once(h)
	sym.AssertKF(got.same(want), "C18: a node brought up from a snapshot and the remaining log does not reach the committed state", "C18-snapshot", got.same(known))
	sym.Reach("brought up")
}
