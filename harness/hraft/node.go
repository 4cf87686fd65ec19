// Package hraft checks the replicated state machine and the Raft node.
package hraft

import (
	"strings"

	"github.com/dgraph-io/badger/v4"
	hraft "github.com/hashicorp/raft"
	"github.com/kgantsov/doq/pkg/config"
	"github.com/kgantsov/doq/pkg/queue"
	doqraft "github.com/kgantsov/doq/pkg/raft"
	"github.com/kgantsov/doq/pkg/zzverif/sym"
	"github.com/kgantsov/doq/pkg/zzverif/symenv"
	"github.com/kgantsov/doq/pkg/zzverif/symraft"
)

type node struct {
	*doqraft.Node
	db  *badger.DB
	cfg *config.Config
	m   *symraft.Member
}

// ackTimeout is the acknowledgement timeout of the nodes.
var ackTimeout int64 = 600

func conf(id string) *config.Config {
	c := &config.Config{}
	c.Cluster.NodeID = id
	c.Raft.Address = id + ":9000"
	c.Http.Port = "8000"
	c.Queue.AcknowledgementTimeout = ackTimeout
	c.Queue.AcknowledgementCheckInterval = 5
	c.Queue.QueueStats.WindowSide = 3
	return c
}

// start brings up a node on a store.
func start(id string, db *badger.DB) *node {
	n := &node{db: db, cfg: conf(id)}
	n.Node = doqraft.NewNode(db, "raftdir", n.cfg, nil)
	n.Initialize()
	n.m = symraft.Of(n.Raft)
	sym.Assert(string(n.m.ID) == id, "the node runs under another id")
	sym.RunBackground()
	return n
}

// msg is what a client sees of a message.
type msg struct {
	id      uint64
	group   string
	prio    int64
	content string
}

func same(a, b *queue.Message) bool {
	return sym.And(a.ID == b.ID, sym.And(a.Priority == b.Priority, sym.And(sym.StrEq(a.Group, b.Group), sym.StrEq(a.Content, b.Content))))
}

// text is one of several kinds of valid UTF-8 text of up to three bytes, or a
// long one.
func text(label string) string {
	n := 5
	if sym.Deep() {
		n = 7
	}
	switch sym.Choose(label+" kind", n) {
	case 0:
		return sym.StrR(label, 1, 0, 127)
	case 1:
		return "\u2028<"
	case 2:
		return "é"
	case 3:
		return ""
	case 4:
		return sym.Long(longText)
	case 5:
		return sym.StrR(label, 2, 0, 127)
	}
	return "\U0001d11e\"\\"
}

// longText is the length of a long text.
const longText = 70001

func anyType() string { return []string{"delayed", "fair"}[sym.Choose("type", 2)] }

// answers compares the outcome of a node operation with the direct one.
func answers(p string, err, ref error) {
	sym.Assert((err == nil) == (ref == nil), p+": a failed command is answered as success, or a successful one as failure")
}

// A node's operations, carried through Raft and applied, do exactly what the
// same operations do on a queue manager of its own: a history of creating a
// queue of any type, an enqueue, a dequeue (with an acknowledgement timeout of 0 or more), and two operations of any kind on it or on a
// queue that does not exist, with any ids, priorities and two groups; the
// answers agree and so does everything delivered afterwards.
func C16_history() {
	ackTimeout = []int64{600, 0}[sym.Choose("timeout", 2)]
	n := start("n1", symenv.NewDB())
	ref := queue.NewQueueManager(symenv.NewDB(), conf("ref"), nil)
	typ := anyType()
	err := n.CreateQueue(typ, "q")
	_, rerr := ref.Create(typ, "q")
	answers("C16", err, rerr)
	h := &hist{n: n, ref: ref, name: "q"}
	h.enqueueTo("q", "a", "1", sym.I64("prio"))
	h.dequeue("q")
	steps := 2
	if sym.Deep() {
		steps = 3
	}
	for i := 0; i < steps; i++ {
		h.op()
	}
	h.finish()
}

// The text of a command reaches the queue unchanged: queue names, groups and
// contents of several kinds of text (any ASCII of up to 2 bytes, characters
// that JSON escapes, two- to four-byte characters, empty), any priority.
func C16_text() {
	n := start("n1", symenv.NewDB())
	ref := queue.NewQueueManager(symenv.NewDB(), conf("ref"), nil)
	name := "q"
	g, c := "default", "c"
	switch sym.Choose("what varies", 3) {
	case 0:
		name = text("name")
		sym.Assume(name != "")
	case 1:
		g = text("group")
	case 2:
		c = text("content")
	}
	typ := anyType()
	err := n.CreateQueue(typ, name)
	_, rerr := ref.Create(typ, name)
	answers("C16", err, rerr)
	h := &hist{n: n, ref: ref, name: name}
	h.enqueueTo(name, g, c, sym.I64("prio"))
	h.finish()
}

type hist struct {
	n    *node
	ref  *queue.QueueManager
	name string
	ids  []uint64
}

func (h *hist) target() string {
	if sym.Choose("which queue", 2) == 1 {
		return h.name + "x"
	}
	return h.name
}

func (h *hist) enqueueTo(name, g, c string, p int64) {
	before := symraft.Applies
	m, err := h.n.Enqueue(name, g, p, c)
	sym.Assert(symraft.Applies == before+1, "C16: an operation is not exactly one command")
	q, rerr := h.ref.GetQueue(name)
	if rerr == nil {
		id := uint64(0)
		if m != nil {
			id = m.ID
		}
		var rm *queue.Message
		rm, rerr = q.Enqueue(id, g, p, c)
		if err == nil && rerr == nil {
			sym.Assert(m.ID == rm.ID && m.Priority == rm.Priority && sym.StrEq(m.Content, rm.Content), "C16: the answer to an enqueue is not its result")
			for _, o := range h.ids {
				sym.Assert(o != m.ID, "C16: an id was handed out twice")
			}
			h.ids = append(h.ids, m.ID)
			sym.Reach("enqueued")
		}
	}
	answers("C16", err, rerr)
}

func (h *hist) dequeue(name string) {
	ack := sym.Choose("auto ack", 2) == 1
	before := symraft.Applies
	m, err := h.n.Dequeue(name, ack)
	sym.Assert(symraft.Applies == before+1, "C16: an operation is not exactly one command")
	q, rerr := h.ref.GetQueue(name)
	var rm *queue.Message
	if rerr == nil {
		rm, rerr = q.Dequeue(ack)
	}
	answers("C16", err, rerr)
	if err == nil {
		sym.Assert(same(m, rm), "C16: the answer to a dequeue is not its result")
		sym.Reach("dequeued")
	}
}

func (h *hist) id() uint64 {
	if len(h.ids) > 0 && sym.Choose("which id", 2) == 0 {
		return h.ids[0]
	}
	x := sym.U64("id")
	for _, o := range h.ids {
		sym.Assume(x != o)
	}
	return x
}

func (h *hist) op() {
	name := h.target()
	q, rerr := h.ref.GetQueue(name)
	before := symraft.Applies
	switch sym.Choose("op", 7) {
	case 0:
		h.enqueueTo(name, []string{"a", "b"}[sym.Choose("group", 2)], "2", sym.I64("prio"))
		return
	case 1:
		h.dequeue(name)
		return
	case 2:
		id := h.id()
		err := h.n.Ack(name, id)
		if rerr == nil {
			rerr = q.Ack(id)
		}
		answers("C16", err, rerr)
		if err == nil {
			sym.Reach("acked")
		}
	case 3:
		id := h.id()
		err := h.n.Nack(name, id)
		if rerr == nil {
			rerr = q.Nack(id)
		}
		answers("C16", err, rerr)
		if err == nil {
			sym.Reach("nacked")
		}
	case 4:
		id, p := h.id(), sym.I64("new prio")
		err := h.n.UpdatePriority(name, id, p)
		if rerr == nil {
			rerr = q.UpdatePriority(id, p)
		}
		answers("C16", err, rerr)
		if err == nil {
			sym.Reach("updated")
		}
	case 5:
		t := anyType()
		err := h.n.CreateQueue(t, name)
		_, rerr = h.ref.Create(t, name)
		answers("C16", err, rerr)
	case 6:
		err := h.n.DeleteQueue(name)
		rerr = h.ref.Delete(name)
		answers("C16", err, rerr)
		if err == nil && name == h.name {
			h.ids = nil
			sym.Reach("deleted")
		}
	}
	sym.Assert(symraft.Applies == before+1, "C16: an operation is not exactly one command")
}

// finish compares the two sides: listing, counters and everything delivered.
func (h *hist) finish() {
	a, b := h.n.GetQueues(), h.ref.GetQueues()
	sym.Assert(len(a) == len(b), "C16: other queues exist than the commands created")
	for i := range a {
		sym.Assert(a[i].Name == b[i].Name && a[i].Type == b[i].Type && a[i].Ready == b[i].Ready && a[i].Unacked == b[i].Unacked, "C16: a queue is not in the state the commands lead to")
	}
	for _, name := range []string{h.name, h.name + "x"} {
		i, err := h.n.GetQueueInfo(name)
		q, rerr := h.ref.GetQueue(name)
		answers("C16", err, rerr)
		if err != nil {
			continue
		}
		sym.Assert(i.Name == name && i.Total == q.GetStats().Total, "C16: the queue info is about another queue")
		for k := 0; k < 4; k++ {
			m, err := h.n.Dequeue(name, true)
			rm, rerr := q.Dequeue(true)
			answers("C16", err, rerr)
			if err != nil {
				break
			}
			sym.Assert(same(m, rm), "C16: another message is delivered than the commands lead to")
			sym.Reach("drained one")
		}
	}
	sym.Reach("finished")
}

// A replication that fails, whether or not the command is committed after
// all, and a command issued on a node that is not the leader, are answered
// with an error, for every operation.
func C16_failure() {
	n := start("n1", symenv.NewDB())
	sym.Assert(n.CreateQueue("delayed", "q") == nil, "C16: creating a queue fails")
	m, err := n.Enqueue("q", "g", 1, "c")
	sym.Assert(err == nil, "C16: enqueue fails")
	if sym.Choose("in flight", 2) == 1 {
		_, err := n.Dequeue("q", false)
		sym.Assert(err == nil, "C16: dequeue fails")
	}
	if sym.Choose("follower", 2) == 1 {
		n.m.IsLeader = false
	} else {
		symraft.Budget, symraft.FaultApply = 1, true
	}
	var x *queue.Message
	switch sym.Choose("op", 7) {
	case 0:
		x, err = n.Enqueue("q", "g", sym.I64("prio"), "c2")
	case 1:
		x, err = n.Dequeue("q", sym.Choose("auto ack", 2) == 1)
	case 2:
		err = n.Ack("q", m.ID)
	case 3:
		err = n.Nack("q", m.ID)
	case 4:
		err = n.UpdatePriority("q", m.ID, sym.I64("new prio"))
	case 5:
		err = n.CreateQueue(anyType(), []string{"q", "r"}[sym.Choose("name", 2)])
	case 6:
		err = n.DeleteQueue("q")
	}
	if symraft.Faults > 0 || !n.m.IsLeader {
		sym.Assert(err != nil, "C16: an operation whose replication failed is answered as success")
		sym.Assert(x == nil, "C16: an operation whose replication failed is answered with a message")
		sym.Reach("failed")
	}
}

// Two concurrent operations on one node are each answered with their own
// result (at most 2 unforced switches between them).
func C16_two() {
	n := start("n1", symenv.NewDB())
	sym.Assert(n.CreateQueue("delayed", "q") == nil, "C16: creating a queue fails")
	var a, b *queue.Message
	var ea, eb error
	sym.RunBackground()
	sym.Concurrent(2)
	d := make(chan int, 2)
	go func() { a, ea = n.Enqueue("q", "default", 5, "aa"); d <- 1 }()
	go func() { b, eb = n.Enqueue("q", "default", 3, "bb"); d <- 1 }()
	<-d
	<-d
	sym.Sequential()
	sym.Assert(ea == nil && eb == nil, "C16: concurrent enqueues fail")
	sym.Assert(a.Content == "aa" && a.Priority == 5 && b.Content == "bb" && b.Priority == 3 && a.ID != b.ID, "C16: concurrent commands get each other's answers")
	m, err := n.Dequeue("q", true)
	sym.Assert(err == nil && m.ID == b.ID && m.Content == "bb", "C16: a concurrent command was not applied as given")
	m, err = n.Dequeue("q", true)
	sym.Assert(err == nil && m.ID == a.ID && m.Content == "aa", "C16: a concurrent command was not applied as given")
	sym.Reach("both")
}

// The leader's host name is what the node reports: any host of letters and
// digits of up to 3 bytes with a port.
func C16_leader() {
	n := start("n1", symenv.NewDB())
	h := sym.StrR("host", 2, 'a', 'z')
	symraft.LeaderAddr, symraft.LeaderID = "", ""
	n.m.Lead(false)
	symenv.FireTimers(1e9)
	n.m.Addr = ""
	symraft.LeaderAddr = hraft.ServerAddress("x" + h + ":12000")
	symenv.FireTimers(1e9)
	got := n.Leader()
	sym.Assert(got == "x"+h, "C16: the node reports another leader")
	sym.Assert(!strings.Contains(got, ":"), "C16: the leader is reported with its port")
	sym.Reach("leader")
}

// known follows the leadership as Raft reports it: after every change, and
// whether or not the node's own monitor has run since, the node says whether
// it leads and who does.
func known(p string) {
	n := start("n1", symenv.NewDB())
	h := sym.StrR("host", 2, 'a', 'z')
	changes := 3
	if sym.Deep() {
		changes = 4
	}
	for i := 0; i < changes; i++ {
		host, self := "", false
		n.m.Lead(false)
		switch sym.Choose("leader", 5) {
		case 0:
			symraft.LeaderAddr, symraft.LeaderID = "", ""
		case 1:
			host, self = "n1", true
			n.m.Lead(true)
		case 2:
			host = "x" + h
		case 3:
			host = "doq-1.doq-internal.default.svc.cluster.local."
		case 4:
			host = "10.0.0.7"
		}
		if host != "" && !self {
			symraft.LeaderAddr = hraft.ServerAddress(host + ":12000")
			symraft.LeaderID = hraft.ServerID(host)
		}
		if sym.Choose("monitor", 2) == 1 {
			symenv.FireTimers(1e9)
		}
		sym.Assert(n.IsLeader() == self, p+": a node is wrong about whether it leads")
		got := n.Leader()
		sym.Observe("leader", got)
		sym.Assert(got == host, p+": a node sends requests to another host than the current leader's")
		sym.Reach("known")
	}
}

// Where a request goes follows every change of the leader at once: 3 (thorough
// 4) changes between no leader, this node and three kinds of other host, the
// node's own monitor running in between or not.
func C24_known() { known("C24") }

// Where a call goes follows every change of the leader at once: 3 (thorough
// 4) changes between no leader, this node and three kinds of other host, the
// node's own monitor running in between or not.
func C25_known() { known("C25") }
