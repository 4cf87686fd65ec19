package hraft

import (
	"github.com/kgantsov/doq/pkg/queue"
	doqraft "github.com/kgantsov/doq/pkg/raft"
	"github.com/kgantsov/doq/pkg/zzverif/sym"
	"github.com/kgantsov/doq/pkg/zzverif/symenv"
	"github.com/kgantsov/doq/pkg/zzverif/symraft"
)

// sameAnswer compares two answers of the state machine.
func sameAnswer(a, b interface{}) bool {
	x, ok := a.(*doqraft.FSMResponse)
	y, ok2 := b.(*doqraft.FSMResponse)
	if !ok || !ok2 {
		return ok == ok2
	}
	if (sym.ErrIn(x) == nil) != (sym.ErrIn(y) == nil) {
		return false
	}
	return sym.And(sym.StrEq(x.QueueName, y.QueueName), sym.And(sym.And(x.ID == y.ID, x.Priority == y.Priority),
		sym.And(sym.StrEq(x.Group, y.Group), sym.StrEq(x.Content, y.Content))))
}

// log is a history of commands issued on one node.
type history struct {
	n     *node
	ids   []uint64
	names []string
	few   bool
	typ   string
}

// create makes a queue of any type.
func (h *history) create(p string) {
	h.typ = anyType()
	sym.Assert(h.n.CreateQueue(h.typ, "q") == nil, p+": creating a queue fails")
}

func (h *history) name() string { return h.names[sym.Choose("queue", len(h.names))] }

func (h *history) anID() uint64 {
	if len(h.ids) == 0 {
		return 12345
	}
	return h.ids[sym.Choose("id", len(h.ids))]
}

// prio is any priority, or any that makes no message wait.
func (h *history) prio(l string) int64 {
	if h.few {
		return sym.I64R(l, 0, 1000)
	}
	return sym.I64(l)
}

func (h *history) enqueue(name string) {
	g := "a"
	if h.typ != "delayed" {
		g = []string{"a", "b"}[sym.Choose("group", 2)]
	}
	m, err := h.n.Enqueue(name, g, h.prio("prio"), "c")
	if err == nil {
		h.ids = append(h.ids, m.ID)
		sym.Reach("enqueued")
	}
}

// step issues one command of any kind.
func (h *history) step() {
	switch sym.Choose("op", 7) {
	case 0:
		h.enqueue(h.name())
	case 1:
		_, err := h.n.Dequeue(h.name(), sym.Choose("auto ack", 2) == 1)
		if err == nil {
			sym.Reach("dequeued")
		}
	case 2:
		if h.n.Ack(h.name(), h.anID()) == nil {
			sym.Reach("acked")
		}
	case 3:
		if h.n.Nack(h.name(), h.anID()) == nil {
			sym.Reach("nacked")
		}
	case 4:
		if h.n.UpdatePriority(h.name(), h.anID(), h.prio("new prio")) == nil {
			sym.Reach("updated")
		}
	case 5:
		h.n.CreateQueue(anyType(), h.name())
	case 6:
		if h.n.DeleteQueue(h.name()) == nil {
			sym.Reach("deleted")
		}
	}
}

// state is everything a client can find out about the queues of a node.
type state struct {
	names []string
	info  []*queue.QueueInfo
	nack  []bool
	out   []*queue.Message
}

// dump drains a node: which of the ids are in flight, and what is delivered
// in which order.
func dump(qm *queue.QueueManager, names []string, ids []uint64) *state {
	s := &state{}
	for _, n := range names {
		q, err := qm.GetQueue(n)
		if err != nil {
			s.info = append(s.info, nil)
			continue
		}
		s.info = append(s.info, q.GetStats())
		for _, id := range ids {
			s.nack = append(s.nack, q.Nack(id) == nil)
		}
		for k := 0; k < 6; k++ {
			m, err := q.Dequeue(true)
			if err != nil {
				break
			}
			s.out = append(s.out, m)
		}
		s.out = append(s.out, nil)
	}
	return s
}

func (a *state) same(b *state) bool {
	if len(a.info) != len(b.info) || len(a.nack) != len(b.nack) || len(a.out) != len(b.out) {
		return false
	}
	for i := range a.info {
		x, y := a.info[i], b.info[i]
		if (x == nil) != (y == nil) {
			return false
		}
		if x != nil && (x.Name != y.Name || x.Type != y.Type || x.Ready != y.Ready || x.Unacked != y.Unacked || x.Total != y.Total) {
			return false
		}
	}
	for i := range a.nack {
		if a.nack[i] != b.nack[i] {
			return false
		}
	}
	for i := range a.out {
		if (a.out[i] == nil) != (b.out[i] == nil) {
			return false
		}
		if a.out[i] != nil && !same(a.out[i], b.out[i]) {
			return false
		}
	}
	return true
}

// agree checks that the two replicas gave the same answers to everything.
func agree(a, b *symraft.Member) {
	sym.Assert(len(a.Answers) == len(b.Answers), "C17: a replica skipped or repeated a command")
	for i := range a.Answers {
		sym.Assert(sameAnswer(a.Answers[i], b.Answers[i]), "C17: two replicas answer the same command differently")
	}
}

func pair() (*node, *node, *history) {
	n1 := start("n1", symenv.NewDB())
	n2 := start("node-b", symenv.NewDB())
	sym.Assert(n1.m.IsLeader && !n2.m.IsLeader, "C17: two leaders")
	h := &history{n: n1, names: []string{"q"}}
	return n1, n2, h
}

// Two replicas apply the same history: a queue of any type, two enqueues, a
// dequeue and two (thorough: three) commands of any kind with any priorities
// on an existing or a missing queue, with the follower asked for its queues in
// between: the answers and all that is delivered later are the same.
func C17_history() {
	n1, n2, h := pair()
	h.create("C17")
	h.enqueue("q")
	h.enqueue("q")
	n1.Dequeue("q", sym.Choose("auto ack", 2) == 1)
	steps := 2
	if sym.Deep() {
		steps = 3
	}
	for i := 0; i < steps; i++ {
		if i == 1 {
			h.names = []string{"q", "r"}
			n2.GetQueues()
			n2.GetQueueInfo("q")
			n2.GetQueueInfo("r")
		}
		h.step()
	}
	agree(n1.m, n2.m)
	a := dump(n1.QueueManager, h.names, h.ids)
	b := dump(n2.QueueManager, h.names, h.ids)
	sym.Assert(a.same(b), "C17: replicas of the same log hold different messages")
	sym.Reach("compared")
}

// Two replicas whose clocks agree redeliver the same messages: two messages
// of any priorities up to 1000 and any of two groups, delivered or not, the clock moved by any time
// up to 1000 s, and both run their redelivery.
func C17_redelivery() {
	n1, n2, h := pair()
	h.few = true
	h.create("C17")
	h.enqueue("q")
	h.enqueue("q")
	sym.RunBackground()
	for i := 0; i < 2; i++ {
		if sym.Choose("dequeue", 2) == 1 {
			_, err := n1.Dequeue("q", false)
			sym.Assert(err == nil, "C17: dequeue fails")
		}
		symenv.Clock += sym.I64R("time passes", 0, 1000)
		symenv.FireTickers()
		sym.RunBackground()
	}
	h.step()
	agree(n1.m, n2.m)
	a := dump(n1.QueueManager, h.names, h.ids)
	b := dump(n2.QueueManager, h.names, h.ids)
	sym.Assert(a.same(b), "C17: replicas of the same log hold different messages after redelivery")
	sym.Reach("compared")
}

// A replica that applies the history up to 2^31 s later than the other: a queue
// of any type, two enqueues, a dequeue and two (thorough: three) commands of any
// kind, every message being due all the time and none timing out: the answers
// and all that is delivered later are the same.
func C17_later() {
	n1, n2, h := pair()
	h.few = true
	symraft.Replicate = false
	h.create("C17")
	h.enqueue("q")
	h.enqueue("q")
	n1.Dequeue("q", sym.Choose("auto ack", 2) == 1)
	steps := 2
	if sym.Deep() {
		steps = 3
	}
	for i := 0; i < steps; i++ {
		h.step()
	}
	symenv.Clock += sym.I64R("later", 1, 1<<31)
	n2.m.CatchUp()
	agree(n1.m, n2.m)
	a := dump(n1.QueueManager, h.names, h.ids)
	b := dump(n2.QueueManager, h.names, h.ids)
	sym.Assert(a.same(b), "C17: a replica that applies the log later holds different messages")
	sym.Reach("compared")
}

var malformed = []string{
	"", "x", "null", "[]", "7", `"enqueue"`, "{}", `{"op":1}`, `{"op":"enqueue"}`, `{"op":"nosuch","payload":{}}`,
	`{"op":"","payload":{}}`, `{"op":"ENQUEUE","payload":{"id":9,"queue_name":"q"}}`,
	`{"op":"enqueue","payload":[]}`, `{"op":"enqueue","payload":{"id":"x","queue_name":"q"}}`,
	`{"op":"enqueue","payload":{"id":-1,"queue_name":"q"}}`, `{"op":"enqueue","payload":{"id":9,"queue_name":"q","priority":1.5}}`,
	`{"op":"enqueue","payload":{"id":9,"queue_name":7}}`, `{"op":"dequeue","payload":{"queue_name":"q","ack":"yes"}}`,
	`{"op":"dequeue","payload":"q"}`, `{"op":"ack","payload":{"queue_name":"q","id":18446744073709551616}}`,
	`{"op":"nack","payload":7}`, `{"op":"updatePriority","payload":{"queue_name":"q","id":1,"priority":"high"}}`,
	`{"op":"updatePriority","payload":{"queue_name":"q","id":1,"priority":9223372036854775808}}`,
	`{"op":"createQueue","payload":{"queue_name":[]}}`, `{"op":"deleteQueue","payload":{"queue_name":7}}`, `{"op":"deleteQueue"}`,
	`{"op":"enqueue","payload":{"id":9,"queue_name":"q"}`,
}

// A malformed or unknown command (27 kinds) is answered with an error on both
// replicas, and neither has changed afterwards.
func C17_malformed() {
	n1, n2, h := pair()
	h.few = true
	h.create("C17")
	h.enqueue("q")
	h.enqueue("q")
	if sym.Choose("dequeue", 2) == 1 {
		n1.Dequeue("q", false)
	}
	keys := []int{symenv.Keys(n1.db), symenv.Keys(n2.db)}
	i, _ := n1.GetQueueInfo("q")
	before := []int64{i.Ready, i.Unacked, i.Total}
	c := malformed[sym.Choose("command", len(malformed))]
	symraft.Commit([]byte(c))
	n1.m.CatchUp()
	n2.m.CatchUp()
	for _, m := range []*symraft.Member{n1.m, n2.m} {
		r, ok := m.Answers[len(m.Answers)-1].(*doqraft.FSMResponse)
		sym.Assert(ok && sym.ErrIn(r) != nil, "C17: a malformed command is not answered with an error")
	}
	agree(n1.m, n2.m)
	sym.Assert(symenv.Keys(n1.db) == keys[0] && symenv.Keys(n2.db) == keys[1], "C17: a malformed command changed the storage")
	for _, n := range []*node{n1, n2} {
		i, err := n.GetQueueInfo("q")
		sym.Assert(err == nil && i.Ready == before[0] && i.Unacked == before[1] && i.Total == before[2], "C17: a malformed command changed a queue")
		sym.Assert(len(n.GetQueues()) == 1, "C17: a malformed command changed the set of queues")
	}
	a := dump(n1.QueueManager, h.names, h.ids)
	b := dump(n2.QueueManager, h.names, h.ids)
	sym.Assert(a.same(b), "C17: replicas hold different messages after a malformed command")
	sym.Assert(len(a.out) == 3, "C17: a malformed command changed the messages")
	sym.Reach("compared")
}
