package hqueue

import (
	"fmt"
	"time"

	"github.com/dgraph-io/badger/v4"
	"github.com/kgantsov/doq/pkg/config"
	"github.com/kgantsov/doq/pkg/queue"
	"github.com/kgantsov/doq/pkg/zzverif/sym"
	"github.com/kgantsov/doq/pkg/zzverif/symenv"
)

const (
	waiting = iota
	inflight
	gone
)

// message is the reference state of one message.
type message struct {
	id       uint64
	group    string
	prio     int64
	content  string
	st       int
	deadline int64
	came     string // property by which it came back: C07 timeout, C08 nack
}

// world is a queue manager on a store with a reference model of one queue.
type world struct {
	props   []string // properties whose assertions are checked
	db      *badger.DB
	cfg     *config.Config
	qm      *queue.QueueManager
	q       *queue.BadgerPriorityQueue
	name    string
	typ     string
	timeout int64
	check   int64
	now     int64
	msgs    []*message
	nextID  int
	gs      []string
	served  map[string]map[string]bool // by waiting group: groups served since
}

// Ids grow, but their bytes include separators and extremes.
var idTable = []uint64{3, 0x3a3a3a3a3a3a3a3a, 0x6d00000000000001, 0x7f00ff00ff3a0000, 0x7fffffffffffff01, 0x7fffffffffffff3a, 0x7ffffffffffffffe, 0x7fffffffffffffff}

func (w *world) is(p string) bool {
	for _, x := range w.props {
		if x == p {
			return true
		}
	}
	return false
}

// assert states a property. When a property that is not being checked fails
// in a way that makes the reference model inapplicable, the path is ended.
func (w *world) assert(p string, c bool, msg string) {
	if w.is(p) {
		sym.Assert(c, p+": "+msg)
	}
}

func newWorld(typ string, props ...string) *world {
	w := &world{props: props, name: "q1", typ: typ, timeout: 600, check: 5}
	w.now = sym.I64R("now", 1, 1<<40)
	symenv.Clock = w.now
	w.db = symenv.NewDB()
	w.cfg = w.config()
	w.qm = queue.NewQueueManager(w.db, w.cfg, nil)
	w.gs = []string{"", "default"}
	return w
}

func (w *world) config() *config.Config {
	c := &config.Config{}
	c.Queue.AcknowledgementTimeout = w.timeout
	c.Queue.AcknowledgementCheckInterval = w.check
	c.Queue.QueueStats.WindowSide = 3
	return c
}

func (w *world) create() {
	q, err := w.qm.Create(w.typ, w.name)
	w.assert("C12", err == nil, "creating a queue fails")
	w.q = q
	if err != nil {
		sym.Stop()
	}
}

// restart loads the queue again from the storage.
func (w *world) restart() {
	w.db = symenv.Reopen(w.db)
	symenv.Ticks = nil
	w.qm = queue.NewQueueManager(w.db, w.cfg, nil)
	q, err := w.qm.GetQueue(w.name)
	w.assert("C10", err == nil, "the queue is not found after a restart")
	if err != nil {
		sym.Stop()
	}
	w.q = q
	w.served = nil
	for _, m := range w.msgs {
		if m.st == inflight {
			m.st = waiting
		}
	}
}

func (w *world) group() string {
	if w.typ != "fair" {
		return "default"
	}
	return w.gs[sym.Choose("group no", len(w.gs))]
}

func (w *world) enq() {
	if w.nextID == len(idTable) {
		sym.Stop()
	}
	g := w.group()
	m := &message{id: idTable[w.nextID], group: g, prio: sym.I64("prio")}
	if w.nextID != 1 {
		// one message has no content
		m.content = fmt.Sprintf("m%d-", w.nextID) + sym.Str("content", 1)
	}
	w.nextID++
	r, err := w.q.Enqueue(m.id, g, m.prio, m.content)
	w.assert("C06", err == nil, "enqueue fails")
	if err != nil {
		sym.Stop()
	}
	w.assert("C06", r != nil && r.ID == m.id && r.Priority == m.prio && r.Content == m.content, "enqueue answers with another message")
	w.msgs = append(w.msgs, m)
}

func (w *world) byID(id uint64) *message {
	for _, m := range w.msgs {
		if m.id == id {
			return m
		}
	}
	return nil
}

// deliverable: some waiting message may be delivered now.
func (w *world) deliverable() bool {
	d := false
	for _, m := range w.msgs {
		if m.st == waiting {
			if w.typ == "fair" {
				return true
			}
			d = sym.Or(d, m.prio <= w.now)
		}
	}
	return d
}

func (w *world) anyWaiting() bool {
	for _, m := range w.msgs {
		if m.st == waiting {
			return true
		}
	}
	return false
}

// deq dequeues and checks what comes out; it tells whether anything did.
func (w *world) deq(ack bool) *message {
	r, err := w.q.Dequeue(ack)
	if err != nil {
		w.assert("C02", !w.deliverable() || w.typ == "fair", "a due message is withheld")
		w.assert("C03", !w.deliverable() || w.typ != "fair", "the queue is reported empty while a group has a waiting message")
		w.assert("C06", !w.deliverable(), "a message that is ready is not deliverable")
		w.assert("C09", !w.deliverable(), "a message that is ready is not deliverable")
		w.assert("C07", !w.deliverable(), "a message that is due for redelivery is not deliverable")
		w.assert("C08", !w.deliverable(), "a message that is ready is not deliverable")
		w.assert("C10", !w.deliverable(), "a message that is ready is not deliverable")
		w.assert("C14", !w.deliverable(), "a message that is ready is not deliverable")
		w.assert("C11", !w.deliverable(), "a message that is ready is not deliverable")
		if w.deliverable() {
			sym.Stop()
		}
		sym.Reach("nothing ready")
		return nil
	}
	sym.Reach("delivered")
	w.assert("C06", r != nil, "dequeue succeeds without a message")
	if r == nil {
		sym.Stop()
	}
	sym.Observe("deliver", r.ID)
	m := w.byID(r.ID)
	for _, p := range []string{"C05", "C06", "C10", "C11", "C14"} {
		w.assert(p, m != nil, "a message was delivered that was never enqueued here")
	}
	if m == nil {
		sym.Stop()
	}
	w.assert("C05", m.st == waiting, "a message was delivered that is in flight or gone")
	w.assert("C08", m.st == waiting, "a message was delivered that is in flight or gone")
	w.assert("C10", m.st == waiting, "a message was delivered that is in flight or gone")
	w.assert("C12", m.st == waiting, "a message was delivered that is in flight or gone")
	w.assert("C14", m.st == waiting, "a message was delivered that is in flight or gone")
	w.assert("C07", m.st == waiting, "a message came back before its acknowledgement timeout, or after it was released")
	if m.st != waiting {
		sym.Stop()
	}
	same := sym.And(r.Priority == m.prio, sym.And(sym.StrEq(r.Content, m.content), r.Group == m.group))
	w.assert("C06", sym.StrEq(r.Content, m.content), "the content of a delivered message changed")
	w.assert("C06", r.Group == m.group, "the group of a delivered message changed")
	w.assert("C06", r.Priority == m.prio, "the priority of a delivered message is not its current one")
	w.assert("C09", r.Priority == m.prio, "the priority of a delivered message is not its current one")
	w.assert("C10", same, "a delivered message differs from what was stored")
	w.assert("C14", same, "a delivered message differs from what was accepted")
	if w.typ != "fair" {
		w.assert("C02", m.prio <= w.now, "a message was delivered before its time")
		w.assert("C09", m.prio <= w.now, "a message was delivered before its time")
	}
	if w.typ == "fair" {
		w.turn(m)
	}
	for _, o := range w.msgs {
		if o == m || o.st != waiting {
			continue
		}
		if w.typ == "fair" {
			if o.group == m.group {
				first := less(m.prio, m.id, o.prio, o.id)
				w.cameBack(m, o, first)
				w.assert("C04", first, "wrong order within a group")
				w.assert("C09", first, "wrong order within a group")
				w.assert("C10", first, "wrong order within a group")
				w.assert("C14", first, "wrong order within a group")
			}
		} else {
			first := sym.Or(o.prio > w.now, less(m.prio, m.id, o.prio, o.id))
			w.cameBack(m, o, first)
			w.assert("C01", first, "a message was delivered before a smaller one that was ready and due")
			w.assert("C09", first, "a message was delivered before a smaller one that was ready and due")
			w.assert("C10", first, "a message was delivered before a smaller one that was ready and due")
			w.assert("C14", first, "a message was delivered before a smaller one that was ready and due")
		}
	}
	if ack {
		m.st = gone
	} else {
		m.st = inflight
		m.deadline = w.now + w.timeout
	}
	w.settle()
	return m
}

// cameBack states the order of messages one of which came back.
func (w *world) cameBack(m, o *message, first bool) {
	for _, p := range []string{m.came, o.came} {
		w.assert(p, first, "a message that came back is not delivered as one of its group and priority")
	}
}

// turn checks that no group is served twice while another one waits.
func (w *world) turn(m *message) {
	if w.served == nil {
		w.served = map[string]map[string]bool{}
	}
	for _, g := range w.gs {
		waits := false
		for _, o := range w.msgs {
			if o.st == waiting && o.group == g {
				waits = true
			}
		}
		if !waits || g == m.group {
			w.served[g] = nil
			continue
		}
		w.assert("C03", !w.served[g][m.group], "a group was served twice while another was waiting")
		if w.served[g] == nil {
			w.served[g] = map[string]bool{}
		}
		w.served[g][m.group] = true
	}
}

// settle forgets the turns of groups without a waiting message.
func (w *world) settle() {
	for g := range w.served {
		waits := false
		for _, o := range w.msgs {
			if o.st == waiting && o.group == g {
				waits = true
			}
		}
		if !waits {
			w.served[g] = nil
		}
	}
}

func (w *world) ack(id uint64) {
	err := w.q.Ack(id)
	m := w.byID(id)
	fl := m != nil && m.st == inflight
	w.assert("C08", (err == nil) == fl, "ack succeeds although the message is not in flight, or fails although it is")
	if !fl {
		w.assert("C08", err == queue.ErrMessageNotFound, "ack of a message that is not in flight is not reported as not found")
	}
	if err == nil && !fl || err != nil && fl {
		sym.Stop()
	}
	if fl {
		m.st = gone
		sym.Reach("acked")
	}
}

func (w *world) nack(id uint64) {
	err := w.q.Nack(id)
	m := w.byID(id)
	fl := m != nil && m.st == inflight
	w.assert("C08", (err == nil) == fl, "nack succeeds although the message is not in flight, or fails although it is")
	if !fl {
		w.assert("C08", err == queue.ErrMessageNotFound, "nack of a message that is not in flight is not reported as not found")
	}
	if err == nil && !fl || err != nil && fl {
		sym.Stop()
	}
	if fl {
		m.st = waiting
		m.came = "C08"
		sym.Reach("nacked")
	}
}

func (w *world) update(id uint64) {
	p := sym.I64("newprio")
	err := w.q.UpdatePriority(id, p)
	m := w.byID(id)
	known := m != nil && m.st != gone
	w.assert("C09", (err == nil) == known, "a priority update of a known message fails, or of an unknown one succeeds")
	if known && m.st == waiting {
		w.assert(m.came, err == nil, "a message that came back is not known in its group")
	}
	if (err == nil) != known {
		sym.Stop()
	}
	if known {
		m.prio = p
		sym.Reach("updated")
	}
}

func (w *world) wait(label string) {
	t := sym.I64R(label, 1, 1<<41)
	sym.Assume(t >= w.now)
	w.now = t
	symenv.Clock = w.now
}

// redeliver lets the redelivery check run once.
func (w *world) redeliver() {
	n := symenv.FireTickersOf(time.Duration(w.check) * time.Second)
	w.assert("C07", n > 0, "no redelivery check is scheduled")
	w.expire()
}

// expire applies the redelivery check to the reference model.
func (w *world) expire() {
	for _, m := range w.msgs {
		if m.st == inflight && m.deadline <= w.now {
			m.st = waiting
			m.came = "C07"
			sym.Reach("expired")
		}
	}
}

func (w *world) counters() {
	s := w.q.GetStats()
	var r, u int64
	for _, m := range w.msgs {
		switch m.st {
		case waiting:
			r++
		case inflight:
			u++
		}
	}
	w.assert("C13", s.Ready == r, "ready is not the number of waiting messages")
	w.assert("C13", s.Unacked == u, "unacked is not the number of in-flight messages")
	w.assert("C13", s.Total == r+u, "total is not the number of messages")
	w.assert("C13", s.Name == w.name && s.Type == w.typ, "the queue info names another queue or type")
	for _, p := range []string{"C05", "C06", "C07", "C08", "C10", "C14", "C09"} {
		w.assert(p, s.Ready == r && s.Unacked == u, "the queue does not hold the expected messages")
	}
	if s.Ready != r || s.Unacked != u {
		sym.Stop()
	}
}

// drain takes out everything: first what is ready now, then, far in the
// future, everything else, including what is in flight.
func (w *world) drain() {
	w.counters()
	for i := 0; i <= len(w.msgs); i++ {
		if w.deq(true) == nil {
			break
		}
	}
	if w.anyWaiting() {
		// everything scheduled becomes due
		for _, m := range w.msgs {
			if m.st == waiting {
				sym.Assume(m.prio < 1<<50)
			}
		}
		w.now = 1 << 51
		symenv.Clock = w.now
		for i := 0; i <= len(w.msgs); i++ {
			if w.deq(true) == nil {
				break
			}
		}
	}
	for _, m := range w.msgs {
		w.assert("C06", m.st != waiting, "an accepted message is lost")
	}
	w.counters()
	sym.Reach("drained")
}
