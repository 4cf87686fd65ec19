package hqueue

import (
	"github.com/kgantsov/doq/pkg/queue"
	"github.com/kgantsov/doq/pkg/zzverif/sym"
	"github.com/kgantsov/doq/pkg/zzverif/symenv"
)

// step performs one operation of a history.
func (w *world) step(ops string) {
	pick := func() uint64 {
		if len(w.msgs) == 0 {
			sym.Stop()
		}
		return w.msgs[sym.Choose("which", len(w.msgs))].id
	}
	switch ops[sym.Choose("op "+ops, len(ops))] {
	case 'e':
		w.enq()
	case 'd':
		w.deq(false)
	case 'D':
		w.deq(true)
	case 'a':
		w.ack(pick())
	case 'n':
		w.nack(pick())
	case 'u':
		w.update(pick())
	case 't':
		w.wait("wait")
		w.redeliver()
	case 'w':
		w.wait("wait")
	case 'r':
		w.restart()
	}
}

func (w *world) history(pre int, steps int, ops string) {
	w.create()
	for i := 0; i < pre; i++ {
		w.enq()
	}
	for i := 0; i < steps; i++ {
		w.step(ops)
	}
	w.drain()
}

// flight puts pre messages into the queue and takes some of them out, so that
// histories start where acknowledgements matter.
func (w *world) flight(pre, out, steps int, ops string) {
	w.create()
	for i := 0; i < pre; i++ {
		w.enq()
	}
	for i := 0; i < out; i++ {
		w.deq(false)
	}
	for i := 0; i < steps; i++ {
		w.step(ops)
	}
	w.drain()
}

// The whole delayed queue over its storage: 2 messages, 2 (thorough: 3) steps
// from enqueue, dequeue, ack, nack, redelivery and priority change, then
// everything is taken out in order.
func C01_queue() { newWorld("delayed", "C01").history(2, size(2, 3), "edantu") }

// Three messages of which two are in flight, 1 (thorough: 2) nacks, redeliveries
// or priority changes: what comes back takes its place in the order.
func C01_flight() { newWorld("delayed", "C01").flight(3, 2, size(1, 2), "ntu") }

// The whole delayed queue against the clock: 2 messages and 2 (thorough: 3)
// steps including waiting.
func C02_queue() { newWorld("delayed", "C02").history(2, size(2, 3), "ednwtu") }

// Messages that come back by nack or timeout are again held until their time: 2
// messages in flight, 2 (thorough: 3) steps.
func C02_flight() { newWorld("delayed", "C02").flight(2, 2, size(2, 3), "dntu") }

// The whole fair queue: 3 messages in any of the groups, one in flight, 2
// (thorough: 3) steps; the groups are served in turn throughout.
func C03_queue() { newWorld("fair", "C03").flight(3, 1, size(2, 3), "dDnuta") }

// Three (thorough: four) messages of two named groups and "default" in any assignment, the first
// k delivered; then each comes back by nack or by its timeout, in either order,
// and more arrive; turns are kept throughout.
func C03_back() {
	w := newWorld("fair", "C03", "C08")
	w.gs = []string{"ga", "default", "gb"}
	w.create()
	n := size(3, 4)
	for i := 0; i < n; i++ {
		w.enq()
	}
	k := sym.Choose("delivered", n+1)
	for i := 0; i < k; i++ {
		w.deq(false)
	}
	back := sym.Choose("back", 3)
	switch back {
	case 0: // nacked in id order
		for _, m := range w.msgs {
			if m.st == inflight {
				w.nack(m.id)
			}
		}
	case 1: // nacked in the opposite order
		for i := len(w.msgs) - 1; i >= 0; i-- {
			if w.msgs[i].st == inflight {
				w.nack(w.msgs[i].id)
			}
		}
	case 2:
		w.now += w.timeout
		symenv.Clock = w.now
		w.redeliver()
	}
	if sym.Choose("more", 2) == 1 {
		w.enq()
	}
	w.drain()
}

// The whole fair queue over its storage: 3 messages, one in flight, 1 (thorough:
// 2) steps including restart; nothing is lost or out of order within its group.
func C04_queue() { newWorld("fair", "C04").flight(3, 1, size(1, 2), "eduntr") }

// Two messages, one in flight, 3 (thorough: 4) steps from dequeue, auto-ack
// dequeue, ack, nack, redelivery, priority change and restart: no message is
// delivered while somebody else holds it, or after it is gone.
func C05_delayed() { newWorld("delayed", "C05").flight(2, 1, size(3, 4), "dDantur") }

// The same for fair queues.
func C05_fair() { newWorld("fair", "C05").flight(2, 1, size(3, 4), "dDantur") }

// Two messages, one in flight, 2 (thorough: 3) steps of any kind including
// restart: in the end exactly the accepted and unreleased messages come out,
// with the values they were enqueued with.
func C06_delayed() { newWorld("delayed", "C06").flight(2, 1, size(2, 3), "edantur") }

// The same for fair queues.
func C06_fair() { newWorld("fair", "C06").flight(2, 1, size(2, 3), "edantur") }

// bytesOf is any text of n bytes, none, or a long one.
func bytesOf(l string, n int) string {
	switch sym.Choose(l+" kind", 3) {
	case 1:
		return ""
	case 2:
		return sym.Long(70001)
	}
	return sym.Str(l, n)
}

// Every byte of content, group name and priority survives: any bytes, none, or
// a long text.
func C06_data() {
	w := newWorld([]string{"delayed", "fair"}[sym.Choose("type", 2)], "C06")
	w.create()
	g := "default"
	if w.typ == "fair" {
		g = bytesOf("group", 1+sym.Choose("group length", 2))
	}
	w.gs = []string{g}
	m := &message{id: sym.U64("id"), group: g, prio: sym.I64("prio"), content: bytesOf("content", size(4, 12))}
	in := g
	if w.typ != "fair" {
		in = sym.Str("ignored group", 1)
	}
	r, err := w.q.Enqueue(m.id, in, m.prio, m.content)
	sym.Assert(err == nil && r != nil, "C06: enqueue fails")
	w.msgs = append(w.msgs, m)
	got, err := w.q.GetByID(m.id)
	sym.Assert(err == nil, "C06: an enqueued message is not found by its id")
	sym.Assert(sym.And(got.ID == m.id, sym.And(got.Priority == m.prio, sym.StrEq(got.Content, m.content))), "C06: an enqueued message is stored with other values")
	switch sym.Choose("then", 4) {
	case 1:
		if w.deq(false) != nil {
			w.nack(m.id)
		}
	case 2:
		if w.deq(false) != nil {
			w.wait("wait")
			w.redeliver()
		}
	case 3:
		w.restart()
	}
	w.drain()
}

// Many in flight: whatever their deadlines, each comes back at the first check
// at or after its own timeout.
func C07_many() {
	w := newWorld([]string{"delayed", "fair"}[sym.Choose("type", 2)], "C07")
	w.create()
	n := size(3, 4)
	for i := 0; i < n; i++ {
		m := &message{id: idTable[i], group: w.group(), prio: int64(0), content: "c"}
		w.nextID++
		if _, err := w.q.Enqueue(m.id, m.group, m.prio, m.content); err != nil {
			sym.Stop()
		}
		w.msgs = append(w.msgs, m)
	}
	for i := 0; i < n; i++ {
		w.wait("wait")
		if w.deq(false) == nil {
			sym.Stop()
		}
	}
	w.wait("wait")
	w.redeliver()
	w.expired()
	sym.Reach("end")
}

// expired checks exactly the expired messages are deliverable.
func (w *world) expired() {
	var ready, unacked int64
	for _, m := range w.msgs {
		if m.st == waiting {
			ready++
		}
		if m.st == inflight {
			unacked++
		}
	}
	s := w.q.GetStats()
	w.assert("C07", s.Ready >= ready, "a message whose acknowledgement timeout has passed did not come back at the check")
	w.assert("C07", s.Ready <= ready, "a message came back before its acknowledgement timeout, or after it was released")
	for i := 0; i <= len(w.msgs); i++ {
		if w.deq(true) == nil {
			break
		}
	}
}

// Two messages, one in flight, 2 (thorough: 3) steps, any waiting times: an
// unacknowledged message is back at the first check at or after its timeout and
// not before.
func C07_history() {
	w := newWorld([]string{"delayed", "fair"}[sym.Choose("type", 2)], "C07")
	w.flight(2, 1, size(2, 3), "dantue")
}

// More deliveries, nacks and timeouts in a row.
func C07_longer() { newWorld("delayed", "C07").flight(2, 1, size(4, 5), "dnt") }

// The timeout and check interval are the configured ones.
func C07_config() {
	w := newWorld("delayed", "C07")
	w.timeout = sym.I64R("timeout", 0, 1<<33)
	w.check = sym.I64R("interval", 2, 1<<33)
	symenv.Nano = sym.I64R("part of a second", 0, 999999999)
	w.cfg = w.config()
	w.qm = queue.NewQueueManager(w.db, w.cfg, nil)
	w.create()
	w.enq()
	if w.deq(false) == nil {
		sym.Stop()
	}
	w.wait("wait")
	w.redeliver()
	w.wait("wait")
	w.redeliver()
	w.drain()
}

// Redelivery keeps working for a queue loaded from storage.
func C07_loaded() {
	w := newWorld([]string{"delayed", "fair"}[sym.Choose("type", 2)], "C07")
	w.create()
	w.enq()
	w.enq()
	w.restart()
	w.deq(false)
	w.step("tn")
	w.step("td")
	w.drain()
}

// Three messages, two in flight, 3 (thorough: 4) steps: every ack and nack
// succeeds exactly if the message it names is in flight, and affects that one
// only.
func C08_delayed() { newWorld("delayed", "C08").flight(3, 2, size(3, 4), "antdw") }

// The same for fair queues.
func C08_fair() { newWorld("fair", "C08").flight(3, 2, size(3, 4), "antdw") }

// Any id at all: only ids in flight are accepted.
func C08_anyid() {
	w := newWorld([]string{"delayed", "fair"}[sym.Choose("type", 2)], "C08")
	w.create()
	w.enq()
	w.enq()
	w.deq(false)
	id := sym.U64("any id")
	if sym.Choose("op", 2) == 0 {
		w.ack(id)
	} else {
		w.nack(id)
	}
	w.drain()
}

// Two messages, one in flight, 3 (thorough: 4) steps from priority change, nack,
// dequeue, redelivery and restart: the new priority decides when and where the
// message comes, also after it came back or a restart.
func C09_delayed() { newWorld("delayed", "C09").flight(2, 1, size(3, 4), "undtr") }

// The same for fair queues.
func C09_fair() { newWorld("fair", "C09").flight(2, 1, size(3, 4), "undtr") }

// A priority change of any of three waiting messages to any value moves that one
// only.
func C09_three() { newWorld("delayed", "C09").history(3, 1, "u") }

// Any id at all: only known ids are accepted, also for ids that are gone.
func C09_anyid() {
	w := newWorld([]string{"delayed", "fair"}[sym.Choose("type", 2)], "C09")
	w.create()
	w.enq()
	w.enq()
	w.deq(sym.Choose("auto-ack", 2) == 1)
	w.update(sym.U64("any id"))
	w.drain()
}

// Names are free text, so separators and prefixes of one another are covered.
func twoNames() (string, string) {
	a := sym.Str("name a", sym.Choose("len a", 3))
	b := sym.Str("name b", 1+sym.Choose("len b", size(3, 4)))
	sym.Assume(a != b)
	return a, b
}

// other is a second queue whose content must never change.
type other struct {
	q    *queue.BadgerPriorityQueue
	name string
}

func (w *world) snapshotOther(o *other, phase string) {
	q, err := w.qm.GetQueue(o.name)
	sym.Assert(err == nil, "C11: an operation on another queue removed the queue")
	s := q.GetStats()
	sym.Assert(s.Type == "fair", "C11: an operation on another queue changed the type of the queue")
	sym.Assert(s.Name == o.name, "C11: an operation on another queue changed the name of the queue")
	sym.Assert(s.Ready == 1 && s.Unacked == 1, "C11: an operation on another queue changed the messages of the queue "+phase)
}

// Two queues with any different names of up to 2 and 3 (thorough: 4) bytes,
// separators included, that hold the same message ids: one operation of any kind
// on one (also its deletion) changes nothing in the other, now and after a
// restart.
func C11_pair() {
	w := newWorld("delayed", "C11")
	a, b := twoNames()
	w.name = a
	w.create()
	w.enq()
	oq, err := w.qm.Create("fair", b)
	sym.Assert(err == nil, "C11: creating a second queue fails")
	o := &other{oq, b}
	// the same ids live in both queues
	oq.Enqueue(idTable[0], "g", 5, "other0")
	oq.Enqueue(idTable[1], "g", 6, "other1")
	m, err := oq.Dequeue(false)
	sym.Assert(err == nil && m.ID == idTable[0] && m.Content == "other0", "C11: the second queue delivers another message")
	w.enq()
	del := false
	switch sym.Choose("op", 7) {
	case 0:
		w.deq(true)
	case 1:
		if w.deq(false) != nil {
			w.ack(w.msgs[0].id)
		}
	case 2:
		if w.deq(false) != nil {
			w.nack(w.msgs[0].id)
		}
	case 3:
		w.update(w.msgs[sym.Choose("which", 2)].id)
	case 4:
		err := w.qm.Delete(w.name)
		sym.Assert(err == nil, "C11: deleting a queue fails")
		del = true
	case 5:
		q, err := w.qm.Create("delayed", w.name)
		sym.Assert(err == nil && q != nil, "C11: repeated creation")
	case 6:
		w.ack(idTable[0])
		w.nack(idTable[0])
	}
	w.snapshotOther(o, "")
	if !del {
		w.counters()
	}
	// everything of the other queue is still there after a restart
	w.db = symenv.Reopen(w.db)
	w.qm = queue.NewQueueManager(w.db, w.cfg, nil)
	q, err := w.qm.GetQueue(b)
	sym.Assert(err == nil, "C11: the other queue is gone after a restart")
	sym.Assert(q.Len() == 2, "C11: the other queue has other messages after a restart")
	for i := 0; i < 2; i++ {
		m, err := q.Dequeue(true)
		sym.Assert(err == nil && m.ID == idTable[i] && m.Group == "g" && m.Priority == int64(5+i) && m.Content == []string{"other0", "other1"}[i],
			"C11: the other queue has other messages after a restart")
	}
	wq, err := w.qm.GetQueue(a)
	sym.Assert((err == nil) == !del, "C11: emptying or reloading the other queue brought back or removed this one")
	if !del {
		w.q = wq
		for _, m := range w.msgs {
			if m.st == inflight {
				m.st = waiting
			}
		}
		w.drain()
	}
	sym.Reach("end")
}

// Creating a queue again, with either type, keeps its messages, its in-flight
// messages and its type.
func C12_create() {
	w := newWorld([]string{"delayed", "fair"}[sym.Choose("type", 2)], "C12")
	w.create()
	w.enq()
	w.enq()
	w.deq(false)
	q, err := w.qm.Create([]string{"delayed", "fair"}[sym.Choose("type again", 2)], w.name)
	sym.Assert(err == nil, "C12: creating a queue that exists fails")
	w.q = q
	w.counters2()
	q2, err := w.qm.GetQueue(w.name)
	sym.Assert(err == nil && q2 != nil, "C12: the queue is not found")
	l := w.qm.GetQueues()
	sym.Assert(len(l) == 1 && l[0].Name == w.name && l[0].Type == w.typ, "C12: creating a queue that exists changes its type")
	for i := 0; i < 3; i++ {
		w.deq(true)
	}
	w.restart()
	w.counters2()
	sym.Assert(w.q.GetStats().Type == w.typ, "C12: creating a queue that exists changes its type")
	sym.Reach("end")
}

// Creating a queue again that is in the storage and not in memory (after a
// restart that did not replay its creation) keeps its messages and its type.
func C12_unloaded() {
	w := newWorld([]string{"delayed", "fair"}[sym.Choose("type", 2)], "C12")
	w.create()
	n := 1 + sym.Choose("messages", 2)
	for i := 0; i < n; i++ {
		w.enq()
	}
	w.db = symenv.Reopen(w.db)
	symenv.Ticks = nil
	w.qm = queue.NewQueueManager(w.db, w.cfg, nil)
	again := []string{"delayed", "fair"}[sym.Choose("type again", 2)]
	q, err := w.qm.Create(again, w.name)
	sym.Assert(err == nil && q != nil, "C12: creating a queue that exists fails")
	sym.Assert(symenv.Keys(w.db) == 1+n, "C12: creating a queue that exists removes messages from the storage")
	s := q.GetStats()
	// known: a new empty queue of the type asked for takes its place in memory
	sym.AssertKF(s.Ready == int64(n) && s.Total == int64(n) && s.Type == w.typ, "C12: creating a queue that exists hides its messages or changes its type",
		"C12-unloaded", s.Ready == 0 && s.Total == 0 && s.Type == again)
	sym.Reach("end")
}

func (w *world) counters2() {
	s := w.q.GetStats()
	var r, u int64
	for _, m := range w.msgs {
		switch m.st {
		case waiting:
			r++
		case inflight:
			u++
		}
	}
	sym.Assert(s.Ready == r && s.Unacked == u, "C12: the queue does not hold the expected messages")
}

// A queue that does not exist.
func (w *world) absent() {
	_, err := w.qm.GetQueue(w.name)
	sym.Assert(err == queue.ErrQueueNotFound, "C12: a queue that does not exist is found")
	sym.Assert(w.qm.Delete(w.name) != nil, "C12: deleting a queue that does not exist succeeds")
	sym.Assert(len(w.qm.GetQueues()) == 0, "C12: a queue that does not exist is listed")
}

// A queue that was never created, any name of up to 2 bytes, is not found,
// cannot be deleted and is not listed, also next to one that exists.
func C12_absent() {
	w := newWorld("delayed", "C12")
	w.name = sym.Str("name", sym.Choose("len", 3))
	w.absent()
	if sym.Choose("then", 2) == 0 {
		w.create()
		w.enq()
		w.name = sym.Str("name2", sym.Choose("len", 3))
		sym.Assume(w.name != w.q.GetStats().Name)
		_, err := w.qm.GetQueue(w.name)
		sym.Assert(err == queue.ErrQueueNotFound, "C12: a queue that does not exist is found")
		sym.Assert(w.qm.Delete(w.name) != nil, "C12: deleting a queue that does not exist succeeds")
	}
	sym.Reach("end")
}

// A queue of up to 3 (thorough: 5) messages, also in flight, loaded or not, in
// transactions too small for all of them: after its deletion nothing is left in
// the storage and nothing comes back, after a restart, a new creation, or the
// redelivery check.
func C12_delete() {
	w := newWorld([]string{"delayed", "fair"}[sym.Choose("type", 2)], "C12")
	w.create()
	n := sym.Choose("messages", size(4, 6))
	for i := 0; i < n; i++ {
		w.enq()
	}
	if n > 0 && sym.Choose("in flight", 2) == 1 {
		w.deq(false)
	}
	switch sym.Choose("reload", 3) {
	case 1:
		w.restart()
	case 2:
		// deleted without having been loaded
		w.db = symenv.Reopen(w.db)
		w.qm = queue.NewQueueManager(w.db, w.cfg, nil)
	}
	small := sym.Choose("small transactions", 2) == 1
	if small {
		symenv.SetMaxBatch(w.db, 3)
	}
	err := w.qm.Delete(w.name)
	sym.Assert(err == nil, "C12: deleting a queue fails")
	w.absent()
	if small {
		symenv.SetMaxBatch(w.db, 100000)
	}
	if symenv.Keys(w.db) != 0 {
		sym.Assert(false, "C12: deleting a queue leaves something in the storage")
	}
	w.msgs = nil
	switch sym.Choose("then", 3) {
	case 0:
		w.db = symenv.Reopen(w.db)
		w.qm = queue.NewQueueManager(w.db, w.cfg, nil)
		w.absent()
	case 1:
		w.typ = []string{"delayed", "fair"}[sym.Choose("new type", 2)]
		w.create()
		sym.Assert(w.q.GetStats().Type == w.typ, "C12: a new queue has another type")
		w.counters2()
		w.restart()
		w.counters2()
	case 2:
		// the redelivery check of the deleted queue brings nothing back
		w.wait("wait")
		symenv.FireTickers()
		w.absent()
		w.create()
		w.counters2()
	}
	sym.Reach("end")
}

// life takes messages through several deliveries: each is released by nack, by
// its timeout, by a restart, or acknowledged, with or without a priority change
// while it is in flight, and an ack or nack that comes too late.
func (w *world) life(cycles int) {
	w.create()
	if w.typ == "fair" {
		w.gs = []string{"g"}
	}
	w.enq()
	w.enq()
	for i := 0; i < cycles; i++ {
		m := w.deq(false)
		if m == nil {
			sym.Stop()
		}
		if sym.Choose("update", 2) == 1 {
			w.update(m.id)
		}
		switch sym.Choose("release", 4) {
		case 0:
			w.nack(m.id)
		case 1:
			w.now += w.timeout
			symenv.Clock = w.now
			w.redeliver()
		case 2:
			w.restart()
		case 3:
			w.ack(m.id)
		}
		switch sym.Choose("late", 3) {
		case 1:
			w.ack(m.id)
		case 2:
			w.nack(m.id)
		}
		w.counters()
	}
	w.drain()
}

func anyWorld(p string) *world {
	return newWorld([]string{"delayed", "fair"}[sym.Choose("type", 2)], p)
}

// Two messages, 2 (thorough: 3) deliveries, each released in any of four ways,
// with priority changes in flight and late answers: one owner at a time.
func C05_life() { anyWorld("C05").life(size(2, 3)) }

// Two messages, 2 (thorough: 3) deliveries, each released in any of four ways,
// with priority changes in flight and late answers: nothing is lost or altered.
func C06_life() { anyWorld("C06").life(size(2, 3)) }

// Two messages, 2 (thorough: 3) deliveries, each released in any of four ways,
// with priority changes in flight and late answers: timeouts release what is
// in flight then, once.
func C07_life() { anyWorld("C07").life(size(2, 3)) }

// Two messages, 2 (thorough: 3) deliveries, each released in any of four ways,
// with priority changes in flight and late answers: only what is in flight can
// be acked or nacked.
func C08_life() { anyWorld("C08").life(size(2, 3)) }

// Two messages, 2 (thorough: 3) deliveries, each released in any of four ways,
// with priority changes in flight and late answers: the new priority counts
// after every release.
func C09_life() { anyWorld("C09").life(size(2, 3)) }

// Two messages, 2 (thorough: 3) deliveries, each released in any of four ways,
// with priority changes in flight and late answers: the counts are right after
// each.
func C13_life() { anyWorld("C13").life(size(2, 3)) }
