package hqueue

import (
	"time"

	"github.com/kgantsov/doq/pkg/queue"
	"github.com/kgantsov/doq/pkg/zzverif/sym"
	"github.com/kgantsov/doq/pkg/zzverif/symenv"
)

func anyType() string { return []string{"delayed", "fair"}[sym.Choose("type", 2)] }

// reload loads the queue again, either on demand or with all the others.
func (w *world) reload(all bool) {
	symenv.Ticks = nil
	w.db = symenv.Reopen(w.db)
	w.qm = queue.NewQueueManager(w.db, w.cfg, nil)
	if all {
		w.qm.LoadQueues()
	}
	q, err := w.qm.GetQueue(w.name)
	w.assert("C10", err == nil, "the queue is not found after a restart")
	if err != nil {
		sym.Stop()
	}
	w.q = q
	w.served = nil
	for _, m := range w.msgs {
		if m.st == inflight {
			m.st = waiting
		}
	}
	s := q.GetStats()
	w.assert("C10", s.Name == w.name && s.Type == w.typ, "the queue has another name or type after a restart")
	if all {
		l := w.qm.GetQueues()
		w.assert("C10", len(l) == 1 && l[0].Name == w.name && l[0].Type == w.typ, "another queue is loaded than the one stored")
	}
}

// One operation cut off by a crash before or after its storage commit, on a
// queue of two messages, one of them possibly in flight; the queue is loaded
// again and behaves like the reference, in which the operation has happened
// completely or not at all.
func crashOp(typ string) {
	w := newWorld(typ, "C10")
	w.create()
	w.enq()
	w.enq()
	if sym.Choose("in flight", 2) == 1 {
		w.deq(false)
	}
	id := w.msgs[sym.Choose("which", 2)].id
	m := w.byID(id)
	op := sym.Choose("op", 6)
	g := w.group()
	prio := sym.I64("new prio")
	content := "new" + sym.Str("new content", 1)
	newID := idTable[2]
	symenv.CrashBudget = 1
	cr := symenv.Crashed(func() {
		switch op {
		case 0:
			w.q.Enqueue(newID, g, prio, content)
		case 1:
			w.q.Dequeue(true)
		case 2:
			w.q.Dequeue(false)
		case 3:
			w.q.Ack(id)
		case 4:
			w.q.Nack(id)
		case 5:
			w.q.UpdatePriority(id, prio)
		}
	})
	symenv.CrashBudget = 0
	if !cr {
		// operations that crash nowhere are covered by the other harnesses
		sym.Stop()
	}
	sym.Reach("crashed")
	w.reload(sym.Choose("load all", 2) == 1)
	// what is stored decides whether the operation happened
	has := func(id uint64) bool {
		r, err := w.q.GetByID(id)
		return err == nil && r != nil
	}
	switch op {
	case 0:
		if has(newID) {
			w.msgs = append(w.msgs, &message{id: newID, group: g, prio: prio, content: content})
			sym.Reach("enqueue completed")
		}
	case 1:
		n := 0
		for _, o := range w.msgs {
			if o.st == waiting && !has(o.id) {
				o.st = gone
				n++
			}
		}
		sym.Assert(n <= 1, "C10: a dequeue cut off by a crash removed more than one message")
	case 3:
		if !has(id) {
			m.st = gone
			sym.Reach("ack completed")
		}
	case 5:
		if r, err := w.q.GetByID(id); err == nil && r.Priority == prio {
			m.prio = prio
			sym.Reach("update completed")
		}
	}
	if sym.Choose("then", 2) == 1 {
		w.deq(false)
		w.step("ant")
	}
	w.drain()
}

// A crash at any point of one operation on a queue of messages in any states,
// then a restart: the operation happened or did not, everything else is as it
// was.
func C10_delayed() { crashOp("delayed") }

// The same for fair queues.
func C10_fair() { crashOp("fair") }

// A restart after any history of two (thorough: three) operations, the queue
// having any name of up to 2 bytes (separators included), loaded on demand or
// with all the others.
func C10_history() {
	w := newWorld(anyType(), "C10")
	w.name = sym.Str("name", sym.Choose("len", 3))
	w.create()
	w.enq()
	w.enq()
	w.deq(false)
	for i := 0; i < size(1, 2); i++ {
		w.step("eDanut")
	}
	w.reload(sym.Choose("load all", 2) == 1)
	w.step("dent")
	w.drain()
}

// Every byte of group name and content survives a restart, and every priority.
func C10_data() {
	w := newWorld("fair", "C10", "C06")
	w.create()
	g := sym.StrR("group", sym.Choose("group len", 3), 0, 127)
	c := sym.StrR("content", sym.Choose("content len", 3), 0, 127)
	m := &message{id: sym.U64("id"), group: g, prio: sym.I64("prio"), content: c}
	w.gs = []string{g}
	_, err := w.q.Enqueue(m.id, g, m.prio, c)
	sym.Assert(err == nil, "C10: enqueue fails")
	w.msgs = append(w.msgs, m)
	w.reload(sym.Choose("load all", 2) == 1)
	w.drain()
}

// Creation and deletion cut off by a crash: the queue exists with its type and
// all its messages, or does not exist and nothing of it is left.
func C10_createDelete() {
	w := newWorld(anyType(), "C10")
	del := sym.Choose("delete", 2) == 1
	n := 0
	if del {
		w.create()
		n = sym.Choose("messages", 4)
		for i := 0; i < n; i++ {
			w.enq()
		}
		if n > 0 && sym.Choose("in flight", 2) == 1 {
			w.deq(false)
		}
	}
	small := del && sym.Choose("small transactions", 2) == 1
	if small {
		symenv.SetMaxBatch(w.db, 3)
	}
	symenv.CrashBudget = 1
	cr := symenv.Crashed(func() {
		if del {
			w.qm.Delete(w.name)
		} else {
			w.qm.Create(w.typ, w.name)
		}
	})
	symenv.CrashBudget = 0
	if !cr {
		sym.Stop()
	}
	symenv.Ticks = nil
	w.db = symenv.Reopen(w.db)
	w.qm = queue.NewQueueManager(w.db, w.cfg, nil)
	all := sym.Choose("load all", 2) == 1
	if all {
		w.qm.LoadQueues()
	}
	q, err := w.qm.GetQueue(w.name)
	if err != nil {
		sym.Reach("absent")
		sym.Assert(symenv.Keys(w.db) == 0, "C10: a queue is gone after a crash but leaves something behind")
		return
	}
	s := q.GetStats()
	sym.Assert(s.Name == w.name && s.Type == w.typ, "C10: the queue has another name or type after a crash")
	sym.Assert(s.Unacked == 0, "C10: messages are in flight after a restart")
	if small {
		// a deletion larger than one storage transaction is completed by repeating it
		err := w.qm.Delete(w.name)
		sym.Assert(err == nil, "C10: repeating the deletion fails")
		sym.Assert(symenv.Keys(w.db) == 0, "C10: the repeated deletion leaves something behind")
		sym.Reach("repeated")
		return
	}
	sym.Assert(s.Ready == int64(n), "C10: a creation or deletion cut off by a crash has happened partly")
	w.q = q
	for _, m := range w.msgs {
		if m.st == inflight {
			m.st = waiting
		}
	}
	w.drain()
}

// ---- failing storage

func (w *world) faults(on bool) int {
	symenv.FaultBudget = 0
	if on {
		sym.ModelOnly()
		symenv.FaultBudget = 1
	}
	symenv.FaultCommit, symenv.FaultGet, symenv.FaultSet, symenv.FaultValue = on, on, on, on
	return symenv.Faults
}

// One operation during which the storage fails once, at any access, followed
// by another operation with healthy storage and by taking everything out.
func faultOp(typ string) {
	w := newWorld(typ, "C14")
	w.create()
	for i := 0; i < 2; i++ {
		w.enq()
	}
	for i := sym.Choose("in flight", 3); i > 0; i-- {
		w.deq(false)
	}
	id := w.msgs[sym.Choose("which", 2)].id
	op := sym.Choose("op", 6)
	var err error
	g := w.group()
	prio := sym.I64("new prio")
	content := "new" + sym.Str("new content", 1)
	n := w.faults(true)
	switch op {
	case 0:
		_, err = w.q.Enqueue(idTable[2], g, prio, content)
	case 1:
		_, err = w.q.Dequeue(true)
	case 2:
		_, err = w.q.Dequeue(false)
	case 3:
		err = w.q.Ack(id)
	case 4:
		err = w.q.Nack(id)
	case 5:
		err = w.q.UpdatePriority(id, prio)
	}
	failed := symenv.Faults > n
	w.faults(false)
	if !failed {
		sym.Stop()
	}
	sym.Reach("failed")
	sym.Assert(err != nil, "C14: an operation reports success although the storage failed")
	w.counters()
	switch sym.Choose("then", 3) {
	case 1:
		w.step("edant")
	case 2:
		w.reload(false)
	}
	w.drain()
}

// One operation during which the storage fails once, at any access; afterwards
// the operation reports failure, the counters are as before, and another
// operation, a reload and taking everything out find the queue unchanged.
func C14_delayed() { faultOp("delayed") }

// The same for fair queues.
func C14_fair() { faultOp("fair") }

// The storage fails during a redelivery check: nothing is lost, and a later
// check releases everything that has expired.
func C14_redelivery() {
	w := newWorld(anyType(), "C14", "C07")
	w.create()
	for i := 0; i < 3; i++ {
		w.enq()
	}
	for i := 1 + sym.Choose("in flight", 3); i > 0; i-- {
		w.deq(false)
	}
	w.wait("wait")
	n := w.faults(true)
	symenv.FireTickersOf(time.Duration(w.check) * time.Second)
	failed := symenv.Faults > n
	w.faults(false)
	if failed {
		sym.Reach("failed")
	}
	w.redeliver()
	w.counters()
	w.drain()
}

// The storage fails while a queue is created or deleted.
func C14_createDelete() {
	w := newWorld(anyType(), "C14")
	del := sym.Choose("delete", 2) == 1
	if del {
		w.create()
		for i := sym.Choose("messages", 3); i > 0; i-- {
			w.enq()
		}
		if len(w.msgs) > 0 && sym.Choose("in flight", 2) == 1 {
			w.deq(false)
		}
		n := w.faults(true)
		err := w.qm.Delete(w.name)
		failed := symenv.Faults > n
		w.faults(false)
		if !failed {
			sym.Stop()
		}
		sym.Reach("failed")
		sym.Assert(err != nil, "C14: a deletion reports success although the storage failed")
		q, err := w.qm.GetQueue(w.name)
		sym.Assert(err == nil, "C14: a queue is gone after a failed deletion")
		w.q = q
		if len(w.qm.GetQueues()) != 1 {
			sym.Assert(false, "C14: a queue is not listed after a failed deletion")
		}
		w.counters()
		if sym.Choose("again", 2) == 1 {
			sym.Assert(w.qm.Delete(w.name) == nil, "C14: a deletion fails after a failed one")
			sym.Assert(symenv.Keys(w.db) == 0, "C14: a deletion after a failed one is incomplete")
			return
		}
		w.wait("wait")
		w.redeliver()
		w.drain()
		return
	}
	n := w.faults(true)
	_, err := w.qm.Create(w.typ, w.name)
	failed := symenv.Faults > n
	w.faults(false)
	if !failed {
		sym.Stop()
	}
	sym.Reach("failed")
	sym.Assert(err != nil, "C14: a creation reports success although the storage failed")
	_, err = w.qm.GetQueue(w.name)
	sym.Assert(err != nil, "C14: a queue exists after a failed creation")
	sym.Assert(len(w.qm.GetQueues()) == 0, "C14: a queue is listed after a failed creation")
	w.create()
	w.enq()
	w.deq(true)
	w.drain()
}

// ---- listing and counters

// The counters follow any history of operations.
func C13_delayed() { newWorld("delayed", "C13").counted(2, 1, size(2, 3), "edDanutr") }

// The same for fair queues.
func C13_fair() { newWorld("fair", "C13").counted(2, 1, size(2, 3), "edDanutr") }

func (w *world) counted(pre, out, steps int, ops string) {
	w.create()
	w.counters()
	for i := 0; i < pre; i++ {
		w.enq()
		w.counters()
	}
	for i := 0; i < out; i++ {
		w.deq(false)
		w.counters()
	}
	for i := 0; i < steps; i++ {
		w.step(ops)
		w.counters()
	}
	w.drain()
}

// The listing has every existing queue once, in name order, with its type;
// three queues with any names of up to two bytes, one of them possibly deleted.
func C13_listing() {
	w := newWorld("delayed", "C13")
	var names, types []string
	for i := 0; i < 3; i++ {
		n := sym.Str("name", 1+sym.Choose("len", 2))
		for _, o := range names {
			sym.Assume(n != o)
		}
		t := anyType()
		q, err := w.qm.Create(t, n)
		sym.Assert(err == nil, "C13: creating a queue fails")
		for j := 0; j < i; j++ {
			q.Enqueue(idTable[j], "g", 1, "c")
		}
		names, types = append(names, n), append(types, t)
	}
	ready := []int64{0, 1, 2}
	if sym.Choose("again", 2) == 1 {
		w.qm.Create("fair", names[0])
	}
	if d := sym.Choose("delete", 3); d > 0 {
		sym.Assert(w.qm.Delete(names[d]) == nil, "C13: deleting a queue fails")
		names = append(append([]string{}, names[:d]...), names[d+1:]...)
		types = append(append([]string{}, types[:d]...), types[d+1:]...)
		ready = append(append([]int64{}, ready[:d]...), ready[d+1:]...)
	}
	sym.AnyMapOrder()
	l := w.qm.GetQueues()
	sym.Assert(len(l) == len(names), "C13: the listing does not have every existing queue once")
	for i, x := range l {
		if i > 0 {
			sym.Assert(l[i-1].Name < x.Name, "C13: the listing is not in name order")
		}
		found := false
		for j := range names {
			if x.Name == names[j] {
				found = true
				sym.Assert(x.Type == types[j], "C13: the listing has another type")
				sym.Assert(x.Ready == ready[j] && x.Unacked == 0 && x.Total == ready[j], "C13: the listing has other counts")
			}
		}
		sym.Assert(found, "C13: the listing has a queue that does not exist")
	}
	sym.Reach("listed")
}

// Every successful operation is counted once in the sliding window, whatever
// the window size; the window moves at any point of the history.
func C13_window() {
	w := newWorld("delayed", "C13")
	size := 1 + sym.Choose("window", 3)
	w.cfg.Queue.QueueStats.WindowSide = size
	w.create()
	type counts struct{ e, d, a, n int }
	cur := counts{}
	var hist []counts
	for i := 0; i < size; i++ {
		hist = append(hist, counts{})
	}
	var ids []uint64
	next := 0
	steps := 6
	if sym.Deep() {
		steps = 8
	}
	for i := 0; i < steps; i++ {
		switch sym.Choose("op", 5) {
		case 0:
			if next == len(idTable) {
				sym.Stop()
			}
			_, err := w.q.Enqueue(idTable[next], "default", 0, "c")
			sym.Assert(err == nil, "C13: enqueue fails")
			next++
			cur.e++
		case 1:
			if m, err := w.q.Dequeue(false); err == nil {
				ids = append(ids, m.ID)
				cur.d++
			}
		case 2:
			if len(ids) > 0 {
				if w.q.Ack(ids[len(ids)-1]) == nil {
					cur.a++
				}
				ids = ids[:len(ids)-1]
			} else {
				sym.Assert(w.q.Ack(77) != nil, "C13: ack of an unknown message succeeds")
			}
		case 3:
			if len(ids) > 0 {
				if w.q.Nack(ids[len(ids)-1]) == nil {
					cur.n++
				}
				ids = ids[:len(ids)-1]
			} else {
				sym.Assert(w.q.Nack(77) != nil, "C13: nack of an unknown message succeeds")
			}
		case 4:
			sym.Assert(symenv.FireTickersOf(time.Second) == 1, "C13: the window does not move once a second")
			hist = append(append([]counts{}, hist[1:]...), cur)
			cur = counts{}
		}
	}
	var t counts
	for _, h := range hist {
		t.e += h.e
		t.d += h.d
		t.a += h.a
		t.n += h.n
	}
	s := w.q.GetStats().Stats
	f := float64(size)
	sym.Assert(s.EnqueueRPS == float64(t.e)/f, "C13: the enqueue rate is not that of the window")
	sym.Assert(s.DequeueRPS == float64(t.d)/f, "C13: the dequeue rate is not that of the window")
	sym.Assert(s.AckRPS == float64(t.a)/f, "C13: the ack rate is not that of the window")
	sym.Assert(s.NackRPS == float64(t.n)/f, "C13: the nack rate is not that of the window")
	sym.Reach("rated")
}

// Two stored queues, the second of any name of one byte
// (thorough: two) and fair (thorough: any type): after a restart
// both come back with their type and all their messages, in whichever order they
// are asked for, with an operation on the first and a request for an absent queue
// before the second is loaded, or all loaded at once.
func C10_queues() {
	a := newWorld(anyType(), "C10")
	a.create()
	a.enq()
	b := *a
	b.typ = "fair"
	if sym.Deep() {
		b.typ = anyType()
	}
	b.msgs = nil
	b.name = sym.Str("second name", 1+sym.Choose("len", size(1, 2)))
	sym.Assume(b.name != a.name)
	b.create()
	b.enq()
	b.enq()
	a.nextID = b.nextID
	if sym.Choose("in flight", 2) == 1 {
		a.deq(false)
		b.deq(false)
	}
	ws := []*world{a, &b}
	if sym.Choose("second first", 2) == 1 {
		ws = []*world{&b, a}
	}
	symenv.Ticks = nil
	db := symenv.Reopen(a.db)
	qm := queue.NewQueueManager(db, a.cfg, nil)
	all := sym.Choose("load all", 2) == 1
	if all {
		qm.LoadQueues()
		sym.Assert(len(qm.GetQueues()) == 2, "C10: other queues are loaded than the two stored")
	}
	for i, w := range ws {
		w.db, w.qm = db, qm
		q, err := qm.GetQueue(w.name)
		sym.Assert(err == nil, "C10: one of two queues is not found after a restart")
		if err != nil {
			sym.Stop()
		}
		w.q = q
		w.served = nil
		for _, m := range w.msgs {
			if m.st == inflight {
				m.st = waiting
			}
		}
		s := q.GetStats()
		sym.Assert(s.Name == w.name && s.Type == w.typ, "C10: one of two queues has another name or type after a restart")
		sym.Assert(s.Ready == int64(len(w.msgs)) && s.Unacked == 0, "C10: one of two queues is not loaded completely")
		if i == 0 {
			_, err := qm.GetQueue("absent")
			sym.Assert(err != nil, "C10: a queue that was never stored is found after a restart")
			w.step("en")
		}
	}
	ws[1].nextID = max(a.nextID, b.nextID)
	if sym.Deep() {
		ws[1].step("den")
	}
	sym.Reach("both")
	ws[1].drain()
	ws[0].drain()
}
