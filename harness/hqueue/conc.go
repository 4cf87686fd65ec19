package hqueue

import (
	"time"

	"github.com/kgantsov/doq/pkg/queue"
	"github.com/kgantsov/doq/pkg/zzverif/sym"
	"github.com/kgantsov/doq/pkg/zzverif/symenv"
)

// cop is one completed operation of a concurrent run.
type cop struct {
	kind  byte
	id    uint64 // argument, or the message a dequeue returned (0: none)
	ok    bool
	ready int64
	unack int64
}

// cst is a state of the sequential reference: where every message is.
type cst struct {
	st     [5]int
	exists bool
}

type cref struct {
	ids     []uint64
	expired []bool
	client  []cop // in this order
	list    []cop // in this order
	final   cst
}

func (r *cref) index(id uint64) int {
	for i, x := range r.ids {
		if x == id {
			return i
		}
	}
	return -1
}

// apply tells whether the operation could have had its result in state s, and
// the state after it.
func (r *cref) apply(s cst, o cop) (cst, bool) {
	i := r.index(o.id)
	switch o.kind {
	case 'a', 'n':
		fl := s.exists && i >= 0 && s.st[i] == inflight
		if fl && o.ok {
			s.st[i] = gone
			if o.kind == 'n' {
				s.st[i] = waiting
			}
		}
		return s, fl == o.ok
	case 'u':
		return s, o.ok == (s.exists && i >= 0 && s.st[i] != gone)
	case 'd', 'D':
		first := -1
		for j := range r.ids {
			if s.st[j] == waiting {
				first = j
				break
			}
		}
		if !s.exists || first < 0 {
			return s, !o.ok
		}
		if !o.ok || i != first {
			return s, false
		}
		s.st[i] = inflight
		if o.kind == 'D' {
			s.st[i] = gone
		}
		return s, true
	case 'e':
		if s.exists && o.ok {
			s.st[i] = waiting
		}
		return s, o.ok == s.exists
	case 'x':
		ok := s.exists
		if ok {
			s.exists = false
			for j := range s.st {
				s.st[j] = gone
			}
		}
		return s, ok == o.ok
	case 'l':
		var rd, un int64
		for j := range r.ids {
			switch s.st[j] {
			case waiting:
				rd++
			case inflight:
				un++
			}
		}
		return s, o.ok == s.exists && (!o.ok || o.ready == rd && o.unack == un)
	}
	return s, false
}

// possible searches for a sequential order of the client's operations, the
// listings and the releases of expired messages that explains every result.
// Every release is one step of the redelivery check.
func (r *cref) possible(s cst, c, l int, rel []bool) bool {
	if c < len(r.client) {
		if t, ok := r.apply(s, r.client[c]); ok && r.possible(t, c+1, l, rel) {
			return true
		}
	}
	if l < len(r.list) {
		if t, ok := r.apply(s, r.list[l]); ok && r.possible(t, c, l+1, rel) {
			return true
		}
	}
	for i := range r.ids {
		if r.expired[i] && !rel[i] && s.st[i] == inflight {
			t := s
			t.st[i] = waiting
			rel2 := append([]bool{}, rel...)
			rel2[i] = true
			if r.possible(t, c, l, rel2) {
				return true
			}
		}
	}
	if c == len(r.client) && l == len(r.list) {
		return s == r.final
	}
	return false
}

// concOp performs one client operation; it returns the id it was about.
func concOp(q *queue.BadgerPriorityQueue, k byte, id uint64, prio int) (uint64, error) {
	var err error
	switch k {
	case 'a':
		err = q.Ack(id)
	case 'n':
		err = q.Nack(id)
	case 'u':
		err = q.UpdatePriority(id, int64(prio))
	case 'e':
		_, err = q.Enqueue(id, "ga", int64(prio), "c")
	case 'd', 'D':
		var m *queue.Message
		m, err = q.Dequeue(k == 'D')
		if err == nil {
			sym.Assert(m != nil, "C15: dequeue succeeds without a message")
			id = m.ID
		}
	}
	return id, err
}

// concEnd finds out where every message is after a concurrent run.
func (w *world) concEnd(r *cref) {
	// another check, to release what may have been left
	symenv.FireTickersOf(time.Duration(w.check) * time.Second)
	// the final state
	f := cst{}
	for i := range f.st {
		f.st[i] = gone
	}
	q, err := w.qm.GetQueue(w.name)
	f.exists = err == nil
	if f.exists {
		s := q.GetStats()
		for i := 0; i < 6; i++ {
			m, err := q.Dequeue(true)
			if err != nil {
				break
			}
			j := r.index(m.ID)
			sym.Assert(j >= 0, "C15: an unknown message is delivered")
			sym.Assert(f.st[j] == gone, "C15: a message is delivered twice")
			f.st[j] = waiting
		}
		// what is in flight comes back after its timeout
		w.now += 10 * w.timeout
		symenv.Clock = w.now
		symenv.FireTickersOf(time.Duration(w.check) * time.Second)
		for i := 0; i < 6; i++ {
			m, err := q.Dequeue(true)
			if err != nil {
				break
			}
			j := r.index(m.ID)
			sym.Assert(j >= 0, "C15: an unknown message is delivered")
			sym.Assert(f.st[j] == gone, "C15: a message is delivered twice")
			f.st[j] = inflight
		}
		var rd, un int64
		for _, x := range f.st {
			switch x {
			case waiting:
				rd++
			case inflight:
				un++
			}
		}
		sym.Assert(s.Ready == rd && s.Unacked == un, "C15: the counters do not match the messages")
	}
	r.final = f
}

// runConc runs client operations while the redelivery check, the statistics
// window and a listing run, under every schedule with up to preempt context
// switches at lock, channel, atomic and storage operations.
func runConc(typ string, nops, preempt int, ops string, listing, window bool) {
	w := newWorld(typ, "C15")
	w.create()
	r := &cref{}
	for i := 0; i < 3; i++ {
		id := idTable[i]
		w.q.Enqueue(id, "ga", int64(i), "c")
		r.ids = append(r.ids, id)
	}
	r.ids = append(r.ids, idTable[3], idTable[4])
	r.expired = make([]bool, 5)
	init := cst{exists: true}
	init.st[3], init.st[4] = gone, gone
	// the first message is in flight and has expired, the second is in flight
	w.q.Dequeue(false)
	w.now += w.timeout - 1
	symenv.Clock = w.now
	w.q.Dequeue(false)
	w.now++
	symenv.Clock = w.now
	r.expired[0] = true
	init.st[0], init.st[1] = inflight, inflight
	if sym.Choose("both expired", 2) == 1 {
		w.now += w.timeout
		symenv.Clock = w.now
		r.expired[1] = true
	}
	var kinds []byte
	var args []uint64
	for i := 0; i < nops; i++ {
		k := ops[sym.Choose("op", len(ops))]
		kinds = append(kinds, k)
		a := uint64(0)
		switch k {
		case 'a', 'n', 'u':
			a = r.ids[sym.Choose("which", 2)]
		case 'e':
			a = idTable[3+i]
		}
		args = append(args, a)
	}
	sym.RunBackground()
	sym.Concurrent(preempt)
	symenv.FireTickersAsync(time.Duration(w.check) * time.Second)
	if window {
		symenv.FireTickersAsync(time.Second)
	}
	listed := false
	if listing {
		go func() {
			l := w.qm.GetQueues()
			o := cop{kind: 'l', ok: len(l) == 1}
			if len(l) == 1 {
				o.ready, o.unack = l[0].Ready, l[0].Unacked
				sym.Assert(l[0].Total == o.ready+o.unack, "C15: a listing shows an inconsistent state")
			}
			r.list = append(r.list, o)
			listed = true
		}()
	}
	for i, k := range kinds {
		o := cop{kind: k, id: args[i]}
		if k == 'x' {
			o.ok = w.qm.Delete(w.name) == nil
			r.client = append(r.client, o)
			continue
		}
		q, err := w.qm.GetQueue(w.name)
		if err == nil {
			o.id, err = concOp(q, k, o.id, r.index(o.id))
		}
		o.ok = err == nil
		r.client = append(r.client, o)
	}
	sym.RunBackground()
	sym.Sequential()
	sym.RunBackground()
	if listing {
		sym.Assert(listed, "C15: the listing never ends")
	}
	w.concEnd(r)
	sym.Assert(r.possible(init, 0, 0, make([]bool, 5)), "C15: no sequential order of the operations explains the outcome")
	sym.Reach("explained")
}

// One client operation and the redelivery check, with up to 3 (thorough: 4; fair queues: 2 and 3)
// context switches.
func C15_one() { runConc("delayed", 1, size(3, 4), "andDeux", false, false) }

// The same for fair queues, with up to 2 (thorough: 3) context switches.
func C15_oneFair() { runConc("fair", 1, size(2, 3), "andDeux", false, false) }

// One client operation, the redelivery check and a listing, with up to 2 (with the window: 1)
// (thorough: one more) context switches; in the second, the window moves too.
func C15_listing() { runConc("delayed", 1, size(2, 3), "andDeux", true, false) }

// The same with a listing and the statistics window, with up to 1 (thorough: 2)
// context switches.
func C15_window() { runConc("delayed", 1, size(1, 2), "andDe", true, true) }

// Two client operations and the redelivery check, with up to 2 (thorough: 3)
// context switches.
func C15_two() { runConc("delayed", 2, size(2, 3), "andDeux", false, false) }

// One operation of any kind while the window moves, with up to 2 (thorough: 3)
// context switches: it is counted once, and nothing counted before is lost.
func C13_concurrent() {
	w := newWorld(anyType(), "C13")
	w.create()
	for i := 0; i < 3; i++ {
		w.q.Enqueue(idTable[i], "ga", 0, "c")
	}
	w.q.Dequeue(false)
	w.q.Dequeue(false)
	w.q.Ack(idTable[0])
	e, d, a, n := 3.0, 2.0, 1.0, 0.0
	op := sym.Choose("op", 4)
	sym.RunBackground()
	sym.Concurrent(size(2, 3))
	symenv.FireTickersAsync(time.Second)
	var err error
	switch op {
	case 0:
		_, err = w.q.Enqueue(idTable[3], "ga", 0, "c")
		e++
	case 1:
		_, err = w.q.Dequeue(false)
		d++
	case 2:
		err = w.q.Ack(idTable[1])
		a++
	case 3:
		err = w.q.Nack(idTable[1])
		n++
	}
	sym.RunBackground()
	sym.Sequential()
	sym.RunBackground()
	sym.Assert(err == nil, "C13: an operation fails while the window moves")
	symenv.FireTickersOf(time.Second)
	s := w.q.GetStats().Stats
	sym.Assert(s.EnqueueRPS == e/3 && s.DequeueRPS == d/3 && s.AckRPS == a/3 && s.NackRPS == n/3,
		"C13: an operation is not counted once while the window moves")
	sym.Reach("counted")
}

// Counts above one byte: 300 messages, all but a few in flight.
func C13_large() {
	w := newWorld(anyType(), "C13")
	w.create()
	n := 300
	for i := 0; i < n; i++ {
		if _, err := w.q.Enqueue(uint64(i+1), "g", 0, ""); err != nil {
			sym.Stop()
		}
	}
	k := sym.Choose("in flight", 2) * 257
	for i := 0; i < k; i++ {
		if _, err := w.q.Dequeue(false); err != nil {
			sym.Stop()
		}
	}
	s := w.qm.GetQueues()[0]
	sym.Assert(s.Ready == int64(n-k) && s.Unacked == int64(k) && s.Total == int64(n), "C13: wrong counts of a large queue")
	symenv.FireTickersOf(time.Second)
	s = w.q.GetStats()
	sym.Assert(s.Stats.EnqueueRPS == float64(n)/3 && s.Stats.DequeueRPS == float64(k)/3, "C13: wrong rates of a large queue")
	sym.Reach("counted")
}

// The first use of a queue that is in storage but not in memory: a client
// operation while the queue is asked for its statistics by name or all queues
// are listed, with up to 1 (thorough: 2; a dequeue: one more) context switches. Nothing is lost,
// delivered twice or counted wrongly.
func C15_lazy() { lazy("dDeux", true, size(1, 2)) }

// Two dequeues while the queue is being loaded from storage by both, with up to
// 2 (thorough: 3) context switches.
func C15_lazily() { lazy("d", false, size(2, 3)) }

func lazy(ops string, listing bool, preempt int) {
	w := newWorld("delayed", "C15")
	w.create()
	r := &cref{}
	for i := 0; i < 2; i++ {
		w.q.Enqueue(idTable[i], "ga", int64(i), "c")
	}
	r.ids = append(r.ids, idTable[:5]...)
	r.expired = make([]bool, 5)
	init := cst{exists: true}
	for i := 2; i < 5; i++ {
		init.st[i] = gone
	}
	w.now += 10 // all are due
	symenv.Clock = w.now
	symenv.Ticks = nil
	w.db = symenv.Reopen(w.db)
	w.qm = queue.NewQueueManager(w.db, w.cfg, nil)
	kinds := []byte{ops[sym.Choose("op", len(ops))]}
	byName := !listing || sym.Choose("by name", 2) == 1
	sym.RunBackground()
	sym.Concurrent(preempt)
	asked := false
	go func() {
		if byName {
			q, err := w.qm.GetQueue(w.name)
			if err == nil {
				s := q.GetStats()
				sym.Assert(s.Total == s.Ready+s.Unacked && s.Total <= 3, "C15: the statistics show an inconsistent state")
			}
		} else {
			sym.Assert(len(w.qm.GetQueues()) <= 1, "C15: the listing shows a queue twice")
		}
		asked = true
	}()
	for i, k := range kinds {
		o := cop{kind: k, id: idTable[2+i]}
		if k == 'u' {
			o.id = idTable[0]
		}
		if k == 'x' {
			o.ok = w.qm.Delete(w.name) == nil
			r.client = append(r.client, o)
			continue
		}
		q, err := w.qm.GetQueue(w.name)
		if err == nil {
			o.id, err = concOp(q, k, o.id, r.index(o.id))
		}
		o.ok = err == nil
		r.client = append(r.client, o)
	}
	sym.RunBackground()
	sym.Sequential()
	sym.RunBackground()
	sym.Assert(asked, "C15: the statistics or the listing never end")
	w.concEnd(r)
	sym.Assert(r.possible(init, 0, 0, make([]bool, 5)), "C15: no sequential order of the operations explains the outcome")
	sym.Reach("explained")
}

// A queue that is created or deleted, on a node that has it (loaded or not) or
// not, while another caller creates it, asks for its statistics or lists all
// queues, with up to 2 (thorough: 3) context switches: what exists afterwards is
// what some order of the two gives, in memory and in storage, and no message of
// a caller whose enqueue succeeded is lost.
func C15_manager() {
	w := newWorld("fair", "C15")
	stored, del := sym.Choose("stored", 2) == 1, sym.Choose("delete", 2) == 1
	other := sym.Choose("other", 3)
	if stored {
		w.create()
		w.enq()
		// creating one that is not loaded: C12_unloaded
		if del && other != 0 && sym.Choose("loaded", 2) == 0 {
			w.db = symenv.Reopen(w.db)
			symenv.Ticks = nil
			w.qm = queue.NewQueueManager(w.db, w.cfg, nil)
		}
	}
	mine := func(i int, enq bool) bool {
		q, err := w.qm.Create(w.typ, w.name)
		sym.Assert(err == nil && q != nil, "C15: creating a queue fails")
		if enq {
			_, err = q.Enqueue(idTable[i], "ga", 0, "c")
			sym.Assert(err == nil, "C15: enqueue to a new queue fails")
		}
		return true
	}
	sym.RunBackground()
	sym.Concurrent(size(1, 2))
	done, deleted := false, false
	go func() {
		switch other {
		case 0:
			mine(3, !del)
		case 1:
			q, err := w.qm.GetQueue(w.name)
			if err == nil {
				i := q.GetStats()
				sym.Assert(i.Name == w.name && i.Type == w.typ && i.Unacked == 0 && i.Ready == i.Total, "C15: wrong statistics")
			}
		case 2:
			for _, i := range w.qm.GetQueues() {
				sym.Assert(i.Name == w.name && i.Type == w.typ && i.Unacked == 0 && i.Ready == i.Total, "C15: wrong listing")
			}
		}
		done = true
	}()
	if del {
		deleted = w.qm.Delete(w.name) == nil
	} else {
		mine(2, true)
	}
	sym.RunBackground()
	sym.Sequential()
	sym.RunBackground()
	sym.Assert(done, "C15: a caller never returns")
	if del && stored {
		sym.Assert(deleted, "C15: deleting an existing queue fails")
	}
	_, err := w.qm.GetQueue(w.name)
	exists := err == nil
	switch {
	case !del:
		sym.Assert(exists, "C15: a created queue does not exist")
	case other != 0:
		sym.Assert(!exists, "C15: a deleted queue still exists")
	case !deleted:
		sym.Assert(exists, "C15: a created queue does not exist")
	}
	if exists {
		want := int64(0)
		if stored && !(del && deleted) {
			want++
		}
		if !del {
			want++
			if other == 0 {
				want++
			}
		}
		l := w.qm.GetQueues()
		sym.Assert(len(l) == 1, "C15: the queue is not listed")
		s := l[0]
		// a queue that was there, deleted and created again is empty
		sym.Assert(s.Ready == want && s.Total == want, "C15: messages are lost or reappear")
		q, _ := w.qm.GetQueue(w.name)
		n := int64(0)
		for i := 0; i < 4; i++ {
			if _, err := q.Dequeue(true); err != nil {
				break
			}
			n++
		}
		sym.Assert(n == want, "C15: messages are not delivered")
	} else {
		sym.Assert(len(w.qm.GetQueues()) == 0, "C15: a deleted queue is listed")
		sym.Assert(symenv.Keys(w.db) == 0, "C15: a deleted queue leaves data behind")
	}
	w.db = symenv.Reopen(w.db)
	_, err = queue.NewQueueManager(w.db, w.cfg, nil).GetQueue(w.name)
	sym.Assert((err == nil) == exists, "C15: memory and storage disagree on which queues exist")
	sym.Reach("checked")
}
