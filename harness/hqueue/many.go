package hqueue

import (
	"fmt"
	"time"

	"github.com/kgantsov/doq/pkg/queue"
	"github.com/kgantsov/doq/pkg/zzverif/sym"
	"github.com/kgantsov/doq/pkg/zzverif/symenv"
)

// bulk puts n messages into the queue: ids 1 to n, priorities in another
// order, one of them free among its neighbours; they are returned.
func (w *world) bulk(n int) []*message {
	var l []*message
	for i := 0; i < n; i++ {
		m := &message{id: uint64(i + 1), group: "default", prio: int64((i * 7) % n)}
		if w.typ == "fair" {
			m.group = []string{"a", "b", "c"}[i%3]
		}
		if i == n/2 {
			m.prio = sym.I64R("prio", int64(n-4), int64(n))
		}
		if _, err := w.q.Enqueue(m.id, m.group, m.prio, fmt.Sprint(i)); err != nil {
			sym.Stop()
		}
		l = append(l, m)
	}
	return l
}

// empty takes everything out: every waiting message is delivered once, as it was put
// in, and within its group in order.
func (w *world) empty(p string, l []*message) {
	last := map[string]*message{}
	n := 0
	for _, m := range l {
		if m.st == waiting {
			n++
		}
	}
	for i := 0; i < n; i++ {
		r, err := w.q.Dequeue(true)
		sym.Assert(err == nil && r != nil, p+": a message of a large queue is lost")
		sym.Assert(r.ID >= 1 && r.ID <= uint64(len(l)), p+": an unknown message is delivered")
		m := l[r.ID-1]
		sym.Assert(m.st == waiting, p+": a message is delivered twice")
		m.st = gone
		sym.Assert(r.Priority == m.prio && r.Content == fmt.Sprint(r.ID-1) && r.Group == m.group, p+": a delivered message differs from what was stored")
		if o := last[m.group]; o != nil {
			sym.Assert(less(o.prio, o.id, m.prio, m.id), p+": wrong order in a large queue")
		}
		last[m.group] = m
	}
	_, err := w.q.Dequeue(true)
	sym.Assert(err == queue.ErrEmptyQueue, p+": a large queue is not empty after everything was delivered")
	sym.Reach("emptied")
}

// A large queue (1100 messages, thorough: 2200; the priority of one of them free
// among a few of its neighbours) with some messages in flight and some acknowledged
// comes back completely after a restart.
func C10_many() {
	w := newWorld(anyType(), "C10")
	w.now += 1 << 20
	symenv.Clock = w.now
	w.create()
	l := w.bulk(size(1100, 2200))
	for i := 0; i < 3; i++ {
		m, err := w.q.Dequeue(false)
		if err != nil {
			sym.Stop()
		}
		if i == 1 && w.q.Ack(m.ID) == nil {
			l[m.ID-1].st = gone
		}
	}
	w.reload(sym.Choose("load all", 2) == 1)
	s := w.q.GetStats()
	sym.Assert(s.Ready == int64(len(l)-1) && s.Unacked == 0, "C10: a large queue is not loaded completely")
	w.empty("C10", l)
}

// The priority order holds in a large queue too: 1100 messages (thorough: 2200),
// the priority of one of them free among a few of its neighbours, a few of them
// changed or removed.
func C01_many() {
	w := newWorld("delayed", "C01")
	w.now += 1 << 20
	symenv.Clock = w.now
	w.create()
	l := w.bulk(size(1100, 2200))
	n := len(l)
	for _, k := range []int{n / 3, n - 2, 5} {
		l[k].prio = int64(k) * 3 % 50
		if w.q.UpdatePriority(l[k].id, l[k].prio) != nil {
			sym.Stop()
		}
	}
	w.empty("C01", l)
}

// A large fair queue (1100 messages, thorough: 2200, in three groups) keeps the order within
// each group.
func C04_many() {
	w := newWorld("fair", "C04")
	w.create()
	l := w.bulk(size(1100, 2200))
	n := len(l)
	for _, k := range []int{n / 3, n - 2, 5} {
		l[k].prio = int64(k) * 3 % 50
		if w.q.UpdatePriority(l[k].id, l[k].prio) != nil {
			sym.Stop()
		}
	}
	w.empty("C04", l)
}

// Many groups (40, thorough: 150), some with one message and some with two or
// three: no group is served a second time before every waiting one was, also after
// one more arrives while they are served.
func C03_many() {
	w := newWorld("fair", "C03")
	w.create()
	n := size(40, 150)
	left := map[string]int{}
	id := uint64(0)
	put := func(g string) {
		id++
		if _, err := w.q.Enqueue(id, g, 0, ""); err != nil {
			sym.Stop()
		}
		left[g]++
	}
	for round := 0; round < 3; round++ {
		for i := 0; i < n; i++ {
			if i%3 >= round {
				put(fmt.Sprint("g", i))
			}
		}
	}
	extra := sym.Choose("after", 3) * (n / 2)
	served := map[string]map[string]bool{}
	for k := 0; len(left) > 0; k++ {
		if k == extra {
			put("new")
			put("new")
		}
		m, err := w.q.Dequeue(sym.Choose("ack", 1) == 0)
		sym.Assert(err == nil, "C03: the queue is reported empty while a group has a waiting message")
		sym.Assert(left[m.Group] > 0, "C03: a message of a group that has none")
		for g := range left {
			if g == m.Group {
				continue
			}
			if served[g] == nil {
				served[g] = map[string]bool{}
			}
			sym.Assert(!served[g][m.Group], "C03: a group was served twice while another was waiting")
			served[g][m.Group] = true
		}
		delete(served, m.Group)
		left[m.Group]--
		if left[m.Group] == 0 {
			delete(left, m.Group)
		}
	}
	sym.Reach("served")
}

// 1100 messages (thorough: 2200) in flight whose time is over come back at one
// check, and none of them a second earlier.
func C07_bulk() {
	w := newWorld(anyType(), "C07")
	w.create()
	n := size(1100, 2200)
	for i := 0; i < n; i++ {
		if _, err := w.q.Enqueue(uint64(i+1), "g", 0, ""); err != nil {
			sym.Stop()
		}
	}
	for i := 0; i < n; i++ {
		if _, err := w.q.Dequeue(false); err != nil {
			sym.Stop()
		}
	}
	late := sym.Bool("late")
	w.now += sym.IteI64(late, w.timeout, w.timeout-1)
	symenv.Clock = w.now
	symenv.FireTickersOf(time.Duration(w.check) * time.Second)
	s := w.q.GetStats()
	if late {
		sym.Assert(s.Ready == int64(n) && s.Unacked == 0, "C07: not all messages whose time is over come back at the check")
		for i := 0; i < n; i++ {
			m, err := w.q.Dequeue(true)
			sym.Assert(err == nil && m.ID == uint64(i+1), "C07: a message that came back is not deliverable in its turn")
		}
		sym.Reach("expired")
	} else {
		sym.Assert(s.Ready == 0 && s.Unacked == int64(n), "C07: messages come back before their time")
		sym.Reach("early")
	}
}

// A large queue (1100 messages, thorough: 2200, some in flight) is deleted completely, and
// another one stays.
func C12_many() {
	w := newWorld(anyType(), "C12")
	w.create()
	n := size(1100, 2200)
	for i := 0; i < n; i++ {
		if _, err := w.q.Enqueue(uint64(i+1), "g", 0, ""); err != nil {
			sym.Stop()
		}
	}
	o, err := w.qm.Create("delayed", "other")
	if err != nil {
		sym.Stop()
	}
	o.Enqueue(7, "default", 0, "kept")
	w.q.Dequeue(false)
	other := "loaded"
	switch sym.Choose("reload", 3) {
	case 1:
		w.restart()
	case 2:
		w.db = symenv.Reopen(w.db)
		symenv.Ticks = nil
		w.qm = queue.NewQueueManager(w.db, w.cfg, nil)
		other = "not loaded"
	}
	sym.Assert(w.qm.Delete(w.name) == nil, "C12: deleting a large queue fails")
	_, err = w.qm.GetQueue(w.name)
	sym.Assert(err == queue.ErrQueueNotFound, "C12: a deleted queue is found")
	sym.Assert(symenv.Keys(w.db) == 2, "C12: deleting a large queue leaves something of it in the storage, or removes something else")
	w.create()
	s := w.q.GetStats()
	sym.Assert(s.Total == 0, "C12: a new queue has messages of the deleted one")
	o, err = w.qm.GetQueue("other")
	sym.Assert(err == nil, "C12: deleting a queue removes another one")
	m, err := o.Dequeue(true)
	sym.Assert(err == nil && m.ID == 7 && m.Content == "kept", "C12: deleting a queue removes another one's message")
	sym.Reach(other)
}

// 40 queues (thorough: 150) are listed, each once and in name order, and after a restart again.
func C13_queues() {
	w := newWorld("delayed", "C13")
	n := size(40, 150)
	name := func(i int) string { return fmt.Sprintf("q%03d", i) }
	for i := 0; i < n; i++ {
		if _, err := w.qm.Create([]string{"delayed", "fair"}[i%2], name((i*7)%n)); err != nil {
			sym.Stop()
		}
	}
	gone := sym.Choose("deleted", n/10+1)*10 - 10
	if gone >= 0 && w.qm.Delete(name(gone)) != nil {
		sym.Stop()
	}
	if sym.Choose("restart", 2) == 1 {
		w.db = symenv.Reopen(w.db)
		symenv.Ticks = nil
		w.qm = queue.NewQueueManager(w.db, w.cfg, nil)
		w.qm.LoadQueues()
	}
	want := []int{}
	for i := 0; i < n; i++ {
		if i != gone {
			want = append(want, i)
		}
	}
	l := w.qm.GetQueues()
	sym.Assert(len(l) == len(want), "C13: a queue is missing from the listing, or listed twice")
	for i, k := range want {
		sym.Assert(l[i].Name == name(k), "C13: the listing is not in name order")
		typ := "delayed"
		for j := 0; j < n; j++ {
			if (j*7)%n == k && j%2 == 1 {
				typ = "fair"
			}
		}
		sym.Assert(l[i].Type == typ, "C13: a queue is listed with another type")
	}
	sym.Reach("listed")
}
