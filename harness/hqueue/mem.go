// Package hqueue states the properties of the in-memory and persistent queues.
package hqueue

import (
	"github.com/kgantsov/doq/pkg/queue"
	"github.com/kgantsov/doq/pkg/zzverif/sym"
	"github.com/kgantsov/doq/pkg/zzverif/symenv"
)

// less is the delivery order: priority, then id.
func less(p1 int64, i1 uint64, p2 int64, i2 uint64) bool {
	return sym.Or(p1 < p2, sym.And(p1 == p2, i1 < i2))
}

// ref is the reference content of an in-memory queue.
type ref struct {
	id    uint64
	prio  int64
	group string
}

type mem struct {
	q   queue.Queue
	in  []ref
	now int64
}

func (m *mem) add(group string) {
	id := sym.U64("id")
	p := sym.I64("prio")
	for _, o := range m.in {
		sym.Assume(o.id != id)
	}
	m.addRef(ref{id, p, group})
}

func (m *mem) addRef(r ref) {
	m.in = append(m.in, r)
	m.q.Enqueue(r.group, &queue.Item{ID: r.id, Priority: r.prio})
}

func (m *mem) remove(j int) {
	m.in = append(append([]ref{}, m.in[:j]...), m.in[j+1:]...)
}

// find is the position of the message with this id (ids are distinct).
func (m *mem) find(id uint64) int {
	for j := range m.in {
		if m.in[j].id == id {
			return j
		}
	}
	return -1
}

// any due message?
func (m *mem) due() bool {
	d := false
	for _, r := range m.in {
		d = sym.Or(d, r.prio <= m.now)
	}
	return d
}

// deq dequeues from a delayed queue and checks order and due time.
func (m *mem) deq(order, times bool) bool {
	it := m.q.Dequeue()
	if it == nil {
		if times {
			sym.Assert(!m.due(), "C02: a due message is withheld")
		}
		sym.Reach("nothing due")
		return false
	}
	sym.Observe("id", it.ID)
	j := m.find(it.ID)
	if order {
		sym.Assert(j >= 0, "C01: a message that is not in the queue was delivered")
	}
	if j < 0 {
		sym.Stop()
	}
	r := m.in[j]
	if times {
		sym.Assert(r.prio <= m.now, "C02: a message was delivered before its time")
	}
	if order {
		for _, o := range m.in {
			sym.Assert(sym.Or(o.id == r.id, sym.Or(o.prio > m.now, less(r.prio, r.id, o.prio, o.id))),
				"C01: a message was delivered before a smaller one that was ready and due")
		}
	}
	m.remove(j)
	sym.Reach("delivered")
	return true
}

func newDelayed() *mem {
	now := sym.I64R("now", 0, 1<<40)
	symenv.Clock = now
	return &mem{q: queue.NewDelayedPriorityQueue(true), now: now}
}

func heapFill(order, times bool, n int) {
	m := newDelayed()
	symenv.Nano = sym.I64R("part of a second", 0, 999999999)
	for i := 0; i < n; i++ {
		m.add("default")
	}
	for i := 0; i <= n; i++ {
		if !m.deq(order, times) {
			return
		}
	}
	sym.Assert(len(m.in) == 0, "C01: messages left behind")
	sym.Reach("drained")
}

func size(quick, deep int) int {
	if sym.Deep() {
		return deep
	}
	return quick
}

// Every order of n messages with arbitrary ids and priorities at an arbitrary time.
func C01_fill() { heapFill(true, false, size(5, 6)) }

// The same n=5 (thorough: 6) messages against the clock: none comes out before
// its time, none that is due stays.
func C02_fill() { heapFill(false, true, size(5, 6)) }

// One removal or priority change by id in the middle of n messages.
func heapEdit(order, times bool, n int) {
	m := newDelayed()
	for i := 0; i < n; i++ {
		m.add("default")
	}
	k := sym.Choose("which", n)
	r := m.in[k]
	switch sym.Choose("edit", 2) {
	case 0:
		it := m.q.DeleteByID("default", r.id)
		if order {
			sym.Assert(it != nil, "C01: removal by id does not find the message")
			sym.Assert(it.ID == r.id, "C01: removal by id removes another message")
		}
		m.remove(k)
	case 1:
		p := sym.I64("newprio")
		m.q.UpdatePriority("default", r.id, p)
		m.in[k].prio = p
	}
	for i := 0; i <= n; i++ {
		if !m.deq(order, times) {
			return
		}
	}
	sym.Reach("drained")
}

// Any n=4 (thorough: 5) messages; one of them, any, is removed by id or gets any
// other priority; the rest comes out in order.
func C01_edit() { heapEdit(true, false, size(4, 5)) }

// The same removal or priority change in n=4 (thorough: 5) messages against the
// clock.
func C02_edit() { heapEdit(false, true, size(4, 5)) }

// Removal and priority change in a heap of 7 (thorough: also 13) messages of a
// shape where the moved element has to go up, not down; one (thorough: two)
// of the priorities and the new priority are free.
func C01_deepRemove() {
	base := []int64{0, 100, 10, 110, 120, 200, 30}
	two := sym.Deep()
	if sym.Deep() && sym.Choose("large", 2) == 1 {
		base = []int64{0, 100, 10, 150, 110, 20, 60, 160, 170, 180, 190, 210, 30}
		two = false
	}
	n := len(base)
	m := &mem{q: queue.NewDelayedPriorityQueue(true), now: 1 << 40}
	symenv.Clock = m.now
	x, y := sym.Choose("free1", n), 0
	if two {
		y = sym.Choose("free2", n)
	}
	for i := 0; i < n; i++ {
		p := base[i]
		if i == x || two && i == y {
			p = sym.I64R("prio", -1, 220)
		}
		m.addRef(ref{uint64(50 - i), p, "default"})
	}
	k := sym.Choose("which", n)
	r := m.in[k]
	if sym.Choose("edit", 2) == 0 {
		m.q.DeleteByID("default", r.id)
		m.remove(k)
	} else {
		p := sym.I64R("newprio", -1, 220)
		m.q.UpdatePriority("default", r.id, p)
		m.in[k].prio = p
	}
	for len(m.in) > 0 {
		if !m.deq(true, false) {
			sym.Assert(false, "C01: due messages are withheld")
		}
	}
	sym.Reach("drained")
}

// Histories mixing enqueues, dequeues, removals, priority changes and time.
func heapHistory(order, times bool, pre, steps int) {
	m := newDelayed()
	for i := 0; i < pre; i++ {
		m.add("default")
	}
	for i := 0; i < steps; i++ {
		switch sym.Choose("op", 5) {
		case 0:
			m.add("default")
		case 1:
			m.deq(order, times)
		case 2:
			if len(m.in) == 0 {
				sym.Stop()
			}
			k := sym.Choose("which", len(m.in))
			m.q.DeleteByID("default", m.in[k].id)
			m.remove(k)
		case 3:
			if len(m.in) == 0 {
				sym.Stop()
			}
			k := sym.Choose("which", len(m.in))
			p := sym.I64("newprio")
			m.q.UpdatePriority("default", m.in[k].id, p)
			m.in[k].prio = p
		case 4:
			t := sym.I64R("wait", 0, 1<<41)
			sym.Assume(t >= m.now)
			m.now = t
			symenv.Clock = m.now
		}
	}
	for len(m.in) > 0 {
		if !m.deq(order, times) {
			return
		}
	}
	sym.Reach("drained")
}

// Histories of 2 (thorough: 3) steps from enqueue, dequeue, removal, priority
// change and passing time on 2 messages, then everything is taken out in order.
func C01_history() { heapHistory(true, false, 2, size(2, 3)) }

// The same histories against the clock.
func C02_history() { heapHistory(false, true, 2, size(2, 3)) }

// ---- fair queues

// fairness counts, for every waiting group, how often each other group has
// been served since it became waiting or was last served.
type fairness struct {
	groups []string
	cnt    [4][4]int
}

func (f *fairness) idx(g string) int {
	for i, x := range f.groups {
		if x == g {
			return i
		}
	}
	return -1
}

func (m *mem) waiting(g string) int {
	n := 0
	for _, r := range m.in {
		if r.group == g {
			n++
		}
	}
	return n
}

// fdeq dequeues from a fair queue; C03 is about turns, C04 about messages.
func (m *mem) fdeq(f *fairness, c03, c04 bool) {
	it := m.q.Dequeue()
	if it == nil {
		if c03 {
			sym.Assert(len(m.in) == 0, "C03: the queue is reported empty while a group has a waiting message")
		}
		if c04 {
			sym.Assert(len(m.in) == 0, "C04: waiting messages are not deliverable")
		}
		if len(m.in) > 0 {
			sym.Stop()
		}
		sym.Reach("empty")
		return
	}
	sym.Observe("id", it.ID)
	j := m.find(it.ID)
	if c04 {
		sym.Assert(j >= 0, "C04: a message that is not waiting was delivered")
	}
	if j < 0 {
		sym.Stop()
	}
	r := m.in[j]
	if c04 {
		for _, o := range m.in {
			if o.group == r.group && o.id != r.id {
				sym.Assert(less(r.prio, r.id, o.prio, o.id), "C04: wrong order within a group")
			}
		}
	}
	h := f.idx(r.group)
	for gi, g := range f.groups {
		if gi == h {
			continue
		}
		if m.waiting(g) > 0 {
			f.cnt[gi][h]++
			if c03 {
				sym.Assert(f.cnt[gi][h] <= 1, "C03: a group was served twice while another was waiting")
			}
		}
	}
	f.cnt[h] = [4]int{}
	m.remove(j)
	sym.Reach("delivered")
}

func (m *mem) fadd(f *fairness, g string, id uint64, p int64) {
	if m.waiting(g) == 0 {
		f.cnt[f.idx(g)] = [4]int{}
	}
	m.addRef(ref{id, p, g})
}

// Histories of enqueues to up to 3 groups and dequeues. The names are free
// text of one byte: the solver decides which of them are equal.
func C03_turns() {
	m := &mem{q: queue.NewFairPriorityQueue()}
	f := &fairness{}
	steps := size(8, 10)
	for i := 0; i < steps; i++ {
		if sym.Bool("dequeue") {
			m.fdeq(f, true, false)
			continue
		}
		g := sym.Str("group", 1)
		if f.idx(g) < 0 {
			if len(f.groups) == 3 {
				sym.Stop()
			}
			f.groups = append(f.groups, g)
		}
		m.fadd(f, g, uint64(i+1), 0)
	}
	for len(m.in) > 0 {
		m.fdeq(f, true, false)
	}
	sym.Reach("drained")
}

// Group names are arbitrary text.
func C03_names() {
	m := &mem{q: queue.NewFairPriorityQueue()}
	f := &fairness{}
	var gs []string
	for i := 0; i < 3; i++ {
		g := sym.Str("group", i%2+1)
		for _, o := range gs {
			sym.Assume(o != g)
		}
		gs = append(gs, g)
	}
	f.groups = gs
	id := uint64(0)
	for i := 0; i < size(5, 6); i++ {
		id++
		m.fadd(f, gs[sym.Choose("group no", 3)], id, sym.I64("prio"))
	}
	for len(m.in) > 0 {
		m.fdeq(f, true, false)
	}
	sym.Reach("drained")
}

// Removal of a group's messages by id does not block the rotation.
func C03_removed() {
	m := &mem{q: queue.NewFairPriorityQueue()}
	f := &fairness{groups: []string{sym.Str("a", 1), sym.Str("b", 1), sym.Str("c", 1)}}
	sym.Assume(f.groups[0] != f.groups[1])
	sym.Assume(f.groups[0] != f.groups[2])
	sym.Assume(f.groups[1] != f.groups[2])
	id := uint64(0)
	for i := 0; i < 3; i++ {
		id++
		m.fadd(f, f.groups[i%3], id, 0)
	}
	for i := 0; i < size(4, 6); i++ {
		switch sym.Choose("op", 3) {
		case 0:
			id++
			m.fadd(f, f.groups[sym.Choose("group no", 3)], id, 0)
		case 1:
			m.fdeq(f, true, false)
		case 2:
			if len(m.in) == 0 {
				sym.Stop()
			}
			k := sym.Choose("which", len(m.in))
			r := m.in[k]
			m.q.DeleteByID(r.group, r.id)
			m.remove(k)
		}
	}
	for len(m.in) > 0 {
		m.fdeq(f, true, false)
	}
	sym.Reach("drained")
}

func (m *mem) checkLen(c04 bool) {
	if c04 {
		sym.Assert(m.q.Len() == uint64(len(m.in)), "C04: the reported length is not the number of waiting messages")
	}
}

// Histories of 2 (thorough: 3) steps on a fair queue of 3 messages in two
// groups: nothing is lost, doubled or out of order within its group, and the
// length is right throughout.
func C04_history() {
	m := &mem{q: queue.NewFairPriorityQueue()}
	f := &fairness{groups: []string{"a", "b"}}
	id := uint64(100)
	add := func() {
		g := f.groups[sym.Choose("group no", 2)]
		p := sym.I64("prio")
		// ids neither ascending nor descending
		id = id*31%101 + 1
		m.fadd(f, g, id, p)
	}
	for i := 0; i < 3; i++ {
		add()
	}
	for i := 0; i < size(2, 3); i++ {
		m.checkLen(true)
		switch sym.Choose("op", 6) {
		case 0:
			add()
		case 1:
			m.fdeq(f, false, true)
		case 2:
			if len(m.in) == 0 {
				sym.Stop()
			}
			k := sym.Choose("which", len(m.in))
			r := m.in[k]
			it := m.q.DeleteByID(r.group, r.id)
			sym.Assert(it != nil, "C04: removal by id does not find the message")
			sym.Assert(it.ID == r.id, "C04: removal by id removes another message")
			m.remove(k)
		case 3:
			if len(m.in) == 0 {
				sym.Stop()
			}
			k := sym.Choose("which", len(m.in))
			p := sym.I64("newprio")
			m.q.UpdatePriority(m.in[k].group, m.in[k].id, p)
			m.in[k].prio = p
		case 4:
			// operations that name no waiting message
			x := sym.U64("unknown")
			for _, o := range m.in {
				sym.Assume(o.id != x)
			}
			g := []string{"a", "b", "zz"}[sym.Choose("group no", 3)]
			switch sym.Choose("lookup", 3) {
			case 0:
				sym.Assert(m.q.GetByID(g, x) == nil, "C04: lookup of an unknown id finds a message")
			case 1:
				sym.Assert(m.q.DeleteByID(g, x) == nil, "C04: removal of an unknown id removes a message")
			case 2:
				m.q.UpdatePriority(g, x, sym.I64("newprio"))
			}
		case 5:
			if len(m.in) == 0 {
				sym.Stop()
			}
			k := sym.Choose("which", len(m.in))
			it := m.q.GetByID(m.in[k].group, m.in[k].id)
			sym.Assert(it != nil, "C04: lookup by id does not find a waiting message")
			sym.Assert(sym.And(it.ID == m.in[k].id, it.Priority == m.in[k].prio), "C04: lookup by id returns something else")
		}
	}
	m.checkLen(true)
	for len(m.in) > 0 {
		m.fdeq(f, false, true)
		m.checkLen(true)
	}
	m.fdeq(f, false, true)
	sym.Reach("drained")
}

// Arbitrary ids and priorities within one group.
func C04_group() {
	m := &mem{q: queue.NewFairPriorityQueue()}
	f := &fairness{groups: []string{"g", "h"}}
	n := size(4, 5)
	for i := 0; i < n; i++ {
		id := sym.U64("id")
		for _, o := range m.in {
			sym.Assume(o.id != id)
		}
		m.fadd(f, "g", id, sym.I64("prio"))
	}
	m.fadd(f, "h", 7777, 0)
	for _, o := range m.in[:n] {
		sym.Assume(o.id != 7777)
	}
	for len(m.in) > 0 {
		m.fdeq(f, false, true)
		m.checkLen(true)
	}
	sym.Reach("drained")
}
