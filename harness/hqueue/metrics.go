package hqueue

import (
	"fmt"

	"github.com/kgantsov/doq/pkg/queue"
	"github.com/kgantsov/doq/pkg/zzverif/sym"
	"github.com/kgantsov/doq/pkg/zzverif/symenv"
	"github.com/kgantsov/doq/pkg/zzverif/symprom"
)

// metrics is a world of two queues with exported metrics.
type metrics struct {
	*world
	qs     []*world
	n      map[string]*[4]int // successful enqueues, dequeues, acks, nacks
	gone   map[string]bool
	failed bool
}

func newMetrics() *metrics {
	w := newWorld(anyType(), "C31")
	w.cfg.Prometheus.Enabled = true
	m := &metrics{world: w, n: map[string]*[4]int{}, gone: map[string]bool{}}
	m.manage()
	for _, name := range []string{"q1", "q2"} {
		x := *w
		x.name = name
		x.msgs = nil
		m.qs = append(m.qs, &x)
		m.n[name] = &[4]int{}
	}
	return m
}

// manage starts a queue manager, as a node does with its own registry.
func (m *metrics) manage() {
	pm := queue.NewPrometheusMetrics(symprom.New(), "doq", "queues")
	m.qm = queue.NewQueueManager(m.db, m.cfg, pm)
	for _, x := range m.qs {
		x.qm, x.db = m.qm, m.db
	}
}

func (m *metrics) check() {
	for _, x := range m.qs {
		n := m.n[x.name]
		for i, c := range []string{"enqueue", "dequeue", "ack", "nack"} {
			sym.Assert(symprom.Value("doq_queues_"+c+"_total", x.name) == float64(n[i]), "C31: the "+c+" counter is not the number of successful operations")
		}
		r, u := 0, 0
		for _, y := range x.msgs {
			if y.st == waiting {
				r++
			} else if y.st == inflight {
				u++
			}
		}
		if m.gone[x.name] {
			r, u = 0, 0
		}
		sym.Assert(symprom.Value("doq_queues_ready_messages", x.name) == float64(r), "C31: the ready gauge is not the number of waiting messages")
		sym.Assert(symprom.Value("doq_queues_unacked_messages", x.name) == float64(u), "C31: the unacked gauge is not the number of in-flight messages")
		sym.Assert(symprom.Value("doq_queues_messages", x.name) == float64(r+u), "C31: the messages gauge is not the number of messages")
	}
}

// op is one operation; a storage failure may make it fail.
func (m *metrics) op(ops string, faults bool) {
	if faults {
		if !m.failed && sym.Bool("storage fails") {
			m.failed = true
			symenv.FaultBudget = 1
			symenv.FaultCommit, symenv.FaultGet, symenv.FaultSet = true, true, true
		}
		defer func() { symenv.FaultBudget = 0 }()
	}
	x := m.qs[0]
	n := m.n[x.name]
	pick := func() *message {
		if len(x.msgs) == 0 {
			sym.Stop()
		}
		return x.msgs[sym.Choose("which", len(x.msgs))]
	}
	switch o := ops[sym.Choose("op "+ops, len(ops))]; o {
	case 'e':
		if x.nextID == len(idTable) {
			sym.Stop()
		}
		y := &message{id: idTable[x.nextID], group: x.group(), prio: sym.I64("prio"), content: fmt.Sprint(x.nextID)}
		x.nextID++
		if _, err := x.q.Enqueue(y.id, y.group, y.prio, y.content); err == nil {
			x.msgs = append(x.msgs, y)
			n[0]++
			sym.Reach("enqueued")
		}
	case 'd', 'D':
		if r, err := x.q.Dequeue(o == 'D'); err == nil {
			y := x.byID(r.ID)
			y.st, y.deadline = inflight, m.now+x.timeout
			if o == 'D' {
				y.st = gone
			}
			n[1]++
			sym.Reach("dequeued")
		}
	case 'a':
		if y := pick(); x.q.Ack(y.id) == nil {
			y.st = gone
			n[2]++
			sym.Reach("acked")
		}
	case 'n':
		if y := pick(); x.q.Nack(y.id) == nil {
			y.st = waiting
			n[3]++
			sym.Reach("nacked")
		}
	case 'u':
		if y := pick(); x.q.UpdatePriority(y.id, 5) == nil {
			y.prio = 5
		}
	case 't':
		m.wait("wait")
		x.now = m.now
		f := symenv.Faults
		x.redeliver()
		if symenv.Faults > f {
			// checked again at the next one, without a failure
			symenv.FaultBudget = 0
			x.redeliver()
		}
	case 'r':
		m.restart()
	case 'x':
		if m.qm.Delete(x.name) == nil {
			m.gone[x.name] = true
			x.msgs = nil
			sym.Reach("deleted")
			symenv.FaultBudget = 0
			m.check()
			q, err := m.qm.Create(x.typ, x.name)
			if err != nil {
				sym.Stop()
			}
			x.q = q
			m.gone[x.name] = false
		}
	}
}

// restart: counters begin again, sizes are those of the storage.
func (m *metrics) restart() {
	symenv.FaultBudget = 0
	m.db = symenv.Reopen(m.db)
	symenv.Ticks = nil
	m.manage()
	m.qm.LoadQueues()
	for _, x := range m.qs {
		q, err := m.qm.GetQueue(x.name)
		if err != nil {
			sym.Stop()
		}
		x.q = q
		m.n[x.name] = &[4]int{}
		for _, y := range x.msgs {
			if y.st == inflight {
				y.st = waiting
			}
		}
	}
	sym.Reach("restarted")
}

func (m *metrics) start() {
	for i, x := range m.qs {
		x.create()
		for k := 0; k < 2-i; k++ {
			y := &message{id: idTable[x.nextID], group: "ga", prio: sym.I64("prio"), content: "c"}
			if x.typ != "fair" {
				y.group = "default"
			}
			x.nextID++
			if _, err := x.q.Enqueue(y.id, y.group, y.prio, y.content); err != nil {
				sym.Stop()
			}
			x.msgs = append(x.msgs, y)
			m.n[x.name][0]++
		}
	}
	m.check()
	x := m.qs[0]
	if r, err := x.q.Dequeue(false); err == nil {
		y := x.byID(r.ID)
		y.st, y.deadline = inflight, m.now+x.timeout
		m.n[x.name][1]++
	}
	m.check()
}

func (m *metrics) run(steps int, ops string, faults bool) {
	m.start()
	for i := 0; i < steps; i++ {
		m.op(ops, faults)
		m.check()
	}
	sym.Reach("checked")
}

// Two queues (delayed or fair) with 2 messages, one of them in flight if it is due, and
// 1 message; 3 operations on the first queue (thorough: 4): enqueue, dequeue with and without auto-acknowledge, ack, nack,
// redelivery check after any time, restart, deletion and creation. After each,
// the exported counters and gauges of both queues are checked.
func C31_history() { newMetrics().run(size(3, 4), "edDantrx", false) }

// The same with a storage failure in any one of the operations.
func C31_faults() {
	sym.ModelOnly()
	newMetrics().run(size(2, 3), "edDantx", true)
}
