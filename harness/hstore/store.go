// Package hstore checks the Raft log and stable store on Badger.
package hstore

import (
	"time"

	"github.com/dgraph-io/badger/v4"
	"github.com/hashicorp/raft"
	badgerstore "github.com/kgantsov/doq/pkg/badger-store"
	"github.com/kgantsov/doq/pkg/config"
	"github.com/kgantsov/doq/pkg/queue"
	"github.com/kgantsov/doq/pkg/zzverif/sym"
	"github.com/kgantsov/doq/pkg/zzverif/symenv"
	_ "github.com/kgantsov/doq/pkg/zzverif/symraft"
)

type store struct {
	db   *badger.DB
	s    *badgerstore.BadgerStore
	ents []*entry // what was written and not deleted
}

type entry struct {
	idx, term uint64
	data      string
	typ       raft.LogType
	at        time.Time
	dead      bool
}

func open() *store {
	st := &store{db: symenv.NewDB()}
	st.attach()
	return st
}

func (st *store) attach() {
	s, err := badgerstore.New(st.db, badgerstore.Options{})
	sym.Assert(err == nil, "C19: the store cannot be opened")
	st.s = s
}

// index is a log index; Raft counts from 1 and the store orders indexes below
// 2^63 (the last index is searched for below the key "logs\xff").
func index(l string) uint64 { return sym.U64R(l, 1, 1<<63) }

func mk(idx uint64, n int) *entry {
	e := &entry{idx: idx, term: sym.U64("term"), data: sym.Str("data", n), typ: raft.LogType(sym.U8("kind"))}
	if n == 1 {
		e.at = time.Unix(1700000000, 5000).UTC()
	}
	return e
}

func (e *entry) log() *raft.Log {
	return &raft.Log{Index: e.idx, Term: e.term, Type: e.typ, Data: []byte(e.data), AppendedAt: e.at}
}

func (st *store) put(es ...*entry) {
	var ls []*raft.Log
	for _, e := range es {
		ls = append(ls, e.log())
	}
	var err error
	if len(ls) == 1 {
		err = st.s.StoreLog(ls[0])
	} else {
		err = st.s.StoreLogs(ls)
	}
	sym.Assert(err == nil, "C19: storing log entries fails")
	for _, e := range es {
		st.note(e)
	}
}

// note records e as the entry at its index.
func (st *store) note(e *entry) {
	for _, o := range st.ents {
		if !o.dead && o.idx == e.idx {
			o.dead = true
		}
	}
	st.ents = append(st.ents, e)
}

// verify compares everything the store answers with what was written.
func (st *store) verify() {
	var lo, hi uint64
	for _, e := range st.ents {
		if e.dead {
			continue
		}
		if lo == 0 {
			lo, hi = e.idx, e.idx
			continue
		}
		lo = sym.IteU64(e.idx < lo, e.idx, lo)
		hi = sym.IteU64(e.idx > hi, e.idx, hi)
	}
	f, err := st.s.FirstIndex()
	sym.Assert(err == nil && f == lo, "C19: the first index is not the smallest stored index")
	l, err := st.s.LastIndex()
	sym.Assert(err == nil && l == hi, "C19: the last index is not the largest stored index")
	if lo == 0 {
		sym.Reach("empty")
	}
	sym.Observe("first", f)
	sym.Observe("last", l)
	for _, e := range st.ents {
		var g raft.Log
		err := st.s.GetLog(e.idx, &g)
		if e.dead {
			over := false
			for _, o := range st.ents {
				if !o.dead && o.idx == e.idx {
					over = true
				}
			}
			if !over {
				sym.Assert(err == raft.ErrLogNotFound, "C19: a deleted entry is still there")
				sym.Reach("deleted entry")
			}
			continue
		}
		sym.Assert(err == nil, "C19: a stored entry cannot be read")
		sym.Assert(g.Index == e.idx && g.Term == e.term && g.Type == e.typ, "C19: a stored entry is read back with another index, term or type")
		sym.Assert(sym.StrEq(string(g.Data), e.data), "C19: a stored entry is read back with other data")
		sym.Assert(g.AppendedAt.Equal(e.at), "C19: a stored entry is read back with another time")
		sym.Reach("read back")
	}
}

// Three entries with any distinct or equal indexes below 2^63, terms, kinds
// and data of 0 to 2 bytes, written one by one or as a batch, read back; any
// other index reports not found; first and last index are right, also after
// reopening the database.
func C19_write() {
	st := open()
	st.verify()
	n := 2
	if sym.Deep() {
		n = 3
	}
	var es []*entry
	for i := 0; i < n; i++ {
		es = append(es, mk(index("idx"), i))
	}
	if sym.Choose("batch", 2) == 1 {
		st.put(es...)
	} else {
		for _, e := range es {
			st.put(e)
		}
	}
	st.verify()
	q := sym.U64("other")
	for _, e := range es {
		sym.Assume(q != e.idx)
	}
	var g raft.Log
	sym.Assert(st.s.GetLog(q, &g) == raft.ErrLogNotFound, "C19: an index never written is found")
	if sym.Choose("reopen", 2) == 1 {
		st.db = symenv.Reopen(st.db)
		st.attach()
		st.verify()
	}
}

// Any inclusive range deleted from a log of five (thorough: eight) entries with any increasing
// indexes below 2^63: exactly the entries of the range are gone, stable values
// and queue data are still there.
func C19_range() {
	st := open()
	sym.Assert(st.s.Set([]byte("k"), []byte("v")) == nil, "C19: a stable value cannot be written")
	symenv.RawSet(st.db, []byte("messages:q:12345678"), []byte("m"))
	symenv.RawSet(st.db, []byte("logr"), []byte("m"))
	symenv.RawSet(st.db, []byte("lot"), []byte("m"))
	n := 5
	if sym.Deep() {
		n = 8
	}
	last := uint64(0)
	for i := 0; i < n; i++ {
		x := index("idx")
		sym.Assume(x > last)
		last = x
		st.put(mk(x, i%2))
	}
	lo, hi := sym.U64("min"), sym.U64("max")
	st.del(lo, hi)
	st.verify()
	v, err := st.s.Get([]byte("k"))
	sym.Assert(err == nil && string(v) == "v", "C19: deleting log entries removed a stable value")
	for _, k := range []string{"messages:q:12345678", "logr", "lot"} {
		sym.Assert(symenv.HasKey(st.db, []byte(k)), "C19: deleting log entries removed other data")
	}
	live := 0
	for _, e := range st.ents {
		if !e.dead {
			live++
		}
	}
	sym.Assert(symenv.Keys(st.db) == live+4, "C19: the database holds something else")
}

func (st *store) del(lo, hi uint64) {
	err := st.s.DeleteRange(lo, hi)
	sym.Assert(err == nil, "C19: deleting a range fails")
	for _, e := range st.ents {
		if !e.dead && e.idx >= lo && e.idx <= hi {
			e.dead = true
		}
	}
}

// A history of three steps, each a write of one entry or of a batch of two at
// any indexes (existing ones are overwritten), or a range deletion with any
// bounds; everything is checked at the end (thorough: after every step, and
// the history starts with an entry), and again after an optional restart.
func C19_history() {
	st := open()
	if sym.Deep() {
		st.put(mk(index("idx"), 1))
	}
	for i := 0; i < 3; i++ {
		switch sym.Choose("step", 3) {
		case 0:
			st.put(mk(index("idx"), i%2))
		case 1:
			st.put(mk(index("idx"), 0), mk(index("idx"), 1))
		case 2:
			st.del(sym.U64("min"), sym.U64("max"))
		}
		if sym.Deep() || i == 2 {
			st.verify()
		}
	}
	if sym.Choose("reopen", 2) == 1 {
		st.db = symenv.Reopen(st.db)
		st.attach()
		st.verify()
	}
}

// Long logs (102, thorough also 205 entries) with the range starting and
// ending near either end and near multiples of the deletion batch of 100.
func C19_long() {
	st := open()
	n := 102
	if sym.Deep() && sym.Choose("longer", 2) == 1 {
		n = 205
	}
	base := uint64(sym.Choose("base", 2))*0x7fff_ffff_ff00 + 1
	var es []*entry
	for i := 0; i < n; i++ {
		es = append(es, &entry{idx: base + uint64(i), term: 1, data: "d", typ: raft.LogCommand})
	}
	for i := 0; i < n; i += 50 {
		j := i + 50
		if j > n {
			j = n
		}
		st.put(es[i:j]...)
	}
	lo := []uint64{0, base, base + 1, base + 2}[sym.Choose("from", 4)]
	hi := base + uint64(n) - 7 + uint64(sym.Choose("to", 9))
	err := st.s.DeleteRange(lo, hi)
	sym.Assert(err == nil, "C19: deleting a range fails")
	sym.Reach("deleted")
	var first, last uint64
	left := 0
	for _, e := range es {
		if e.idx >= lo && e.idx <= hi {
			continue
		}
		left++
		if first == 0 {
			first = e.idx
		}
		last = e.idx
	}
	f, _ := st.s.FirstIndex()
	l, _ := st.s.LastIndex()
	sym.Observe("first", f)
	sym.Observe("last", l)
	sym.Observe("keys", symenv.Keys(st.db))
	sym.Assert(symenv.Keys(st.db) == left, "C19: a range deletion removed too much or too little")
	sym.Assert(f == first && l == last, "C19: wrong first or last index after a range deletion")
	for _, i := range []int{0, 1, 2, 98, 99, 100, 101, n - 1} {
		var g raft.Log
		err := st.s.GetLog(es[i].idx, &g)
		in := es[i].idx >= lo && es[i].idx <= hi
		sym.Assert((err == nil) == !in, "C19: a range deletion removed the wrong entries")
	}
}

// A batch of two entries or a range deletion whose storage write fails is
// reported as an error and changes nothing.
func C19_failure() {
	sym.ModelOnly()
	st := open()
	st.put(mk(5, 1), mk(6, 0), mk(7, 1))
	symenv.FaultBudget = 1
	symenv.FaultCommit = true
	symenv.FaultSet = true
	var err error
	a, b := mk(7, 0), mk(8, 1)
	del := sym.Choose("delete", 2) == 1
	if del {
		err = st.s.DeleteRange(5, 6)
	} else {
		err = st.s.StoreLogs([]*raft.Log{a.log(), b.log()})
	}
	hit := symenv.Faults > 0
	symenv.FaultBudget = 0
	sym.Assert((err != nil) == hit, "C19: a failed write is not reported, or a good one is")
	if !hit {
		if del {
			st.ents[0].dead, st.ents[1].dead = true, true
		} else {
			st.note(a)
			st.note(b)
		}
	} else {
		sym.Reach("failed write")
	}
	st.verify()
}

// A batch larger than a storage transaction (4 of at most 2 or 3): it is stored
// completely, or an error is reported and what there was before is still there.
func C19_big() {
	sym.ModelOnly()
	st := open()
	st.put(mk(2, 1), mk(3, 0))
	symenv.SetMaxBatch(st.db, 2+sym.Choose("at most", 2))
	var es []*entry
	var ls []*raft.Log
	at := uint64(3 + sym.Choose("from", 2))
	for i := 0; i < 4; i++ {
		es = append(es, mk(at+uint64(i), i%2))
		ls = append(ls, es[i].log())
	}
	err := st.s.StoreLogs(ls)
	symenv.SetMaxBatch(st.db, 0)
	if err == nil {
		for _, e := range es {
			st.note(e)
		}
		st.verify()
		return
	}
	sym.Reach("refused")
	var g raft.Log
	sym.Assert(st.s.GetLog(2, &g) == nil && g.Term == st.ents[0].term, "C19: a refused batch removes another entry")
	err = st.s.GetLog(3, &g)
	sym.Assert(err == nil && (g.Term == st.ents[1].term || g.Term == es[0].term), "C19: a refused batch removes another entry")
	f, err := st.s.FirstIndex()
	sym.Assert(err == nil && f == 2, "C19: the first index is not the smallest stored index")
}

// Three stable writes with any keys of 0 to 3 bytes and any values of 1 to 2
// bytes: every key reads as its last value, an unwritten one as not found,
// also after reopening; the log is unaffected.
func C20_values() {
	st := open()
	st.put(mk(9, 1))
	type kv struct{ k, v string }
	var ws []kv
	n := 3
	for i := 0; i < n; i++ {
		w := kv{sym.Str("key", sym.Choose("key length", 4)), sym.Str("val", 1+i%2)}
		key, val := []byte(w.k), []byte(w.v)
		sym.Assert(st.s.Set(key, val) == nil, "C20: a stable write fails")
		// the caller may reuse its buffers
		for j := range key {
			key[j] ^= 0x55
		}
		for j := range val {
			val[j] ^= 0x55
		}
		ws = append(ws, w)
	}
	if sym.Choose("reopen", 2) == 1 {
		st.db = symenv.Reopen(st.db)
		st.attach()
	}
	q := ws[0].k
	if c := sym.Choose("ask", n+1); c < n {
		q = ws[c].k
	} else {
		q = sym.Str("asked", sym.Choose("asked length", 4))
	}
	v, err := st.s.Get([]byte(q))
	for i := n - 1; i >= 0; i-- {
		if ws[i].k == q {
			sym.Assert(err == nil, "C20: a written value is not found")
			sym.Assert(sym.StrEq(string(v), ws[i].v), "C20: a key does not read as its last value")
			sym.Reach("value read")
			// the answer is the caller's
			for j := range v {
				v[j] ^= 0x55
			}
			v2, _ := st.s.Get([]byte(q))
			sym.Assert(sym.StrEq(string(v2), ws[i].v), "C20: changing an answer changes the stored value")
			st.verify()
			return
		}
	}
	sym.Assert(err != nil && err.Error() == "not found", "C20: a key that was never written is not reported as not found")
	sym.Reach("not found")
	st.verify()
}

// Two 64-bit integers under any keys of up to 2 bytes round-trip.
func C20_uint64() {
	st := open()
	k1, k2 := sym.Str("key", sym.Choose("len", 3)), sym.Str("key", sym.Choose("len", 3))
	a, b := sym.U64("a"), sym.U64("b")
	_, err := st.s.GetUint64([]byte(k1))
	sym.Assert(err != nil && err.Error() == "not found", "C20: an integer never written is not reported as not found")
	sym.Assert(st.s.SetUint64([]byte(k1), a) == nil, "C20: an integer cannot be written")
	sym.Assert(st.s.SetUint64([]byte(k2), b) == nil, "C20: an integer cannot be written")
	x, err := st.s.GetUint64([]byte(k1))
	y, err2 := st.s.GetUint64([]byte(k2))
	sym.Assert(err == nil && err2 == nil, "C20: an integer cannot be read")
	if k1 == k2 {
		a = b
		sym.Reach("same key")
	}
	sym.Assert(x == a, "C20: an integer does not round-trip")
	sym.Assert(y == b, "C20: an integer does not round-trip")
	sym.Reach("round trip")
}

// A stable write under any key of up to 3 bytes leaves the log, a queue with
// a message and the queue configuration in the same database alone, and the
// other way round.
func C20_shared() {
	st := open()
	key := sym.Str("key", sym.Choose("len", 4))
	first := sym.Choose("first", 2) == 1
	if first {
		sym.Assert(st.s.Set([]byte(key), []byte("v")) == nil, "C20: a stable write fails")
	}
	st.put(mk(3, 1))
	cfg := &config.Config{}
	cfg.Queue.AcknowledgementTimeout = 600
	cfg.Queue.AcknowledgementCheckInterval = 5
	cfg.Queue.QueueStats.WindowSide = 3
	qm := queue.NewQueueManager(st.db, cfg, nil)
	q, err := qm.Create("delayed", "q")
	sym.Assert(err == nil, "C20: a queue cannot be created")
	_, err = q.Enqueue(7, "default", 1, "hello")
	sym.Assert(err == nil, "C20: enqueue fails")
	if !first {
		sym.Assert(st.s.Set([]byte(key), []byte("v")) == nil, "C20: a stable write fails")
	}
	st.verify()
	v, err := st.s.Get([]byte(key))
	sym.Assert(err == nil && string(v) == "v", "C20: a stable value does not survive queue and log writes")
	qm2 := queue.NewQueueManager(st.db, cfg, nil)
	qm2.LoadQueues()
	sym.Assert(len(qm2.GetQueues()) == 1, "C20: a stable value shows up as a queue")
	q2, err := qm2.GetQueue("q")
	sym.Assert(err == nil, "C20: a queue is lost")
	m, err := q2.Dequeue(true)
	sym.Assert(err == nil && m.ID == 7 && m.Content == "hello" && m.Priority == 1, "C20: a message is lost or altered")
	_, err = q2.Dequeue(true)
	sym.Assert(err != nil, "C20: a stable value shows up as a message")
	sym.Assert(qm2.Delete("q") == nil, "C20: deleting a queue fails")
	v, err = st.s.Get([]byte(key))
	sym.Assert(err == nil && string(v) == "v", "C20: deleting a queue removed a stable value")
	st.verify()
	sym.Reach("shared")
}
