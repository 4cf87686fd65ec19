package symenv

import (
	"bytes"
	"errors"

	"github.com/dgraph-io/badger/v4"
	"github.com/kgantsov/doq/pkg/zzverif/sym"
)

// RealBadger makes native replays run on the real store instead of the model.
var RealBadger bool

type kv struct {
	key, val []byte
}

type commitRec struct {
	key []byte
	ver int
}

type mdb struct {
	ents   []*kv // immutable snapshot
	ver    int
	log    []commitRec
	closed bool
	max    int
	dir    string
}

type pend struct {
	at  []byte // key at the time of the call
	key []byte // the caller's slice, read again at commit
	val []byte
	del bool
}

type mtxn struct {
	db        *mdb
	update    bool
	ents      []*kv
	ver       int
	pending   []*pend
	reads     [][]byte
	done      bool
	iterators int
	count     int
}

type mitem struct {
	key, val []byte
}

type miter struct {
	txn    *mtxn
	opt    badger.IteratorOptions
	all    []*kv // in iteration order
	pos    int
	item   *badger.Item
	data   []*badger.Item
	waste  []*badger.Item
	closed bool
}

var (
	dbs   = map[*badger.DB]*mdb{}
	txns  = map[*badger.Txn]*mtxn{}
	items = map[*badger.Item]*mitem{}
	iters = map[*badger.Iterator]*miter{}
	disks = map[string]*mdb{}
)

// NewDB makes an empty store.
func NewDB() *badger.DB {
	if RealBadger {
		return realOpen("")
	}
	return newHandle(&mdb{max: 100000})
}

func newHandle(m *mdb) *badger.DB {
	lock()
	defer unlock()
	h := new(badger.DB)
	dbs[h] = m
	return h
}

// Reopen is the store as a new process would find it.
func Reopen(db *badger.DB) *badger.DB {
	if RealBadger {
		return realReopen(db)
	}
	lock()
	m := dbs[db]
	m.closed = true
	n := &mdb{ents: m.ents, ver: m.ver, max: m.max, dir: m.dir}
	unlock()
	return newHandle(n)
}

// Clone is a copy of the store.
func Clone(db *badger.DB) *badger.DB {
	if RealBadger {
		n := realOpen("")
		db.View(func(t *badger.Txn) error {
			it := t.NewIterator(badger.DefaultIteratorOptions)
			defer it.Close()
			for it.Rewind(); it.Valid(); it.Next() {
				v, _ := it.Item().ValueCopy(nil)
				RawSet(n, it.Item().KeyCopy(nil), v)
			}
			return nil
		})
		return n
	}
	lock()
	m := dbs[db]
	n := &mdb{ents: m.ents, ver: m.ver, max: m.max}
	unlock()
	return newHandle(n)
}

// SetMaxBatch scales down the transaction size limit.
func SetMaxBatch(db *badger.DB, n int) {
	if RealBadger {
		sym.ModelOnly()
		return
	}
	dbs[db].max = n
}

// Keys counts the stored keys.
func Keys(db *badger.DB) int {
	if RealBadger {
		n := 0
		db.View(func(t *badger.Txn) error {
			it := t.NewIterator(badger.DefaultIteratorOptions)
			defer it.Close()
			for it.Rewind(); it.Valid(); it.Next() {
				n++
			}
			return nil
		})
		return n
	}
	return len(dbs[db].ents)
}

// HasKey tells whether the key is stored.
func HasKey(db *badger.DB, key []byte) bool {
	if RealBadger {
		err := db.View(func(t *badger.Txn) error { _, err := t.Get(key); return err })
		return err == nil
	}
	for _, e := range dbs[db].ents {
		if sym.BytesEq(e.key, key) {
			return true
		}
	}
	return false
}

// RawSet writes a key directly.
func RawSet(db *badger.DB, key, val []byte) {
	if RealBadger {
		db.Update(func(t *badger.Txn) error { return t.Set(key, val) })
		return
	}
	m := dbs[db]
	m.ents = append(append([]*kv{}, m.ents...), &kv{append([]byte{}, key...), append([]byte{}, val...)})
}

// ---- faults

// ErrFault is the injected storage error.
var ErrFault = errors.New("injected storage failure")

// Crash is the panic value of an injected crash.
type Crash struct{}

var (
	FaultBudget int
	FaultCommit bool
	FaultGet    bool
	FaultSet    bool
	FaultValue  bool
	CrashBudget int
	Faults      int // injected so far
	Crashes     int
)

func fault(kind string, on bool) bool {
	if !on || FaultBudget <= 0 {
		return false
	}
	if sym.Choose("fault "+kind, 2) == 1 {
		FaultBudget--
		Faults++
		return true
	}
	return false
}

// Crashed runs f and reports whether an injected crash ended it.
func Crashed(f func()) (crashed bool) {
	if RealBadger {
		sym.ModelOnly()
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(Crash); ok {
				crashed = true
				return
			}
			panic(r)
		}
	}()
	f()
	return false
}

// OpenHook is told about the options a store is opened with; GCHook about
// garbage collections.
var (
	OpenHook func(badger.Options) error
	GCHook   func(*badger.DB, float64) error
)

func init() { OnReset(func() { OpenHook, GCHook = nil, nil }) }

// ---- badger API

//sym:replace github.com/dgraph-io/badger/v4.Open
func BadgerOpen(opt badger.Options) (*badger.DB, error) {
	if RealBadger {
		return realOpen(opt.Dir), nil
	}
	if OpenHook != nil {
		if err := OpenHook(opt); err != nil {
			return nil, err
		}
	}
	lock()
	m := disks[opt.Dir]
	if m == nil {
		m = &mdb{max: 100000, dir: opt.Dir}
		disks[opt.Dir] = m
	}
	unlock()
	m.closed = false
	return newHandle(m), nil
}

//sym:replace (*github.com/dgraph-io/badger/v4.DB).Close
func DBClose(db *badger.DB) error {
	if RealBadger {
		return db.Close()
	}
	lock()
	defer unlock()
	dbs[db].closed = true
	return nil
}

//sym:replace (*github.com/dgraph-io/badger/v4.DB).IsClosed
func DBIsClosed(db *badger.DB) bool {
	if RealBadger {
		return db.IsClosed()
	}
	lock()
	defer unlock()
	return dbs[db].closed
}

//sym:replace (*github.com/dgraph-io/badger/v4.DB).RunValueLogGC
func DBRunValueLogGC(db *badger.DB, r float64) error {
	if RealBadger {
		return db.RunValueLogGC(r)
	}
	if GCHook != nil {
		return GCHook(db, r)
	}
	return badger.ErrNoRewrite
}

//sym:replace (*github.com/dgraph-io/badger/v4.DB).Sync
func DBSync(db *badger.DB) error { return nil }

//sym:replace (*github.com/dgraph-io/badger/v4.DB).Size
func DBSize(db *badger.DB) (int64, int64) {
	if RealBadger {
		return db.Size()
	}
	return 0, 0
}

//sym:replace (*github.com/dgraph-io/badger/v4.DB).NewTransaction
func DBNewTransaction(db *badger.DB, update bool) *badger.Txn {
	if RealBadger {
		return db.NewTransaction(update)
	}
	lock()
	defer unlock()
	m := dbs[db]
	t := new(badger.Txn)
	txns[t] = &mtxn{db: m, update: update, ents: m.ents, ver: m.ver}
	return t
}

//sym:replace (*github.com/dgraph-io/badger/v4.DB).View
func DBView(db *badger.DB, fn func(*badger.Txn) error) error {
	if RealBadger {
		return db.View(fn)
	}
	if DBIsClosed(db) {
		return badger.ErrDBClosed
	}
	sym.Yield()
	t := DBNewTransaction(db, false)
	defer TxnDiscard(t)
	return fn(t)
}

//sym:replace (*github.com/dgraph-io/badger/v4.DB).Update
func DBUpdate(db *badger.DB, fn func(*badger.Txn) error) error {
	if RealBadger {
		return db.Update(fn)
	}
	if DBIsClosed(db) {
		return badger.ErrDBClosed
	}
	sym.Yield()
	t := DBNewTransaction(db, true)
	defer TxnDiscard(t)
	if err := fn(t); err != nil {
		return err
	}
	return TxnCommit(t)
}

func txnOf(t *badger.Txn) *mtxn {
	lock()
	defer unlock()
	return txns[t]
}

func itemOf(t *badger.Item) *mitem {
	lock()
	defer unlock()
	return items[t]
}

//sym:replace (*github.com/dgraph-io/badger/v4.Txn).Discard
func TxnDiscard(t *badger.Txn) {
	if RealBadger {
		t.Discard()
		return
	}
	m := txnOf(t)
	if m.done {
		return
	}
	if m.iterators > 0 {
		panic("Unclosed iterator at time of Txn.Discard.")
	}
	m.done = true
}

func (m *mtxn) find(key []byte) *pend {
	for i := len(m.pending) - 1; i >= 0; i-- {
		if sym.BytesEq(m.pending[i].at, key) {
			return m.pending[i]
		}
	}
	return nil
}

func (m *mtxn) modify(p *pend) error {
	if !m.update {
		return badger.ErrReadOnlyTxn
	}
	if m.done {
		return badger.ErrDiscardedTxn
	}
	if len(p.key) == 0 {
		return badger.ErrEmptyKey
	}
	if fault("set", FaultSet) {
		return ErrFault
	}
	if m.count+1 >= m.db.max {
		return badger.ErrTxnTooBig
	}
	m.count++
	p.at = append([]byte{}, p.key...)
	for i, q := range m.pending {
		if sym.BytesEq(q.at, p.at) {
			m.pending[i] = p
			return nil
		}
	}
	m.pending = append(m.pending, p)
	return nil
}

//sym:replace (*github.com/dgraph-io/badger/v4.Txn).Set
func TxnSet(t *badger.Txn, key, val []byte) error {
	if RealBadger {
		return t.Set(key, val)
	}
	return txnOf(t).modify(&pend{key: key, val: val})
}

//sym:replace (*github.com/dgraph-io/badger/v4.Txn).SetEntry
func TxnSetEntry(t *badger.Txn, e *badger.Entry) error {
	if RealBadger {
		return t.SetEntry(e)
	}
	return txnOf(t).modify(&pend{key: e.Key, val: e.Value})
}

//sym:replace (*github.com/dgraph-io/badger/v4.Txn).Delete
func TxnDelete(t *badger.Txn, key []byte) error {
	if RealBadger {
		return t.Delete(key)
	}
	return txnOf(t).modify(&pend{key: key, del: true})
}

//sym:replace (*github.com/dgraph-io/badger/v4.Txn).Get
func TxnGet(t *badger.Txn, key []byte) (*badger.Item, error) {
	if RealBadger {
		return t.Get(key)
	}
	m := txnOf(t)
	if len(key) == 0 {
		return nil, badger.ErrEmptyKey
	}
	if m.done {
		return nil, badger.ErrDiscardedTxn
	}
	if fault("get", FaultGet) {
		return nil, ErrFault
	}
	if m.update {
		if p := m.find(key); p != nil && bytes.Equal(p.key, key) {
			if p.del {
				return nil, badger.ErrKeyNotFound
			}
			return newItem(&mitem{key: key, val: p.val}), nil
		}
		m.reads = append(m.reads, append([]byte{}, key...))
	}
	for _, e := range m.ents {
		if sym.BytesEq(e.key, key) {
			return newItem(&mitem{key: key, val: append([]byte{}, e.val...)}), nil
		}
	}
	return nil, badger.ErrKeyNotFound
}

func newItem(m *mitem) *badger.Item {
	lock()
	defer unlock()
	i := new(badger.Item)
	items[i] = m
	return i
}

//sym:replace (*github.com/dgraph-io/badger/v4.Txn).Commit
func TxnCommit(t *badger.Txn) error {
	if RealBadger {
		return t.Commit()
	}
	m := txnOf(t)
	if m.done {
		return badger.ErrDiscardedTxn
	}
	if m.iterators > 0 {
		panic("Unclosed iterator at time of Txn.Discard.")
	}
	m.done = true
	if len(m.pending) == 0 {
		return nil
	}
	if fault("commit", FaultCommit) {
		return ErrFault
	}
	crash := 0
	if CrashBudget > 0 {
		crash = sym.Choose("crash", 3)
		if crash > 0 {
			CrashBudget--
			Crashes++
		}
		if crash == 1 {
			panic(Crash{})
		}
	}
	sym.Yield()
	lock()
	db := m.db
	if db.ver > m.ver {
		for _, c := range db.log {
			if c.ver <= m.ver {
				continue
			}
			for _, r := range m.reads {
				if sym.BytesEq(r, c.key) {
					unlock()
					return badger.ErrConflict
				}
			}
		}
	}
	db.ver++
	ents := append([]*kv{}, db.ents...)
	for _, p := range m.pending {
		key := append([]byte{}, p.key...)
		db.log = append(db.log, commitRec{key, db.ver})
		at := -1
		for i, e := range ents {
			if sym.BytesEq(e.key, key) {
				at = i
				break
			}
		}
		switch {
		case p.del && at >= 0:
			ents = append(append([]*kv{}, ents[:at]...), ents[at+1:]...)
		case p.del:
		case at >= 0:
			ents[at] = &kv{key, append([]byte{}, p.val...)}
		default:
			ents = append(ents, &kv{key, append([]byte{}, p.val...)})
		}
	}
	db.ents = ents
	unlock()
	if crash == 2 {
		panic(Crash{})
	}
	return nil
}

// ---- items

//sym:replace (*github.com/dgraph-io/badger/v4.Item).Key
func ItemKey(i *badger.Item) []byte {
	if RealBadger {
		return i.Key()
	}
	return itemOf(i).key
}

//sym:replace (*github.com/dgraph-io/badger/v4.Item).KeyCopy
func ItemKeyCopy(i *badger.Item, dst []byte) []byte {
	if RealBadger {
		return i.KeyCopy(dst)
	}
	return append(dst[:0], itemOf(i).key...)
}

//sym:replace (*github.com/dgraph-io/badger/v4.Item).KeySize
func ItemKeySize(i *badger.Item) int64 {
	if RealBadger {
		return i.KeySize()
	}
	return int64(len(itemOf(i).key))
}

//sym:replace (*github.com/dgraph-io/badger/v4.Item).Value
func ItemValue(i *badger.Item, fn func([]byte) error) error {
	if RealBadger {
		return i.Value(fn)
	}
	if fault("value", FaultValue) {
		return ErrFault
	}
	if fn == nil {
		return nil
	}
	return fn(itemOf(i).val)
}

//sym:replace (*github.com/dgraph-io/badger/v4.Item).ValueCopy
func ItemValueCopy(i *badger.Item, dst []byte) ([]byte, error) {
	if RealBadger {
		return i.ValueCopy(dst)
	}
	if fault("value", FaultValue) {
		return nil, ErrFault
	}
	return append(dst[:0], itemOf(i).val...), nil
}

// ---- iterators (items are recycled as in badger: Item.Key is only valid
// until Next)

//sym:replace (*github.com/dgraph-io/badger/v4.Txn).NewIterator
func TxnNewIterator(t *badger.Txn, opt badger.IteratorOptions) *badger.Iterator {
	if RealBadger {
		return t.NewIterator(opt)
	}
	m := txnOf(t)
	if m.done {
		panic(badger.ErrDiscardedTxn)
	}
	m.iterators++
	it := &miter{txn: m, opt: opt}
	var all []*kv
	for _, e := range m.ents {
		hidden := false
		if m.update {
			hidden = m.find(e.key) != nil
		}
		if !hidden {
			all = append(all, e)
		}
	}
	for _, p := range m.pending {
		if !p.del {
			all = append(all, &kv{p.key, p.val})
		}
	}
	// sort
	for i := 1; i < len(all); i++ {
		for j := i; j > 0; j-- {
			c := bytes.Compare(all[j].key, all[j-1].key) < 0
			if opt.Reverse {
				c = !c
			}
			if !c {
				break
			}
			all[j], all[j-1] = all[j-1], all[j]
		}
	}
	it.all = all
	it.pos = len(all)
	lock()
	defer unlock()
	h := new(badger.Iterator)
	iters[h] = it
	return h
}

func iterOf(h *badger.Iterator) *miter {
	lock()
	defer unlock()
	return iters[h]
}

func (it *miter) fill() *badger.Item {
	e := it.all[it.pos]
	it.pos++
	var i *badger.Item
	var m *mitem
	if len(it.waste) > 0 {
		i = it.waste[0]
		it.waste = it.waste[1:]
		m = itemOf(i)
	} else {
		m = &mitem{}
		i = newItem(m)
	}
	m.key = append(m.key[:0], e.key...)
	m.val = append([]byte{}, e.val...)
	return i
}

func (it *miter) prefetch() {
	n := 2
	if it.opt.PrefetchValues && it.opt.PrefetchSize > 1 {
		n = it.opt.PrefetchSize
	}
	it.item = nil
	for c := 0; c < n && it.pos < len(it.all); c++ {
		i := it.fill()
		if it.item == nil {
			it.item = i
		} else {
			it.data = append(it.data, i)
		}
	}
}

//sym:replace (*github.com/dgraph-io/badger/v4.Iterator).Seek
func IteratorSeek(h *badger.Iterator, key []byte) {
	if RealBadger {
		h.Seek(key)
		return
	}
	it := iterOf(h)
	if it.txn.update && len(key) > 0 {
		it.txn.reads = append(it.txn.reads, append([]byte{}, key...))
	}
	it.waste = append(it.waste, it.data...)
	it.data = nil
	if len(key) == 0 {
		key = it.opt.Prefix
	}
	it.pos = 0
	if len(key) > 0 {
		for it.pos < len(it.all) {
			c := bytes.Compare(it.all[it.pos].key, key)
			if it.opt.Reverse && c <= 0 || !it.opt.Reverse && c >= 0 {
				break
			}
			it.pos++
		}
	}
	it.prefetch()
}

//sym:replace (*github.com/dgraph-io/badger/v4.Iterator).Rewind
func IteratorRewind(h *badger.Iterator) {
	if RealBadger {
		h.Rewind()
		return
	}
	IteratorSeek(h, nil)
}

//sym:replace (*github.com/dgraph-io/badger/v4.Iterator).Valid
func IteratorValid(h *badger.Iterator) bool {
	if RealBadger {
		return h.Valid()
	}
	it := iterOf(h)
	return it.item != nil && bytes.HasPrefix(itemOf(it.item).key, it.opt.Prefix)
}

//sym:replace (*github.com/dgraph-io/badger/v4.Iterator).ValidForPrefix
func IteratorValidForPrefix(h *badger.Iterator, prefix []byte) bool {
	if RealBadger {
		return h.ValidForPrefix(prefix)
	}
	it := iterOf(h)
	return IteratorValid(h) && bytes.HasPrefix(itemOf(it.item).key, prefix)
}

//sym:replace (*github.com/dgraph-io/badger/v4.Iterator).Item
func IteratorItem(h *badger.Iterator) *badger.Item {
	if RealBadger {
		return h.Item()
	}
	it := iterOf(h)
	if it.txn.update {
		it.txn.reads = append(it.txn.reads, append([]byte{}, itemOf(it.item).key...))
	}
	return it.item
}

//sym:replace (*github.com/dgraph-io/badger/v4.Iterator).Next
func IteratorNext(h *badger.Iterator) {
	if RealBadger {
		h.Next()
		return
	}
	it := iterOf(h)
	if it.item == nil {
		panic("runtime error: invalid memory address or nil pointer dereference")
	}
	it.waste = append(it.waste, it.item)
	it.item = nil
	if len(it.data) > 0 {
		it.item = it.data[0]
		it.data = it.data[1:]
	}
	if it.pos < len(it.all) {
		i := it.fill()
		if it.item == nil {
			it.item = i
		} else {
			it.data = append(it.data, i)
		}
	}
}

//sym:replace (*github.com/dgraph-io/badger/v4.Iterator).Close
func IteratorClose(h *badger.Iterator) {
	if RealBadger {
		h.Close()
		return
	}
	it := iterOf(h)
	if !it.closed {
		it.closed = true
		it.txn.iterators--
	}
}

// SetReal selects the real store for native replays.
func SetReal(real bool) { RealBadger = real }

// Reset forgets everything between replays.
func Reset() {
	Cleanup()
	lock()
	defer unlock()
	dbs = map[*badger.DB]*mdb{}
	txns = map[*badger.Txn]*mtxn{}
	items = map[*badger.Item]*mitem{}
	iters = map[*badger.Iterator]*miter{}
	disks = map[string]*mdb{}
	Ticks = nil
	Clock, Nano = 1700000000, 0
	ClockHook, SleepHook, FineHook = nil, nil, nil
	FaultBudget, CrashBudget, Faults, Crashes = 0, 0, 0, 0
	FaultCommit, FaultGet, FaultSet, FaultValue = false, false, false, false
	for _, f := range resets {
		f()
	}
}

var resets []func()

// OnReset registers the reset of another model.
func OnReset(f func()) { resets = append(resets, f) }
