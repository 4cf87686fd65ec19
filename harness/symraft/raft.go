package symraft

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"sync"
	"time"

	"github.com/hashicorp/go-msgpack/v2/codec"
	"github.com/hashicorp/raft"
	"github.com/kgantsov/doq/pkg/zzverif/sym"
	"github.com/kgantsov/doq/pkg/zzverif/symenv"
)

// Member is one node of the modelled Raft cluster.
type Member struct {
	ID       raft.ServerID
	Addr     raft.ServerAddress
	FSM      raft.FSM
	Conf     *raft.Config
	Logs     raft.LogStore
	Stable   raft.StableStore
	IsLeader bool
	Applied  int // entries of the log applied
	Answers  []interface{}
	leaderCh chan bool
	r        *raft.Raft
}

var (
	// Log holds the committed entries.
	Log []*raft.Log
	// Servers is the membership.
	Servers []raft.Server
	// Members are the nodes started so far.
	Members []*Member
	// LeaderAddr and LeaderID is what every node believes.
	LeaderAddr raft.ServerAddress
	LeaderID   raft.ServerID
	// Replicate makes every started node apply every entry.
	Replicate = true
	// Replay makes a node that starts apply the log from the given entry.
	Replay = -1

	// Snap is the newest snapshot; a node started with FromSnap set restores
	// it and applies what follows.
	Snap     *Snapshot
	FromSnap bool

	// FaultApply: replication may fail (not committed, or committed but unknown).
	FaultApply bool
	// FaultMember: a membership change may fail.
	FaultMember bool
	// FaultConf: reading the membership may fail.
	FaultConf bool
	// FailConf: reading the membership fails.
	FailConf bool
	// Budget limits the faults.
	Budget int
	Faults int
	// Changes counts the membership changes asked for.
	Changes int
	// Applies counts the commands given to Raft.
	Applies int

	// Bound and SnapDirs are the transport addresses and snapshot directories used.
	Bound, SnapDirs []string

	members = map[*raft.Raft]*Member{}
	mu      sync.Mutex
)

// ErrLost is the injected replication failure.
var ErrLost = raft.ErrLeadershipLost

func init() {
	symenv.OnReset(func() {
		Log, Servers, Members = nil, nil, nil
		Bound, SnapDirs = nil, nil
		LeaderAddr, LeaderID = "", ""
		Replicate, Replay = true, -1
		Snap, FromSnap = nil, false
		FaultApply, FaultMember, FaultConf, FailConf = false, false, false, false
		Budget, Faults, Changes, Applies = 0, 0, 0, 0
		mu.Lock()
		members = map[*raft.Raft]*Member{}
		mu.Unlock()
		encs, decs = map[*codec.Encoder]*mcodec{}, map[*codec.Decoder]*mcodec{}
	})
}

func fault(on bool, label string, n int) int {
	if !on || Budget <= 0 {
		return 0
	}
	c := sym.Choose(label, n)
	if c > 0 {
		Budget--
		Faults++
	}
	return c
}

// Of is the member behind a handle.
func Of(r *raft.Raft) *Member {
	mu.Lock()
	defer mu.Unlock()
	if m := members[r]; m != nil {
		return m
	}
	// a goroutine left over from an earlier replay
	return &Member{leaderCh: make(chan bool), r: r}
}

//sym:replace github.com/hashicorp/raft.NewTCPTransport
func NewTCPTransport(bind string, adv net.Addr, pool int, timeout time.Duration, out io.Writer) (*raft.NetworkTransport, error) {
	Bound = append(Bound, bind)
	return new(raft.NetworkTransport), nil
}

//sym:replace github.com/hashicorp/raft.NewFileSnapshotStore
func NewFileSnapshotStore(base string, retain int, out io.Writer) (*raft.FileSnapshotStore, error) {
	SnapDirs = append(SnapDirs, base)
	return new(raft.FileSnapshotStore), nil
}

//sym:replace github.com/hashicorp/raft.NewRaft
func NewRaft(conf *raft.Config, fsm raft.FSM, logs raft.LogStore, stable raft.StableStore, snaps raft.SnapshotStore, trans raft.Transport) (*raft.Raft, error) {
	if conf.LocalID == "" {
		return nil, fmt.Errorf("LocalID cannot be empty")
	}
	r := new(raft.Raft)
	m := &Member{ID: conf.LocalID, FSM: fsm, Conf: conf, Logs: logs, Stable: stable, leaderCh: make(chan bool, 1), r: r}
	mu.Lock()
	members[r] = m
	mu.Unlock()
	Members = append(Members, m)
	for _, s := range Servers {
		if s.ID == conf.LocalID {
			m.Addr = s.Address
		}
	}
	if FromSnap && Snap != nil {
		if err := fsm.Restore(io.NopCloser(bytes.NewReader(append([]byte{}, Snap.Data...)))); err != nil {
			return nil, fmt.Errorf("failed to load any existing snapshots")
		}
		m.Applied = Snap.Index
		m.CatchUp()
	} else if Replay >= 0 {
		m.Applied = Replay
		m.CatchUp()
	} else {
		m.Applied = len(Log)
	}
	return r, nil
}

// Snapshot is what a snapshot of the first Index commands wrote.
type Snapshot struct {
	Index int
	Data  []byte
}

type sink struct{ buf bytes.Buffer }

func (s *sink) Write(p []byte) (int, error) { return s.buf.Write(p) }
func (s *sink) Close() error                { return nil }
func (s *sink) ID() string                  { return "snapshot" }
func (s *sink) Cancel() error               { return nil }

// TakeSnapshot makes the member write a snapshot of its state.
func (m *Member) TakeSnapshot() {
	f, err := m.FSM.Snapshot()
	if err != nil {
		return
	}
	s := &sink{}
	if f.Persist(s) == nil {
		Snap = &Snapshot{Index: m.Applied, Data: s.buf.Bytes()}
	}
	f.Release()
}

// CatchUp applies what is committed and not applied yet.
func (m *Member) CatchUp() {
	for m.Applied < len(Log) {
		l := Log[m.Applied]
		m.Applied++
		a := m.FSM.Apply(&raft.Log{Index: l.Index, Term: l.Term, Type: l.Type, Data: append([]byte{}, l.Data...), AppendedAt: l.AppendedAt})
		m.Answers = append(m.Answers, a)
	}
}

// Commit appends a command to the log and applies it everywhere.
func Commit(data []byte) *raft.Log {
	l := &raft.Log{Index: uint64(len(Log) + 1), Term: 1, Type: raft.LogCommand, Data: append([]byte{}, data...)}
	Log = append(Log, l)
	return l
}

type future struct {
	err   error
	resp  interface{}
	asked bool
	index uint64
	conf  raft.Configuration
}

func (f *future) Error() error { f.asked = true; return f.err }

// Response is only there once the command has been applied.
func (f *future) Response() interface{} {
	if !f.asked {
		return nil
	}
	return f.resp
}
func (f *future) Index() uint64                     { return f.index }
func (f *future) Configuration() raft.Configuration { return f.conf }

//sym:replace (*github.com/hashicorp/raft.Raft).Apply
func RaftApply(r *raft.Raft, cmd []byte, timeout time.Duration) raft.ApplyFuture {
	m := Of(r)
	Applies++
	if !m.IsLeader {
		return &future{err: raft.ErrNotLeader}
	}
	switch fault(FaultApply, "replication fault", 3) {
	case 1:
		return &future{err: ErrLost}
	case 2:
		Commit(cmd)
		m.CatchUp()
		return &future{err: ErrLost}
	}
	l := Commit(cmd)
	if Replicate {
		for _, o := range Members {
			o.CatchUp()
		}
	} else {
		m.CatchUp()
	}
	return &future{resp: m.Answers[len(m.Answers)-1], index: l.Index}
}

//sym:replace (*github.com/hashicorp/raft.Raft).BootstrapCluster
func RaftBootstrapCluster(r *raft.Raft, c raft.Configuration) raft.Future {
	m := Of(r)
	if len(Servers) > 0 {
		return &future{err: raft.ErrCantBootstrap}
	}
	Servers = append([]raft.Server{}, c.Servers...)
	if len(Servers) > 0 {
		m.Addr = Servers[0].Address
	}
	m.Lead(true)
	return &future{}
}

// Lead makes the member gain or lose leadership.
func (m *Member) Lead(on bool) {
	if on {
		for _, o := range Members {
			if o != m && o.IsLeader {
				o.Lead(false)
			}
		}
		LeaderAddr, LeaderID = m.Addr, m.ID
	}
	m.IsLeader = on
	select {
	case <-m.leaderCh:
	default:
	}
	m.leaderCh <- on
}

//sym:replace (*github.com/hashicorp/raft.Raft).LeaderCh
func RaftLeaderCh(r *raft.Raft) <-chan bool { return Of(r).leaderCh }

//sym:replace (*github.com/hashicorp/raft.Raft).State
func RaftState(r *raft.Raft) raft.RaftState {
	if Of(r).IsLeader {
		return raft.Leader
	}
	return raft.Follower
}

//sym:replace (*github.com/hashicorp/raft.Raft).Leader
func RaftLeader(r *raft.Raft) raft.ServerAddress { return LeaderAddr }

//sym:replace (*github.com/hashicorp/raft.Raft).LeaderWithID
func RaftLeaderWithID(r *raft.Raft) (raft.ServerAddress, raft.ServerID) { return LeaderAddr, LeaderID }

//sym:replace (*github.com/hashicorp/raft.Raft).GetConfiguration
func RaftGetConfiguration(r *raft.Raft) raft.ConfigurationFuture {
	if FailConf || fault(FaultConf, "membership read fault", 2) == 1 {
		return &future{err: raft.ErrRaftShutdown}
	}
	return &future{conf: raft.Configuration{Servers: append([]raft.Server{}, Servers...)}}
}

func change(r *raft.Raft, f func([]raft.Server) []raft.Server) raft.IndexFuture {
	Changes++
	if !Of(r).IsLeader {
		return &future{err: raft.ErrNotLeader}
	}
	if fault(FaultMember, "membership fault", 2) == 1 {
		return &future{err: ErrLost}
	}
	next := f(append([]raft.Server{}, Servers...))
	voters := 0
	for i, s := range next {
		if s.ID == "" || s.Address == "" {
			return &future{err: errors.New("empty ID or address in configuration")}
		}
		for _, o := range next[:i] {
			if o.ID == s.ID {
				return &future{err: errors.New("found duplicate ID in configuration")}
			}
			if o.Address == s.Address {
				return &future{err: errors.New("found duplicate address in configuration")}
			}
		}
		if s.Suffrage == raft.Voter {
			voters++
		}
	}
	self := false
	for _, s := range next {
		self = self || s.ID == Of(r).ID
	}
	if voters == 0 {
		return &future{err: errors.New("need at least one voter in configuration")}
	}
	Servers = next
	if !self {
		// a leader that removes itself steps down
		Of(r).Lead(false)
	}
	return &future{}
}

func add(ss []raft.Server, s raft.Server) []raft.Server {
	for i, o := range ss {
		if o.ID == s.ID {
			if o.Suffrage == s.Suffrage || s.Suffrage == raft.Voter {
				ss[i] = s
			} else {
				ss[i].Address = s.Address
			}
			return ss
		}
	}
	return append(ss, s)
}

//sym:replace (*github.com/hashicorp/raft.Raft).AddVoter
func RaftAddVoter(r *raft.Raft, id raft.ServerID, addr raft.ServerAddress, prev uint64, timeout time.Duration) raft.IndexFuture {
	return change(r, func(ss []raft.Server) []raft.Server {
		return add(ss, raft.Server{Suffrage: raft.Voter, ID: id, Address: addr})
	})
}

//sym:replace (*github.com/hashicorp/raft.Raft).AddNonvoter
func RaftAddNonvoter(r *raft.Raft, id raft.ServerID, addr raft.ServerAddress, prev uint64, timeout time.Duration) raft.IndexFuture {
	return change(r, func(ss []raft.Server) []raft.Server {
		return add(ss, raft.Server{Suffrage: raft.Nonvoter, ID: id, Address: addr})
	})
}

//sym:replace (*github.com/hashicorp/raft.Raft).RemoveServer
func RaftRemoveServer(r *raft.Raft, id raft.ServerID, prev uint64, timeout time.Duration) raft.IndexFuture {
	return change(r, func(ss []raft.Server) []raft.Server {
		for i, s := range ss {
			if s.ID == id {
				return append(ss[:i], ss[i+1:]...)
			}
		}
		return ss
	})
}

//sym:replace (*github.com/hashicorp/raft.Raft).DemoteVoter
func RaftDemoteVoter(r *raft.Raft, id raft.ServerID, prev uint64, timeout time.Duration) raft.IndexFuture {
	return change(r, func(ss []raft.Server) []raft.Server {
		for i, s := range ss {
			if s.ID == id {
				ss[i].Suffrage = raft.Nonvoter
			}
		}
		return ss
	})
}

//sym:replace (*github.com/hashicorp/raft.Raft).VerifyLeader
func RaftVerifyLeader(r *raft.Raft) raft.Future {
	if !Of(r).IsLeader {
		return &future{err: raft.ErrNotLeader}
	}
	return &future{}
}

//sym:replace (*github.com/hashicorp/raft.Raft).Barrier
func RaftBarrier(r *raft.Raft, timeout time.Duration) raft.Future { return RaftVerifyLeader(r) }

//sym:replace (*github.com/hashicorp/raft.Raft).Shutdown
func RaftShutdown(r *raft.Raft) raft.Future { return &future{} }

//sym:replace (*github.com/hashicorp/raft.Raft).Stats
func RaftStats(r *raft.Raft) map[string]string { return map[string]string{} }
