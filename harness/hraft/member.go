package hraft

import (
	"github.com/hashicorp/raft"
	"github.com/kgantsov/doq/pkg/zzverif/sym"
	"github.com/kgantsov/doq/pkg/zzverif/symenv"
	"github.com/kgantsov/doq/pkg/zzverif/symraft"
)

// cluster starts a leader in a membership of 1 to 3 (thorough: 4) voters with
// any distinct ids and addresses of one or two bytes; doq has no non-voters.
func cluster(p string) *node {
	n := start("n1", symenv.NewDB())
	max := 3
	if sym.Deep() {
		max = 4
	}
	k := sym.Choose("other members", max)
	others := []raft.Server{}
	for i := 0; i < k; i++ {
		s := raft.Server{Suffrage: raft.Voter, ID: raft.ServerID(sym.Str("member", 1+i%2)), Address: raft.ServerAddress(sym.Str("address", 2))}
		others = append(others, s)
	}
	at := sym.Choose("position", k+1)
	self := raft.Server{Suffrage: raft.Voter, ID: n.m.ID, Address: n.m.Addr}
	symraft.Servers = append(append(append([]raft.Server{}, others[:at]...), self), others[at:]...)
	for i, a := range symraft.Servers {
		for _, b := range symraft.Servers[:i] {
			sym.Assume(a.ID != b.ID)
			sym.Assume(a.Address != b.Address)
		}
	}
	return n
}

// A join of any node (any id and address, of a member or not) succeeds only
// with the joining node a voter exactly once under its id and address, nobody
// else with either of them, and every other member untouched; unless it takes the
// leader's own id or address, a join without faults succeeds; an identical
// join changes nothing; a membership change or read that fails (one fault) is
// reported as an error.
func C21_join() {
	n := cluster("C21")
	before := append([]raft.Server{}, symraft.Servers...)
	var id raft.ServerID
	var addr raft.ServerAddress
	if c := sym.Choose("id of", len(before)+1); c < len(before) {
		id = before[c].ID
	} else {
		id = raft.ServerID("x" + sym.Str("new id", 1))
	}
	if c := sym.Choose("address of", len(before)+1); c < len(before) {
		addr = before[c].Address
	} else {
		addr = raft.ServerAddress("x" + sym.Str("new address", 2))
	}
	known := false
	for _, s := range before {
		if s.ID == id && s.Address == addr {
			known = true
		}
	}
	switch sym.Choose("situation", 3) {
	case 1:
		symraft.Budget, symraft.FaultConf, symraft.FaultMember = 1, true, true
	case 2:
		n.m.IsLeader = false
	}
	symraft.Changes = 0
	leader := n.m.IsLeader
	err := n.Join(string(id), string(addr))
	after := symraft.Servers
	if known && symraft.Faults == 0 {
		sym.Assert(err == nil, "C21: a repeated join fails")
	}
	if known {
		sym.Assert(symraft.Changes == 0, "C21: a repeated join asks for a change")
		sym.Assert(len(after) == len(before), "C21: a repeated join changes the membership")
		for i := range before {
			sym.Assert(sameServer(after[i], before[i]), "C21: a repeated join changes the membership")
		}
		sym.Reach("repeated")
		return
	}
	if symraft.Faults > 0 || !leader {
		sym.Assert(err != nil, "C21: a failed membership change is reported as success")
		sym.Reach("failed")
	}
	unrelated := func(s raft.Server) bool { return s.ID != id && s.Address != addr }
	for _, s := range before {
		if unrelated(s) {
			found := false
			for _, t := range after {
				found = found || sameServer(s, t)
			}
			sym.Assert(found, "C21: a join removes or changes an unrelated member")
		}
	}
	for _, t := range after {
		if unrelated(t) {
			found := false
			for _, s := range before {
				found = found || sameServer(s, t)
			}
			sym.Assert(found, "C21: a join adds somebody else")
		}
	}
	if symraft.Faults == 0 && leader && id != n.m.ID && addr != n.m.Addr {
		sym.Assert(err == nil, "C21: a node that comes back under another id or address cannot join")
	}
	if err != nil {
		return
	}
	sym.Reach("joined")
	here := 0
	for _, t := range after {
		if t.ID == id && t.Address == addr {
			here++
			sym.Assert(t.Suffrage == raft.Voter, "C21: a joined node is no voter")
		} else {
			sym.Assert(unrelated(t), "C21: another member has the id or the address of the joined node")
		}
	}
	sym.Assert(here == 1, "C21: a joined node is not a member exactly once")
	// the same again changes nothing
	symraft.Changes, symraft.Budget = 0, 0
	sym.Assert(n.Join(string(id), string(addr)) == nil, "C21: a repeated join fails")
	sym.Assert(symraft.Changes == 0 && len(symraft.Servers) == len(after), "C21: a repeated join changes the membership")
}

func sameServer(a, b raft.Server) bool {
	return a.Suffrage == b.Suffrage && a.ID == b.ID && a.Address == b.Address
}

// Two different members of a membership of 2 to 4 (any ids, any positions)
// initialise their id generators from it and hand out two ids each, at any
// times (a clock that never runs backwards, read with millisecond steps by
// either): all ids differ and those of one node increase.
func C22_members() {
	n := cluster("C22")
	k := len(symraft.Servers)
	if k < 2 {
		sym.Stop()
	}
	o := sym.Choose("other", k)
	other := symraft.Servers[o]
	if other.ID == n.m.ID {
		sym.Stop()
	}
	servers := symraft.Servers
	n2 := start(string(other.ID), symenv.NewDB())
	symraft.Servers = servers
	sym.Assert(n.InitIDGenerator() == nil, "C22: a member cannot initialise its ids")
	sym.Assert(n2.InitIDGenerator() == nil, "C22: a member cannot initialise its ids")
	clock()
	a, b := n.GenerateID(), n2.GenerateID()
	a2, b2 := n.GenerateID(), n2.GenerateID()
	sym.Assert(a != b && a != b2 && a2 != b && a2 != b2, "C22: two members hand out the same id")
	sym.Assert(a < a2 && b < b2, "C22: the ids of a node do not increase")
	sym.Reach("ids")
}

// clock makes every reading of the clock any time not before the last one,
// until 2079, with millisecond steps.
func clock() {
	last := symenv.Clock
	ms := int64(0)
	symenv.FineHook = func() (int64, int64) {
		d := sym.I64R("seconds", 0, 1<<28)
		if sym.Choose("same second", 2) == 1 {
			ms += int64(sym.Choose("ms", 3))
		} else {
			last += d + 1
			ms = int64(sym.Choose("ms", 2)) * 998
		}
		return last, ms*1000000 + 999
	}
}

// Ids handed out by one node strictly increase and are accepted as message
// ids: three ids with any clock.
func C22_increase() {
	n := start("n1", symenv.NewDB())
	if sym.Choose("initialised", 2) == 1 {
		sym.Assert(n.InitIDGenerator() == nil, "C22: a member cannot initialise its ids")
	}
	sym.Assert(n.CreateQueue("delayed", "q") == nil, "C22: creating a queue fails")
	clock()
	last := uint64(0)
	for i := 0; i < 3; i++ {
		var id uint64
		if i == 1 {
			m, err := n.Enqueue("q", "default", 1, "c")
			sym.Assert(err == nil, "C22: enqueue fails")
			id = m.ID
		} else {
			id = n.GenerateID()
		}
		sym.Assert(id > last && id < 1<<63, "C22: the ids of a node do not increase")
		last = id
	}
	sym.Reach("ids")
}

// All members of a cluster of 40 (thorough: 150) hand out different ids at
// the same moment.
func C22_large() {
	k := 40
	if sym.Deep() {
		k = 150
	}
	var servers []raft.Server
	for i := 0; i < k; i++ {
		id := "m" + string(rune('a'+i/26)) + string(rune('a'+i%26))
		servers = append(servers, raft.Server{Suffrage: raft.Voter, ID: raft.ServerID(id), Address: raft.ServerAddress(id + ":9000")})
	}
	symraft.Servers = servers
	var nodes []*node
	for i := 0; i < k; i++ {
		n := start(string(servers[i].ID), symenv.NewDB())
		sym.Assert(n.InitIDGenerator() == nil, "C22: a member cannot initialise its ids")
		nodes = append(nodes, n)
	}
	base := symenv.Clock + 10
	symenv.FineHook = func() (int64, int64) { return base, 0 }
	rounds := 2
	if !sym.Symbolic() {
		rounds = 50 // the clock cannot be held still
	}
	seen := map[uint64]bool{}
	for r := 0; r < rounds; r++ {
		var ids []uint64
		for _, n := range nodes {
			ids = append(ids, n.GenerateID())
		}
		for _, id := range ids {
			sym.Assert(!seen[id], "C22: two members hand out the same id")
			seen[id] = true
		}
	}
	symenv.FineHook = nil
	sym.Reach("ids")
}

// A generator is only initialised from a membership that was read: a failure
// to read it is reported.
func C22_failure() {
	n := cluster("C22")
	symraft.Budget, symraft.FaultConf = 1, true
	err := n.InitIDGenerator()
	sym.Assert((err != nil) == (symraft.Faults > 0), "C22: an id generator is initialised without a membership")
	sym.Reach("done")
}
