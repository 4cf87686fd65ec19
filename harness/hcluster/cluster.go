// Package hcluster checks discovery, joining and the published endpoint.
package hcluster

import (
	"encoding/json"
	"errors"
	"net"
	"strconv"

	"github.com/kgantsov/doq/pkg/cluster"
	"github.com/kgantsov/doq/pkg/zzverif/sym"
	"github.com/kgantsov/doq/pkg/zzverif/symkube"
	"github.com/kgantsov/doq/pkg/zzverif/symnet"
)

// host is a host name: any of 1 to 3 letters, digits and dashes that starts
// with a letter.
func host(l string) string {
	n := 1 + sym.Choose(l+" length", 3)
	s := sym.StrR(l, 1, 'a', 'z')
	for i := 1; i < n; i++ {
		c := sym.U8(l + " byte")
		sym.Assume(sym.Or(c >= 'a' && c <= 'z', sym.Or(c >= '0' && c <= '9', c == '-')))
		s += string([]byte{c})
	}
	return s
}

// A cluster of 1 to 3 members with any different host names (letters, digits
// and dashes, up to 3 characters, one may be the beginning of another), found
// under their host names or domain names, in any order: every member takes its
// own address for itself, all others as peers exactly once and in order, and
// derives its Raft address from its own host.
func C27_self() {
	n := 1 + sym.Choose("members", 3)
	hosts := []string{}
	for i := 0; i < n; i++ {
		h := host("host")
		for _, o := range hosts {
			sym.Assume(h != o)
		}
		hosts = append(hosts, h)
	}
	dom := []string{"", ".s.d.svc.cluster.local.", "."}[sym.Choose("domain", 3)]
	var srv []*net.SRV
	var addrs []string
	for _, h := range hosts {
		srv = append(srv, &net.SRV{Target: h + dom, Port: 8000})
		addrs = append(addrs, h+dom+":8000")
	}
	me := sym.Choose("me", n)
	symnet.SRV = func(service, proto, name string) ([]*net.SRV, error) {
		sym.Assert(service == "" && proto == "" && name == "svc-internal.ns.svc.cluster.local", "C27: another service is looked up")
		return srv, nil
	}
	symnet.Hostname = func() (string, error) { return hosts[me], nil }
	symnet.Lookup = func(h string) ([]string, error) {
		sym.Assert(h == hosts[me], "C27: another host's address is looked up")
		return []string{"10.0.0.1", "10.0.0.2"}, nil
	}
	symkube.Available = sym.Choose("in kubernetes", 2) == 1
	c := cluster.NewCluster(cluster.NewServiceDiscoverySRV("ns", "svc"), "ns", "svc", "8000")
	sym.Assert(c.Init() == nil, "C27: discovery fails")
	sym.Assert(c.NodeID() == addrs[me], "C27: a node takes another address for its own")
	sym.Assert(c.RaftAddr() == hosts[me]+dom+":12000", "C27: the Raft address is not on the node's own host")
	var peers []string
	for i, a := range addrs {
		if i != me {
			peers = append(peers, a)
		}
	}
	got := c.Hosts()
	sym.Assert(len(got) == len(peers), "C27: a peer is missing, repeated or the node itself")
	for i := range peers {
		sym.Assert(got[i] == peers[i], "C27: a peer is missing, repeated or the node itself")
	}
	sym.Reach("found")
}

// A failing name lookup is reported.
func C27_failure() {
	bad := sym.Choose("which", 4)
	e := errors.New("lookup")
	symnet.SRV = func(service, proto, name string) ([]*net.SRV, error) {
		if bad == 1 {
			return nil, e
		}
		return []*net.SRV{{Target: "a", Port: 8000}}, nil
	}
	symnet.Hostname = func() (string, error) {
		if bad == 2 {
			return "", e
		}
		return "a", nil
	}
	symnet.Lookup = func(h string) ([]string, error) {
		if bad == 3 {
			return nil, e
		}
		return []string{"10.0.0.1"}, nil
	}
	c := cluster.NewCluster(cluster.NewServiceDiscoverySRV("ns", "svc"), "ns", "svc", "8000")
	sym.Assert((c.Init() != nil) == (bad > 0), "C27: a failed lookup is not reported, or a good one is")
	sym.Reach("done")
}

// A node with 0 to 3 known hosts (thorough: 4) joins; every request may be
// accepted, refused with any status from 300 to 599, or fail to connect. The
// hosts are asked in turn, each with the node's id and Raft address (any two
// letters), until one accepts.
func C28_join() {
	max := 4
	if sym.Deep() {
		max = 5
	}
	n := sym.Choose("hosts", max)
	var hosts []string
	for i := 0; i < n; i++ {
		hosts = append(hosts, []string{"a:8000", "b.ns:8000", "10.0.0.3:81", "d:8000"}[i])
	}
	id, addr := "i"+sym.StrR("id", 2, 0x20, 0x7e), sym.StrR("host", 2, 'a', 'z')+":12000"
	accepted := 0
	symnet.Handler = func(r *symnet.Request) *symnet.Answer {
		k := len(symnet.Sent)
		sym.Assert(accepted == 0, "C28: a host is asked after the join was accepted")
		sym.Assert(r.Is("POST", hosts[(k-1)%n], "/join"), "C28: the hosts are not asked in turn")
		var m map[string]string
		sym.Assert(json.Unmarshal(r.Body, &m) == nil, "C28: the join request is not JSON")
		sym.Assert(m["id"] == id && m["addr"] == addr, "C28: a join request with another id or address")
		sym.Assert(r.Type == "application/json", "C28: a join request of another type")
		if sym.Choose("answer", 2) == 0 {
			st := sym.I64R("status", 200, 599)
			sym.Assume(sym.Or(st == 200, st >= 300))
			if st == 200 {
				accepted++
			}
			return &symnet.Answer{Status: int(st), Body: []byte("{}")}
		}
		return &symnet.Answer{Err: symnet.ErrDown}
	}
	j := cluster.NewJoiner(id, addr, hosts)
	err := j.Join()
	if n == 0 {
		sym.Assert(err == nil && symnet.Noted() == 0, "C28: a node without hosts to join fails or asks somebody")
		sym.Reach("alone")
		return
	}
	sym.Assert((err == nil) == (accepted == 1), "C28: a join is not reported as it went")
	if err != nil {
		sym.Assert(symnet.Noted() >= n, "C28: a host was never asked")
		sym.Reach("failed")
	} else {
		sym.Reach("joined")
	}
}

// anyPort is a port of 1 to 5 digits and its number.
func anyPort() (string, int32) {
	n := sym.Choose("port digits", 5)
	s := sym.StrR("port", 1, '1', '9')
	v := int64(s[0] - '0')
	for i := 0; i < n; i++ {
		d := sym.StrR("port digit", 1, '0', '9')
		v = v*10 + int64(d[0]-'0')
		s += d
	}
	sym.Assume(v <= 65535)
	return s, int32(v)
}

// A history of three leadership changes of this node and of another one that
// publishes itself in between, with the node's address changing, any port from
// 1 to 65535, and with or without an endpoint from before: after the node became leader exactly its
// current address and port are published; losing leadership publishes nothing.
func C29_publish() {
	ip := "10.0.0." + sym.StrR("ip", 1, '1', '9')
	symnet.SRV = func(service, proto, name string) ([]*net.SRV, error) {
		return []*net.SRV{{Target: "me", Port: 8000}, {Target: "you", Port: 8000}}, nil
	}
	symnet.Hostname = func() (string, error) { return "me", nil }
	fail := false
	symnet.Lookup = func(h string) ([]string, error) {
		if fail {
			return nil, errors.New("lookup")
		}
		return []string{ip}, nil
	}
	symkube.Available = true
	if sym.Choose("not in kubernetes at first", 2) == 1 {
		symkube.Available = false
	}
	port, want := anyPort()
	c := cluster.NewCluster(cluster.NewServiceDiscoverySRV("ns", "svc"), "ns", "svc", port)
	sym.Assert(c.Init() == nil, "C29: discovery fails")
	symkube.Available = true
	if sym.Choose("endpoint from before", 2) == 1 {
		symkube.Put("ns", "svc", "10.9.9.9", 8000)
	}
	symkube.Put("ns", "other", "10.8.8.8", 7000)
	for i := 0; i < 3; i++ {
		switch sym.Choose("event", 4) {
		case 0:
			c.LeaderChanged(true)
			s := symkube.Find("ns", "svc")
			sym.Assert(s != nil, "C29: the leader's endpoint is not published")
			sym.Assert(len(s.Addresses) == 1 && s.Addresses[0] == ip, "C29: the published endpoint is not the leader's address")
			sym.Assert(len(s.Ports) == 1 && s.Ports[0] == want, "C29: the published endpoint is not the leader's port")
			sym.Assert(len(s.Hosts) == 0 || len(s.Hosts) == 1 && s.Hosts[0] == "me", "C29: the published endpoint names another host")
			sym.Assert(s.Ready && s.Service == "svc", "C29: the published endpoint does not belong to the service")
			sym.Reach("published")
		case 1:
			before := symkube.Dump()
			c.LeaderChanged(false)
			sym.Assert(symkube.Dump() == before, "C29: losing leadership changes the published endpoint")
			sym.Reach("lost")
		case 2:
			symkube.Remove("ns", "svc")
			symkube.Put("ns", "svc", "10.7.7.7", 8000)
		case 3:
			ip = "10.0.1." + sym.StrR("new ip", 1, '1', '9')
		}
	}
	o := symkube.Find("ns", "other")
	sym.Assert(o != nil && o.Addresses[0] == "10.8.8.8" && symkube.Count() <= 2, "C29: another endpoint was changed")
}

// When the node's own address cannot be looked up as it becomes leader, no
// endpoint without an address is published.
func C29_lookup() {
	fail := false
	symnet.SRV = func(service, proto, name string) ([]*net.SRV, error) {
		return []*net.SRV{{Target: "me", Port: 8000}}, nil
	}
	symnet.Hostname = func() (string, error) { return "me", nil }
	symnet.Lookup = func(h string) ([]string, error) {
		if fail {
			if sym.Choose("empty", 2) == 1 {
				return nil, nil
			}
			return nil, errors.New("lookup")
		}
		return []string{"10.0.0.1"}, nil
	}
	symkube.Available = true
	c := cluster.NewCluster(cluster.NewServiceDiscoverySRV("ns", "svc"), "ns", "svc", "8000")
	sym.Assert(c.Init() == nil, "C29: discovery fails")
	if sym.Choose("leader before", 2) == 1 {
		c.LeaderChanged(true)
	}
	fail = true
	c.LeaderChanged(true)
	s := symkube.Find("ns", "svc")
	if s != nil {
		sym.Assert(len(s.Addresses) == 1 && s.Addresses[0] == "10.0.0.1", "C29: an endpoint that is not the leader's address is published")
	}
	fail = false
	c.LeaderChanged(true)
	s = symkube.Find("ns", "svc")
	sym.Assert(s != nil && s.Addresses[0] == "10.0.0.1", "C29: the leader's endpoint is not published")
	sym.Reach("published")
}

// As the node becomes leader, one or two of the API calls fail without effect,
// with or without an endpoint from before: nothing but the endpoint from before
// or the node's own is published, and once the calls work again the next change
// of leadership publishes exactly the node's own.
func C29_fault() {
	symnet.SRV = func(service, proto, name string) ([]*net.SRV, error) {
		return []*net.SRV{{Target: "me", Port: 8000}}, nil
	}
	symnet.Hostname = func() (string, error) { return "me", nil }
	symnet.Lookup = func(h string) ([]string, error) { return []string{"10.0.0.1"}, nil }
	symkube.Available = true
	port, want := anyPort()
	ns, svc := "n"+sym.StrR("namespace", 1, 'a', 'z'), "s"+sym.StrR("service", 1, 'a', 'z')
	c := cluster.NewCluster(cluster.NewServiceDiscoverySRV(ns, svc), ns, svc, port)
	sym.Assert(c.Init() == nil, "C29: discovery fails")
	if sym.Choose("endpoint from before", 2) == 1 {
		symkube.Put(ns, svc, "10.9.9.9", 9)
	}
	left := 2
	symkube.Fault = func(verb string) bool {
		if left > 0 && sym.Choose("fail", 2) == 1 {
			left--
			return true
		}
		return false
	}
	c.LeaderChanged(true)
	if s := symkube.Find(ns, svc); s != nil {
		sym.Assert(len(s.Addresses) == 1 && len(s.Ports) == 1, "C29: the published endpoint is not one address")
		a, p := s.Addresses[0], s.Ports[0]
		sym.Assert(sym.Or(sym.And(a == "10.0.0.1", p == want), sym.And(a == "10.9.9.9", p == 9)), "C29: the published endpoint is not the leader's address and port")
		sym.Reach("published")
	} else {
		sym.Reach("nothing published")
	}
	symkube.Fault = nil
	c.LeaderChanged(true)
	s := symkube.Find(ns, svc)
	sym.Assert(s != nil && symkube.Count() == 1, "C29: the leader's endpoint is not published")
	sym.Assert(len(s.Addresses) == 1 && s.Addresses[0] == "10.0.0.1", "C29: the published endpoint is not the leader's address")
	sym.Assert(len(s.Ports) == 1 && s.Ports[0] == want, "C29: the published endpoint is not the leader's port")
	sym.Reach("recovered")
}

// Nine known hosts: all but one (any, or none) refuse with any status from 300
// to 599 or cannot be reached; the one that accepts is asked, and nobody after it.
func C28_many() {
	hosts := []string{}
	for i := 0; i < 9; i++ {
		hosts = append(hosts, "h"+string(rune('0'+i))+":8000")
	}
	good := sym.Choose("good", 10)
	down := sym.Choose("down", 2) == 1
	id, addr := "i"+sym.StrR("id", 2, 0x20, 0x7e), "h:12000"
	asked, accepted := map[string]bool{}, 0
	symnet.Handler = func(r *symnet.Request) *symnet.Answer {
		sym.Assert(accepted == 0, "C28: a host is asked after the join was accepted")
		k := -1
		for i, h := range hosts {
			if r.Is("POST", h, "/join") {
				k = i
			}
		}
		sym.Assert(k >= 0, "C28: somebody else is asked to join")
		asked[hosts[k]] = true
		if k == good {
			accepted++
			return &symnet.Answer{Status: 200, Body: []byte("{}")}
		}
		if down {
			return &symnet.Answer{Err: symnet.ErrDown}
		}
		return &symnet.Answer{Status: int(sym.I64R("status", 300, 599)), Body: []byte("{}")}
	}
	err := cluster.NewJoiner(id, addr, hosts).Join()
	sym.Assert((err == nil) == (good < 9), "C28: a join fails although a known host accepts, or succeeds although none does")
	if err != nil {
		sym.Assert(len(asked) == 9, "C28: a host was never asked")
	}
	sym.Reach("done")
}

// A cluster of 12 members, among them hosts whose names continue others' (h1 and h10).
func C27_many() {
	n := 12
	var srv []*net.SRV
	var addrs []string
	for i := 0; i < n; i++ {
		h := "h" + strconv.Itoa(i)
		srv = append(srv, &net.SRV{Target: h + ".s.", Port: 8000})
		addrs = append(addrs, h+".s.:8000")
	}
	me := sym.Choose("me", n)
	symnet.SRV = func(service, proto, name string) ([]*net.SRV, error) { return srv, nil }
	symnet.Hostname = func() (string, error) { return "h" + strconv.Itoa(me), nil }
	symnet.Lookup = func(h string) ([]string, error) { return []string{"10.0.0.1"}, nil }
	c := cluster.NewCluster(cluster.NewServiceDiscoverySRV("ns", "svc"), "ns", "svc", "8000")
	sym.Assert(c.Init() == nil, "C27: discovery fails")
	sym.Assert(c.NodeID() == addrs[me], "C27: a node takes another address for its own")
	got := c.Hosts()
	sym.Assert(len(got) == n-1, "C27: a peer is missing, repeated or the node itself")
	j := 0
	for i, a := range addrs {
		if i != me {
			sym.Assert(got[j] == a, "C27: a peer is missing, repeated or the node itself")
			j++
		}
	}
	sym.Reach("found")
}
