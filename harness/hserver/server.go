// Package hserver checks the server program as a whole.
package hserver

import (
	"context"
	"encoding/json"
	"net"
	"path/filepath"
	"strconv"
	"time"

	"github.com/dgraph-io/badger/v4"
	"github.com/dgraph-io/badger/v4/options"
	"github.com/hashicorp/raft"

	"github.com/kgantsov/doq/pkg/config"
	pb "github.com/kgantsov/doq/pkg/proto"
	"github.com/kgantsov/doq/pkg/zzverif/server"
	"github.com/kgantsov/doq/pkg/zzverif/sym"
	"github.com/kgantsov/doq/pkg/zzverif/symconf"
	"github.com/kgantsov/doq/pkg/zzverif/symenv"
	"github.com/kgantsov/doq/pkg/zzverif/symgrpc"
	"github.com/kgantsov/doq/pkg/zzverif/symhttp"
	"github.com/kgantsov/doq/pkg/zzverif/symkube"
	"github.com/kgantsov/doq/pkg/zzverif/symnet"
	"github.com/kgantsov/doq/pkg/zzverif/symraft"
	"github.com/kgantsov/doq/pkg/zzverif/symserver"
)

// run starts the program with the settings given so far and returns what it
// says if it gives up.
func run(args ...string) string {
	sym.ModelOnly()
	symconf.Write()
	return sym.Exits(func() {
		symhttp.New(func() {
			cmd := config.InitCobraCommand(server.Run)
			cmd.SetArgs(append([]string{}, args...))
			sym.Assert(cmd.Execute() == nil, "C32: the program does not start")
		})
	})
}

// Every storage option is given in the configuration file (any positive value)
// or not: the store is opened once, in its directory under the data directory
// and the node's id (two letters each), with the given options and otherwise
// badger's own, and its garbage is collected at the interval and with the ratio
// configured.
func C32_storage() {
	symconf.Start()
	defer symconf.End()
	dir, id := sym.StrR("data dir", 2, 'a', 'z'), sym.StrR("node id", 2, 'a', 'z')
	symconf.File("config.yaml", "storage.data_dir", dir)
	symconf.File("config.yaml", "cluster.node_id", id)
	want := badger.DefaultOptions(filepath.Join(dir, id, "store"))
	given := sym.Choose("options", 2) == 1
	num := func(key string) int64 {
		n := sym.I64R(key, 1, 1<<40)
		symconf.File("config.yaml", "storage."+key, int(n))
		return n
	}
	if given {
		c := sym.Choose("compression", 3)
		symconf.File("config.yaml", "storage.compression", []string{"none", "snappy", "zstd"}[c])
		want.Compression = []options.CompressionType{options.None, options.Snappy, options.ZSTD}[c]
		want.ZSTDCompressionLevel = int(num("zstd_compression_level"))
		want.BlockCacheSize = num("block_cache_size")
		want.IndexCacheSize = num("index_cache_size")
		want.BaseTableSize = num("base_table_size")
		want.NumCompactors = int(num("num_compactors"))
		want.NumLevelZeroTables = int(num("num_level_zero_tables"))
		want.NumLevelZeroTablesStall = int(num("num_level_zero_tables_stall"))
		want.NumMemtables = int(num("num_memtables"))
		want.ValueLogFileSize = num("value_log_file_size")
	}
	gc := sym.I64R("gc_interval", 1, 1<<30)
	symconf.File("config.yaml", "storage.gc_interval", int(gc))
	ratio := []float64{0.5, 0.7}[sym.Choose("ratio", 2)]
	symconf.File("config.yaml", "storage.gc_discard_ratio", ratio)
	opened, collected := 0, 0
	symenv.OpenHook = func(o badger.Options) error {
		opened++
		sym.Assert(o.Dir == want.Dir && o.ValueDir == want.ValueDir, "C32: the store is opened elsewhere")
		sym.Assert(o.Compression == want.Compression, "C32: wrong compression of the store")
		sym.Assert(o.ZSTDCompressionLevel == want.ZSTDCompressionLevel, "C32: wrong compression level of the store")
		sym.Assert(o.BlockCacheSize == want.BlockCacheSize, "C32: wrong block cache size of the store")
		sym.Assert(o.IndexCacheSize == want.IndexCacheSize, "C32: wrong index cache size of the store")
		sym.Assert(o.BaseTableSize == want.BaseTableSize, "C32: wrong table size of the store")
		sym.Assert(o.NumCompactors == want.NumCompactors, "C32: wrong number of compactors of the store")
		sym.Assert(o.NumLevelZeroTables == want.NumLevelZeroTables, "C32: wrong number of level zero tables of the store")
		sym.Assert(o.NumLevelZeroTablesStall == want.NumLevelZeroTablesStall, "C32: wrong stall limit of the store")
		sym.Assert(o.NumMemtables == want.NumMemtables, "C32: wrong number of memtables of the store")
		sym.Assert(o.ValueLogFileSize == want.ValueLogFileSize, "C32: wrong value log size of the store")
		sym.Assert(!o.InMemory && !o.ReadOnly && o.SyncWrites == want.SyncWrites, "C32: the store does not keep what is written")
		return nil
	}
	var db *badger.DB
	symenv.GCHook = func(d *badger.DB, r float64) error {
		sym.Assert(db == nil || d == db, "C32: another store's garbage is collected")
		sym.Assert(r == ratio, "C32: garbage is collected with another ratio")
		db = d
		collected++
		if collected == 1 {
			return nil
		}
		return badger.ErrNoRewrite
	}
	served := false
	symserver.OnHTTP = func() {
		served = true
		sym.RunBackground()
		sym.Assert(collected == 0, "C32: garbage is collected before its time")
		sym.Assert(symenv.FireTickersOf(time.Duration(gc)*time.Second) > 0, "C32: garbage is not collected at the configured interval")
		sym.Assert(collected == 2, "C32: garbage is not collected as long as there is any")
		sym.Assert(symenv.FireTickersOf(time.Duration(gc)*time.Second) > 0 && collected == 3, "C32: garbage is not collected any more")
		sym.Assert(len(symraft.SnapDirs) == 1 && symraft.SnapDirs[0] == filepath.Join(dir, id, "raft"), "C32: snapshots are kept elsewhere")
		sym.Reach("served")
	}
	x := run()
	sym.Assert(x == "", "C32: the program gives up: "+x)
	sym.Assert(served && opened == 1, "C32: the program does not serve, or opens several stores")
}

// The program starts with any http.port, grpc.address (or none), raft.address and
// node id, alone, with a node to join, or finding itself and up to three others
// (thorough: four) by service name, on an empty store. One of the first two
// rounds of requests is accepted, or none. A node that has a host to join and is accepted by none ends without
// serving anything. Otherwise it runs under its configured (found) id on its
// configured (found) Raft address, asks the hosts to join in turn before it
// serves anything, has the id generator of its place among the members when it
// serves, and serves HTTP, gRPC and (if enabled) profiles on the configured
// addresses, for the same node; with a service name, its endpoint is published when it becomes leader.
func C32_start() {
	symconf.Start()
	defer symconf.End()
	f := "config.yaml"
	symenv.Clock = 1 << 31
	port := sym.StrR("http port", 4, '1', '9')
	symconf.File(f, "http.port", port)
	grpc := ""
	if sym.Choose("grpc", 2) == 1 {
		sym.NotNative()
		grpc = sym.StrR("grpc address", 3, '0', 'z')
		symconf.File(f, "grpc.address", grpc)
	}
	id, addr := "i"+sym.StrR("node id", 1, 'a', 'z'), "r"+sym.StrR("raft address", 1, 'a', 'z')+":9"
	symconf.File(f, "cluster.node_id", id)
	symconf.File(f, "raft.address", addr)
	symconf.File(f, "storage.data_dir", "d")
	prof := sym.Choose("profiling", 2) == 1
	pp := sym.I64R("profiling port", 1, 65535)
	symconf.File(f, "profiling.port", int(pp))
	if prof {
		symconf.File(f, "profiling.enabled", true)
	}
	symkube.Available = true
	var hosts []string
	mode := sym.Choose("mode", 3)
	switch mode {
	case 1:
		h := "j" + sym.StrR("join address", 1, 'a', 'z') + ":80"
		symconf.File(f, "cluster.join_addr", h)
		hosts = []string{h}
	case 2:
		svc := "s" + sym.StrR("service", 1, 'a', 'z')
		symconf.File(f, "cluster.service_name", svc)
		n := sym.Choose("others", size(4, 5))
		at := sym.Choose("place", n+1)
		var l []*net.SRV
		for i := 0; i <= n; i++ {
			h := "h" + string(rune('0'+i))
			if i == at {
				symnet.Hostname = func() (string, error) { return h, nil }
				id, addr = h+":8000", h+":12000"
			} else {
				hosts = append(hosts, h+":8000")
			}
			l = append(l, &net.SRV{Target: h, Port: 8000})
		}
		symnet.SRV = func(service, proto, name string) ([]*net.SRV, error) {
			sym.Assert(name == svc+"-internal.default.svc.cluster.local", "C32: another service is looked up")
			return l, nil
		}
		symnet.Lookup = func(h string) ([]string, error) { return []string{"10.0.0.1"}, nil }
		defer func() {
			if symserver.HTTP == nil {
				return
			}
			p, _ := strconv.Atoi(port)
			s := symkube.Find("default", svc)
			sym.Assert(s != nil && symkube.Count() == 1, "C32: the leader's endpoint is not published")
			sym.Assert(len(s.Addresses) == 1 && s.Addresses[0] == "10.0.0.1" && len(s.Ports) == 1 && s.Ports[0] == int32(p), "C32: another endpoint than the leader's is published")
			sym.Reach("published")
		}()
	}
	accepted, place, asked := len(hosts) == 0, 0, 0
	// the request that is accepted, if any
	at := sym.Choose("accepted", 2*len(hosts)+1) - 1
	symnet.Handler = func(r *symnet.Request) *symnet.Answer {
		k := len(symnet.Sent) - 1
		sym.Assert(symserver.HTTP == nil && symserver.GRPC == nil, "C32: the node joins after it serves")
		sym.Assert(!accepted, "C32: the node joins again")
		known := false
		for i, h := range hosts {
			if r.Is("POST", h, "/join") {
				known = true
				asked |= 1 << i
			}
		}
		sym.Assert(known, "C32: another host is asked to join")
		var b map[string]any
		sym.Assert(json.Unmarshal(r.Body, &b) == nil && b["id"] == id && b["addr"] == addr, "C32: the node joins under another id or address")
		if k == at {
			accepted = true
			// it is a member now, in some place
			place = sym.Choose("place among members", 3)
			symraft.Servers = nil
			for i := 0; i < 3; i++ {
				s := raft.Server{ID: raft.ServerID("m" + string(rune('0'+i))), Address: raft.ServerAddress("a" + string(rune('0'+i)))}
				if i == place {
					s = raft.Server{ID: raft.ServerID(id), Address: raft.ServerAddress(addr)}
				}
				symraft.Servers = append(symraft.Servers, s)
			}
			return &symnet.Answer{Status: 200, Body: []byte("{}")}
		}
		return &symnet.Answer{Status: 400}
	}
	symserver.OnHTTP = func() {
		sym.RunBackground()
		sym.Assert(accepted, "C32: a node that joined nobody serves")
		sym.Assert(len(symserver.HTTP) == 1 && symserver.HTTP[0] == ":"+port, "C32: HTTP is served on another port")
		if grpc == "" {
			sym.Assert(len(symserver.Listened) == 0 && len(symserver.GRPC) == 0, "C32: gRPC is served although it is not configured")
		} else {
			sym.Assert(len(symserver.Listened) == 1 && symserver.Listened[0] == "tcp "+grpc && len(symserver.GRPC) == 1 && symserver.GRPC[0] == grpc, "C32: gRPC is served on another address")
		}
		if prof {
			sym.Assert(symserver.Profiles == 1 && len(symserver.Profiled) == 1 && symserver.Profiled[0] == ":"+strconv.FormatInt(pp, 10), "C32: profiles are not served as configured")
		} else {
			sym.Assert(symserver.Profiles == 0 && len(symserver.Profiled) == 0, "C32: profiling runs although it is off")
		}
		sym.Assert(len(symraft.Members) == 1, "C32: not one node is started")
		m := symraft.Members[0]
		sym.Assert(string(m.ID) == id, "C32: the node runs under another id")
		sym.Assert(len(symraft.Bound) == 1 && symraft.Bound[0] == addr, "C32: Raft listens on another address")
		// both servers belong to this node
		if len(hosts) > 0 {
			m.Lead(true)
			sym.RunBackground()
		}
		s := symhttp.Current()
		c, _ := s.Do("POST", "/API/v1/queues", "application/json", []byte(`{"name":"q","type":"delayed"}`))
		sym.Assert(c == 200, "C32: the HTTP server does not serve the node")
		c, b := s.Do("POST", "/API/v1/queues/q/messages", "application/json", []byte(`{"content":"x","priority":1}`))
		sym.Assert(c == 200, "C32: the HTTP server does not serve the node")
		var a struct {
			ID string `json:"id"`
		}
		sym.Assert(json.Unmarshal(b, &a) == nil, "C32: no message is answered")
		n, err := strconv.ParseUint(a.ID, 10, 64)
		sym.Assert(err == nil && n>>12&1023 == uint64(place+1), "C32: the node has the id generator of another member")
		if grpc != "" {
			g := symserver.Impl[0].(pb.DOQServer)
			r, err := g.Dequeue(context.Background(), &pb.DequeueRequest{QueueName: "q", Ack: true})
			sym.Assert(err == nil && r.Id == n, "C32: the gRPC server does not serve the node")
			sym.Reach("gRPC")
		}
		sym.Reach([]string{"alone", "joined", "discovered"}[mode])
	}
	if x := run(); x != "" {
		sym.Assert(!accepted && asked == 1<<len(hosts)-1, "C32: the program gives up: "+x)
		sym.Assert(symserver.HTTP == nil && symserver.GRPC == nil, "C32: a node that joined nobody serves")
		sym.Reach("given up")
		return
	}
	sym.Assert(len(symserver.HTTP) == 1, "C32: the program ends without serving")
}

// The whole server with any acknowledgement timeout (up to 2^20 s) and check
// interval: a message enqueued and delivered over HTTP comes back at the first
// check after the configured timeout, not before, and an acknowledged one never.
func C32_queue() {
	symconf.Start()
	defer symconf.End()
	f := "config.yaml"
	symenv.Clock = 1 << 31
	timeout, every := sym.I64R("timeout", 0, 1<<20), sym.I64R("check interval", 1, 1<<20)
	symconf.File(f, "queue.acknowledgement_timeout", int(timeout))
	symconf.File(f, "queue.acknowledgement_check_interval", int(every))
	sym.Assume(every != 1 && every != 300)
	served := false
	symserver.OnHTTP = func() {
		served = true
		sym.RunBackground()
		s := symhttp.Current()
		do := func(method, path, body string) (int, string) {
			c, b := s.Do(method, "/API/v1/queues"+path, "application/json", []byte(body))
			var a struct {
				ID string `json:"id"`
			}
			if c == 200 {
				sym.Assert(json.Unmarshal(b, &a) == nil, "C32: the answer is not JSON")
			}
			return c, a.ID
		}
		c, _ := do("POST", "", `{"name":"q","type":"`+[]string{"delayed", "fair"}[sym.Choose("type", 2)]+`"}`)
		sym.Assert(c == 200, "C32: a queue cannot be created")
		c, id := do("POST", "/q/messages", `{"content":"x","priority":1}`)
		sym.Assert(c == 200, "C32: a message cannot be enqueued")
		c, got := do("GET", "/q/messages?ack=false", "")
		sym.Assert(c == 200 && got == id, "C32: a message is not delivered")
		acked := sym.Choose("acknowledged", 2) == 1
		if acked {
			c, _ = do("POST", "/q/messages/"+id+"/ack", "")
			sym.Assert(c == 200, "C32: a message cannot be acknowledged")
		}
		wait := sym.I64R("wait", 0, 1<<22)
		symenv.Clock += wait
		sym.Assert(symenv.FireTickersOf(time.Duration(every)*time.Second) > 0, "C32: timeouts are not checked at the configured interval")
		c, got = do("GET", "/q/messages?ack=false", "")
		if c == 200 {
			sym.Assert(got == id && !acked && wait >= timeout, "C32: a message comes back before the configured timeout, or after its acknowledgement")
			sym.Reach("back")
		} else {
			sym.Assert(acked || wait <= timeout, "C32: a message does not come back after the configured timeout")
			sym.Reach("not back")
		}
	}
	x := run()
	sym.Assert(x == "" && served, "C32: the program gives up: "+x)
}

// A node that is alone, or has led before (restarted, any of up to three members
// in its configuration), or joins another one, with another endpoint published
// before or not: it publishes nothing before it leads the cluster; as it
// gains leadership, its own address and its HTTP port (any of 4 digits) are the
// published endpoint; losing leadership changes nothing; and regaining it after
// another leader published replaces that one's endpoint.
func C29_server() {
	symconf.Start()
	defer symconf.End()
	f := "config.yaml"
	port, svc := sym.StrR("http port", 4, '1', '9'), "s"+sym.StrR("service", 1, 'a', 'z')
	want, _ := strconv.Atoi(port)
	symconf.File(f, "http.port", port)
	symconf.File(f, "cluster.service_name", svc)
	symkube.Available = true
	symnet.Hostname = func() (string, error) { return "me", nil }
	symnet.SRV = func(service, proto, name string) ([]*net.SRV, error) {
		return []*net.SRV{{Target: "me", Port: 8000}}, nil
	}
	symnet.Lookup = func(h string) ([]string, error) { return []string{"10.0.0.1"}, nil }
	if sym.Choose("endpoint from before", 2) == 1 {
		symkube.Put("default", svc, "10.9.9.9", 9)
	}
	before := symkube.Count()
	same := func() {
		s := symkube.Find("default", svc)
		sym.Assert(symkube.Count() == before && (s == nil || s.Addresses[0] == "10.9.9.9"), "C29: a node that has not become the leader publishes its endpoint")
	}
	how := sym.Choose("boots alone, was a member, joins", 3)
	again := how == 1
	if how == 2 {
		symnet.SRV = func(service, proto, name string) ([]*net.SRV, error) {
			return []*net.SRV{{Target: "other", Port: 8000}, {Target: "me", Port: 8000}}, nil
		}
		symnet.Handler = func(r *symnet.Request) *symnet.Answer {
			sym.RunBackground()
			same()
			symraft.Servers = []raft.Server{{ID: "other:8000", Address: "other:12000"}, {ID: "me:8000", Address: "me:12000"}}
			symraft.Members[0].Lead(false)
			symraft.LeaderAddr, symraft.LeaderID = "other:12000", "other:8000"
			return &symnet.Answer{Status: 200, Body: []byte("{}")}
		}
	}
	if again {
		n := sym.Choose("others", 3)
		at := sym.Choose("place", n+1)
		for i := 0; i <= n; i++ {
			h := "h" + string(rune('0'+i))
			if i == at {
				h = "me"
			}
			symraft.Servers = append(symraft.Servers, raft.Server{ID: raft.ServerID(h + ":8000"), Address: raft.ServerAddress(h + ":12000")})
		}
	}
	own := func() {
		s := symkube.Find("default", svc)
		sym.Assert(s != nil && symkube.Count() == 1, "C29: the leader's endpoint is not published")
		sym.Assert(len(s.Addresses) == 1 && s.Addresses[0] == "10.0.0.1", "C29: the published endpoint is not the leader's address")
		sym.Assert(len(s.Ports) == 1 && s.Ports[0] == int32(want), "C29: the published endpoint is not the leader's port")
	}
	served := false
	symserver.OnHTTP = func() {
		served = true
		sym.RunBackground()
		m := symraft.Members[0]
		if how > 0 {
			same()
			m.Lead(true)
			sym.RunBackground()
		}
		own()
		m.Lead(false)
		sym.RunBackground()
		own()
		symkube.Remove("default", svc)
		symkube.Put("default", svc, "10.9.9.9", 9)
		m.Lead(true)
		sym.RunBackground()
		own()
		sym.Reach("published")
	}
	sym.Assert(run() == "" && served, "C29: the program gives up")
}

// follow runs a server that joins a leader on another host, which serves HTTP and
// gRPC on the same port as it does itself or on another one, and follows it.
func follow(serving func(own, leader string)) {
	symconf.Start()
	defer symconf.End()
	f := "config.yaml"
	own := "1234"
	led := []string{own, "1235"}[sym.Choose("leader's port", 2)]
	symconf.File(f, "http.port", own)
	symconf.File(f, "grpc.address", "me:"+own)
	sym.NotNative()
	n, _ := strconv.Atoi(own)
	symserver.Port = n
	symconf.File(f, "cluster.node_id", "n2")
	symconf.File(f, "raft.address", "me:9000")
	symconf.File(f, "cluster.join_addr", "lead:"+led)
	symnet.Handler = func(r *symnet.Request) *symnet.Answer {
		symraft.Servers = []raft.Server{{ID: "n1", Address: "lead:9000"}, {ID: "n2", Address: "me:9000"}}
		symraft.Members[0].Lead(false)
		symraft.LeaderAddr, symraft.LeaderID = "lead:9000", "n1"
		return &symnet.Answer{Status: 200, Body: []byte("{}")}
	}
	served := false
	symserver.OnHTTP = func() {
		served = true
		sym.RunBackground()
		serving(own, led)
	}
	x := run()
	sym.Assert(x == "", "the program gives up: "+x)
	sym.Assert(served, "the program does not serve")
}

// A whole server that follows a leader on another host forwards a request to the
// leader's HTTP port, whatever its own is.
func C24_server() {
	follow(func(own, led string) {
		before := len(symnet.Sent)
		symnet.Handler = func(r *symnet.Request) *symnet.Answer {
			return &symnet.Answer{Status: 200, Body: []byte(`{"status":"CREATED","name":"q","type":"fair"}`)}
		}
		c, _ := symhttp.Current().Do("POST", "/API/v1/queues", "application/json", []byte(`{"name":"q","type":"fair"}`))
		sym.Assert(len(symnet.Sent) == before+1, "C24: a request is not forwarded exactly once")
		sym.Assert(c == 200, "C24: a success of the leader is answered as a failure")
		r := symnet.Sent[before]
		sym.AssertKF(r.Is("POST", "lead:"+led, "/API/v1/queues"), "C24: a request is not forwarded to the leader", "C24-ports", own != led && r.Is("POST", "lead:"+own, "/API/v1/queues"))
		sym.Reach("forwarded")
	})
}

// The same over gRPC.
func C25_server() {
	follow(func(own, led string) {
		g := symserver.Impl[0].(pb.DOQServer)
		calls := 0
		host := ""
		symgrpc.Handler = func(h, method string, req, reply any) error {
			calls++
			host = h
			return nil
		}
		_, err := g.CreateQueue(context.Background(), &pb.CreateQueueRequest{Name: "q", Type: "fair"})
		sym.Assert(err == nil && calls == 1, "C25: a request is not forwarded exactly once")
		sym.AssertKF(host == "lead:"+led, "C25: a request is not forwarded to the leader", "C25-ports", own != led && host == "lead:"+own)
		sym.Reach("forwarded")
	})
}

// The data directory cannot be made, the store cannot be opened, the gRPC address
// cannot be listened on, the own address cannot be looked up, or the membership
// cannot be read once the node has joined: the program ends and serves nothing.
func C32_failure() {
	symconf.Start()
	defer symconf.End()
	f := "config.yaml"
	symconf.File(f, "grpc.address", "g:1")
	what := sym.Choose("what", 5)
	switch what {
	case 0, 1:
		symserver.Fault = []string{"dir", "listen"}[what]
	case 2:
		symenv.OpenHook = func(badger.Options) error { return symserver.ErrFault }
	case 3:
		symconf.File(f, "cluster.join_addr", "h:80")
		symnet.Handler = func(r *symnet.Request) *symnet.Answer {
			symraft.FailConf = true
			return &symnet.Answer{Status: 200, Body: []byte("{}")}
		}
	case 4:
		symconf.File(f, "cluster.service_name", "s")
		symnet.Hostname = func() (string, error) { return "me", nil }
		switch sym.Choose("lookup", 2) {
		case 0:
			symnet.SRV = func(service, proto, name string) ([]*net.SRV, error) { return nil, symserver.ErrFault }
		case 1:
			symnet.SRV = func(service, proto, name string) ([]*net.SRV, error) {
				return []*net.SRV{{Target: "me", Port: 8000}}, nil
			}
		}
	}
	x := run()
	sym.Assert(x != "", "C32: the program goes on after a failure to start")
	sym.Assert(symserver.HTTP == nil && symserver.GRPC == nil, "C32: a node that could not start serves")
	sym.Reach("given up")
}

func size(quick, deep int) int {
	if sym.Deep() {
		return deep
	}
	return quick
}
