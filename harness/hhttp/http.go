// Package hhttp checks the HTTP API of a leader and of a follower.
package hhttp

import (
	"embed"
	"encoding/json"
	"errors"
	"fmt"
	"strconv"
	"strings"

	"github.com/kgantsov/doq/pkg/config"
	"github.com/kgantsov/doq/pkg/http"
	"github.com/kgantsov/doq/pkg/queue"
	"github.com/kgantsov/doq/pkg/zzverif/sym"
	"github.com/kgantsov/doq/pkg/zzverif/symhttp"
	"github.com/kgantsov/doq/pkg/zzverif/symnet"
)

var errNode = errors.New("operation failed")

// op is an operation on a node.
type op struct {
	kind     string
	queue    string
	typ      string
	id       uint64
	group    string
	priority int64
	content  string
	ack      bool
}

// node records the operations it is asked for.
type node struct {
	http.Node
	leader bool
	host   string
	calls  []op
	fail   bool
	msg    *queue.Message
	infos  []*queue.QueueInfo
}

func (n *node) result() error {
	if n.fail {
		return errNode
	}
	return nil
}
func (n *node) add(o op)           { n.calls = append(n.calls, o) }
func (n *node) IsLeader() bool     { return n.leader }
func (n *node) Leader() string     { return n.host }
func (n *node) GenerateID() uint64 { return 1 }
func (n *node) CreateQueue(typ, name string) error {
	n.add(op{kind: "create", queue: name, typ: typ})
	return n.result()
}
func (n *node) DeleteQueue(name string) error {
	n.add(op{kind: "delete", queue: name})
	return n.result()
}
func (n *node) Enqueue(name, group string, priority int64, content string) (*queue.Message, error) {
	n.add(op{kind: "enqueue", queue: name, group: group, priority: priority, content: content})
	if n.fail {
		return nil, errNode
	}
	return &queue.Message{ID: n.msg.ID, Group: group, Priority: priority, Content: content}, nil
}
func (n *node) Dequeue(name string, ack bool) (*queue.Message, error) {
	n.add(op{kind: "dequeue", queue: name, ack: ack})
	if n.fail {
		return nil, errNode
	}
	return n.msg, nil
}
func (n *node) Ack(name string, id uint64) error {
	n.add(op{kind: "ack", queue: name, id: id})
	return n.result()
}
func (n *node) Nack(name string, id uint64) error {
	n.add(op{kind: "nack", queue: name, id: id})
	return n.result()
}
func (n *node) UpdatePriority(name string, id uint64, priority int64) error {
	n.add(op{kind: "priority", queue: name, id: id, priority: priority})
	return n.result()
}
func (n *node) Join(id, addr string) error {
	n.add(op{kind: "join", queue: id, content: addr})
	return n.result()
}
func (n *node) GetQueues() []*queue.QueueInfo { return n.infos }
func (n *node) GetQueueInfo(name string) (*queue.QueueInfo, error) {
	n.add(op{kind: "info", queue: name})
	if n.fail {
		return nil, errNode
	}
	return n.infos[0], nil
}

func serve(n *node, port string) *symhttp.Server {
	c := &config.Config{}
	c.Http.Port = port
	return symhttp.New(func() { http.NewHttpService(c, n, embed.FS{}, embed.FS{}) })
}

// name is a queue name as it stands in a URL.
func name() string {
	n := sym.StrR("queue", 1, 'a', 'z')
	switch sym.Choose("queue name", 3) {
	case 1:
		n += "-" + sym.StrR("queue", 1, '0', '9') + "_." + sym.StrR("queue", 1, 'A', 'Z')
	case 2:
		n += "%20" + n
	}
	return n
}

// text is any ASCII text of two characters, none, or a long one.
func text(l string) string {
	s := ""
	n := sym.Choose(l+" length", 3)
	if n == 2 {
		if l == "name" {
			return sym.Long(1001)
		}
		return sym.Long(70001)
	}
	for i := 2 * n; i > 0; i-- {
		s += sym.StrR(l, 1, 0, 0x7f)
	}
	return s
}

// request is a request and the operation it asks for.
type request struct {
	op
	method, uri string
	body        []byte
}

func marshal(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

func anyRequest() *request {
	r := &request{}
	r.kind = []string{"create", "delete", "enqueue", "dequeue", "ack", "nack", "priority"}[sym.Choose("operation", 7)]
	const base = "/API/v1/queues"
	if r.kind == "create" {
		r.queue = text("name")
		r.typ = []string{"delayed", "fair"}[sym.Choose("type", 2)]
		r.method, r.uri, r.body = "POST", base, marshal(map[string]string{"name": r.queue, "type": r.typ})
		return r
	}
	r.queue = name()
	u := base + "/" + r.queue
	switch r.kind {
	case "delete":
		r.method, r.uri = "DELETE", u
		return r
	case "enqueue":
		r.priority = sym.I64R("priority", 0, 1<<63-1)
		r.content = text("content")
		b := map[string]any{"priority": r.priority, "content": r.content}
		r.group = "default"
		switch sym.Choose("group", 4) {
		case 1:
			b["group"] = ""
		case 3:
			r.group = sym.Long(3001)
			b["group"] = r.group
		case 2:
			r.group = sym.StrR("group", 2, 1, 0x7f)
			b["group"] = r.group
		}
		r.method, r.uri, r.body = "POST", u+"/messages", marshal(b)
		return r
	case "dequeue":
		r.method, r.uri = "GET", u+"/messages"
		switch sym.Choose("ack", 3) {
		case 1:
			r.uri += "?ack=false"
		case 2:
			r.ack = true
			r.uri += "?ack=true"
		}
		return r
	}
	r.id = sym.U64R("id", 0, 1<<63-1)
	u += "/messages/" + strconv.FormatUint(r.id, 10) + "/" + r.kind
	r.method, r.uri = "POST", u
	if r.kind == "priority" {
		r.priority = sym.I64R("priority", 0, 1<<63-1)
		r.method, r.body = "PUT", marshal(map[string]int64{"priority": r.priority})
	}
	return r
}

type answer struct {
	Status, ID, Group, Content, Name, Type string
	Priority                               int64
}

// message is the message a node has for a client.
func message() *queue.Message {
	return &queue.Message{
		ID:       sym.U64R("message id", 0, 1<<63-1),
		Group:    text("message group"),
		Priority: sym.I64R("message priority", 0, 1<<63-1),
		Content:  text("message content"),
	}
}

func (r *request) one(p string, n *node) {
	sym.Assert(len(n.calls) == 1, p+": a request is not performed exactly once")
	sym.Assert(n.calls[0].kind == r.kind, p+": a request performs another operation")
	sym.Assert(n.calls[0] == r.op, p+": an operation with other values than the request's")
}

// ok checks a successful answer.
func (r *request) ok(p string, n *node, status int, body []byte) {
	sym.Assert(status == 200, p+": a successful operation is answered as a failure")
	var a answer
	sym.Assert(json.Unmarshal(body, &a) == nil, p+": the answer is not JSON")
	want := answer{Status: map[string]string{
		"create": "CREATED", "delete": "DELETED", "enqueue": "ENQUEUED", "dequeue": "DEQUEUED",
		"ack": "ACKNOWLEDGED", "nack": "UNACKNOWLEDGED", "priority": "UPDATED",
	}[r.kind]}
	switch r.kind {
	case "create":
		want.Name, want.Type = r.queue, r.typ
	case "enqueue":
		want.ID = strconv.FormatUint(n.msg.ID, 10)
		want.Group, want.Priority, want.Content = r.group, r.priority, r.content
	case "dequeue":
		want.ID = strconv.FormatUint(n.msg.ID, 10)
		want.Group, want.Priority, want.Content = n.msg.Group, n.msg.Priority, n.msg.Content
	case "ack", "nack", "priority":
		want.ID = strconv.FormatUint(r.id, 10)
		want.Priority = r.priority
	}
	sym.Assert(a.Status == want.Status, p+": the answer is another operation's")
	sym.Assert(a.ID == want.ID, p+": the answer carries another id")
	sym.Assert(a == want, p+": the answer does not carry the operation's result")
	sym.Reach(r.kind)
}

// Every request that changes a queue or a message, with any values: queue names
// of up to 5 characters, ids and priorities from 0 to 2^63-1, contents and
// groups of up to 2 ASCII characters (or a long one), groups and the acknowledgement mode given
// or not; the node does it with any result or fails.
func C23_leader() {
	n := &node{leader: true, host: "me", msg: &queue.Message{}}
	s := serve(n, "8000")
	r := anyRequest()
	n.fail = sym.Choose("fails", 2) == 1
	if r.kind == "enqueue" || r.kind == "dequeue" {
		n.msg = message()
	}
	status, body := s.Do(r.method, r.uri, "application/json", r.body)
	r.one("C23", n)
	sym.Assert(symnet.Noted() == 0, "C23: the leader asks another node")
	if n.fail {
		sym.Assert(status >= 400, "C23: a failed operation is answered as a success")
		sym.Reach("failed")
		return
	}
	r.ok("C23", n, status, body)
}

func info(i int) *queue.QueueInfo {
	return &queue.QueueInfo{
		Name: "q" + strconv.Itoa(i) + text("name"), Type: []string{"delayed", "fair"}[i],
		Stats: &queue.QueueStats{EnqueueRPS: 1.5 + float64(i), DequeueRPS: 2.5, AckRPS: 3.5 + float64(2*i), NackRPS: 4.5},
		Ready: sym.I64R("ready", 0, 1<<62), Unacked: sym.I64R("unacked", 0, 1<<62), Total: sym.I64R("total", 0, 1<<62),
	}
}

type infoAnswer struct {
	Name, Type string
	E          float64 `json:"enqueue_rps"`
	D          float64 `json:"dequeue_rps"`
	A          float64 `json:"ack_rps"`
	N          float64 `json:"nack_rps"`
	Ready      int64
	Unacked    int64
	Total      int64
}

func same(a infoAnswer, i *queue.QueueInfo) bool {
	return sym.And(sym.And(a.Name == i.Name, a.Type == i.Type), sym.And(
		a.E == i.Stats.EnqueueRPS && a.D == i.Stats.DequeueRPS && a.A == i.Stats.AckRPS && a.N == i.Stats.NackRPS,
		sym.And(a.Ready == i.Ready, sym.And(a.Unacked == i.Unacked, a.Total == i.Total))))
}

// The list of 0 to 2 queues (or of 60 given ones) and the information of one queue with any counts,
// on the leader and on a follower, are exactly the node's.
func C23_info() {
	n := &node{leader: sym.Choose("leader", 2) == 1, host: "me"}
	k := sym.Choose("queues", 4)
	for i := k; i > 0 && k < 3; i-- {
		n.infos = append(n.infos, info(len(n.infos)))
	}
	if k == 3 {
		for i := 0; i < 60; i++ {
			n.infos = append(n.infos, &queue.QueueInfo{Name: "queue" + strconv.Itoa(i), Type: "fair", Stats: &queue.QueueStats{AckRPS: float64(i)}, Total: int64(i)})
		}
	}
	s := serve(n, "8000")
	status, body := s.Do("GET", "/API/v1/queues", "", nil)
	sym.Assert(status == 200, "C23: the list of queues fails")
	var l struct{ Queues []infoAnswer }
	sym.Assert(json.Unmarshal(body, &l) == nil, "C23: the answer is not JSON")
	sym.Assert(len(l.Queues) == len(n.infos), "C23: the list of queues is not the node's")
	for i := range l.Queues {
		sym.Assert(same(l.Queues[i], n.infos[i]), "C23: the list of queues is not the node's")
	}
	sym.Reach("list")
	if len(n.infos) == 0 {
		n.fail = true
	}
	q := name()
	if !n.fail {
		n.infos[0].Name = q
	}
	status, body = s.Do("GET", "/API/v1/queues/"+q, "", nil)
	sym.Assert(len(n.calls) == 1 && n.calls[0].queue == q, "C23: another queue's information is given")
	if n.fail {
		sym.Assert(status >= 400, "C23: a failed operation is answered as a success")
		return
	}
	var a infoAnswer
	sym.Assert(status == 200 && json.Unmarshal(body, &a) == nil, "C23: the information of a queue fails")
	sym.Assert(same(a, n.infos[0]), "C23: the information of a queue is not the node's")
	sym.Reach("info")
}

// A join request with any id and address is passed to the node once and
// answered as it went.
func C23_join() {
	n := &node{leader: sym.Choose("leader", 2) == 1, host: "me", fail: sym.Choose("fails", 2) == 1}
	s := serve(n, "8000")
	id, addr := text("id"), text("addr")
	status, _ := s.Do("POST", "/join", "application/json", marshal(map[string]string{"id": id, "addr": addr}))
	sym.Assert(len(n.calls) == 1 && n.calls[0].kind == "join", "C23: a join request is not performed exactly once")
	sym.Assert(sym.And(n.calls[0].queue == id, n.calls[0].content == addr), "C23: a join with another id or address")
	sym.Assert((status == 200) == !n.fail, "C23: a join is not answered as it went")
	sym.Reach(fmt.Sprint("joined ", !n.fail))
}

// Requests that do not fit the API (a negative priority, an unknown queue type,
// an id that is no number, no body, a missing or unknown field) are refused and
// perform nothing.
func C23_invalid() {
	n := &node{leader: true, host: "me", msg: &queue.Message{ID: 1}}
	s := serve(n, "8000")
	status := 0
	neg := sym.I64R("priority", -1<<63, -1)
	switch sym.Choose("request", 9) {
	case 0:
		status, _ = s.Do("POST", "/API/v1/queues/q/messages", "application/json", marshal(map[string]any{"priority": neg, "content": "c"}))
	case 1:
		status, _ = s.Do("PUT", "/API/v1/queues/q/messages/1/priority", "application/json", marshal(map[string]any{"priority": neg}))
	case 2:
		t := sym.StrR("type", 4, 'a', 'z')
		sym.Assume(t != "fair")
		status, _ = s.Do("POST", "/API/v1/queues", "application/json", marshal(map[string]string{"name": "q", "type": t}))
	case 3:
		status, _ = s.Do("POST", "/API/v1/queues/q/messages/x/ack", "", nil)
	case 4:
		status, _ = s.Do("POST", "/API/v1/queues/q/messages/-1/nack", "", nil)
	case 5:
		status, _ = s.Do("POST", "/API/v1/queues/q/messages", "application/json", nil)
	case 6:
		status, _ = s.Do("POST", "/API/v1/queues/q/messages", "application/json", marshal(map[string]any{"priority": 1}))
	case 7:
		status, _ = s.Do("POST", "/API/v1/queues/q/messages", "application/json", marshal(map[string]any{"priority": 1, "content": "c", "prio": 1}))
	case 8:
		status, _ = s.Do("POST", "/API/v1/queues/q/messages", "application/json", []byte("{"))
	}
	sym.Assert(status >= 400 && status < 500, "C23: a request that does not fit the API is not refused")
	sym.Assert(len(n.calls) == 0, "C23: a refused request is performed")
	sym.Reach("refused")
}

// Every request of C23_leader arrives at a follower, with the leader's HTTP port
// set or not. The leader is a second instance of the same service: it does the
// operation with any result, fails, or cannot be reached.
func C24_follower() {
	port := []string{"8000", ""}[sym.Choose("port", 2)]
	n := &node{host: "leader.host"}
	s := serve(n, port)
	l := &node{leader: true, host: "leader.host", msg: &queue.Message{}}
	ls := serve(l, port)
	r := anyRequest()
	how := sym.Choose("leader", 3)
	l.fail = how == 1
	if (r.kind == "enqueue" || r.kind == "dequeue") && how == 0 {
		l.msg = message()
	}
	symnet.Handler = func(q *symnet.Request) *symnet.Answer {
		want := "leader.host"
		if port != "" {
			want += ":" + port
		}
		sym.Assert(q.Host == want && strings.HasPrefix(q.URL, "http://"), "C24: a request is sent to another node than the leader")
		if how == 2 {
			return &symnet.Answer{Err: symnet.ErrDown}
		}
		st, b := ls.Do(q.Method, q.URI, q.Type, q.Body)
		return &symnet.Answer{Status: st, Body: b}
	}
	status, body := s.Do(r.method, r.uri, "application/json", r.body)
	sym.Assert(len(n.calls) == 0, "C24: a follower performs a request itself")
	sym.Assert(symnet.Noted() == 1, "C24: a request is not forwarded exactly once")
	if how == 2 {
		sym.Assert(len(l.calls) == 0 && status >= 400, "C24: an unreachable leader is answered as a success")
		sym.Reach("unreachable")
		return
	}
	r.one("C24", l)
	if how == 1 {
		sym.Assert(status >= 400, "C24: a failed operation is answered as a success")
		sym.Reach("failed")
		return
	}
	r.ok("C24", l, status, body)
}

// The leader answers a forwarded request with any status from 300 to 599, or
// with 200 and a body that is not the answer (empty, cut off, not JSON).
func C24_broken() {
	n := &node{host: "leader.host"}
	s := serve(n, "8000")
	r := anyRequest()
	bad := sym.Choose("answer", 4)
	symnet.Handler = func(q *symnet.Request) *symnet.Answer {
		switch bad {
		case 0:
			return &symnet.Answer{Status: int(sym.I64R("status", 300, 599)), Body: []byte(`{"status":"ENQUEUED","id":"1"}`)}
		case 1:
			return &symnet.Answer{Status: 200}
		case 2:
			return &symnet.Answer{Status: 200, Body: []byte(`{"status":"ENQUEUED","id":`)}
		}
		return &symnet.Answer{Status: 200, Body: []byte("<html>")}
	}
	status, _ := s.Do(r.method, r.uri, "application/json", r.body)
	sym.Assert(len(n.calls) == 0, "C24: a follower performs a request itself")
	sym.Assert(symnet.Noted() == 1, "C24: a request is not forwarded exactly once")
	sym.Assert(status >= 400, "C24: a broken answer of the leader is answered as a success")
	sym.Reach("refused")
}

// A request arrives while no leader is known: it is refused, nothing is sent.
func C24_unknown() {
	n := &node{host: ""}
	s := serve(n, "8000")
	r := anyRequest()
	symnet.Handler = func(q *symnet.Request) *symnet.Answer { return &symnet.Answer{Err: symnet.ErrDown} }
	status, _ := s.Do(r.method, r.uri, "application/json", r.body)
	sym.Assert(len(n.calls) == 0, "C24: a follower performs a request itself")
	sym.Assert(status >= 400, "C24: a request is answered as a success without a leader")
	sym.Assert(symnet.Noted() == 0, "C24: a request is sent to no host, that is to the follower itself")
	sym.Reach("refused")
}
