// Package hgrpc checks the gRPC API of a leader and of a follower.
package hgrpc

import (
	"context"
	"errors"
	"strings"

	"github.com/kgantsov/doq/pkg/grpc"
	"github.com/kgantsov/doq/pkg/http"
	pb "github.com/kgantsov/doq/pkg/proto"
	"github.com/kgantsov/doq/pkg/queue"
	"github.com/kgantsov/doq/pkg/zzverif/sym"
	"github.com/kgantsov/doq/pkg/zzverif/symgrpc"
)

var errNode = errors.New("operation failed")

// op is an operation on a node.
type op struct {
	kind     string
	queue    string
	typ      string
	id       uint64
	group    string
	priority int64
	content  string
	ack      bool
}

// node records the operations it is asked for.
type node struct {
	http.Node
	leader bool
	host   func() string
	calls  []op
	fail   bool
	msg    *queue.Message
}

func (n *node) result() error {
	if n.fail {
		return errNode
	}
	return nil
}
func (n *node) add(o op)           { n.calls = append(n.calls, o) }
func (n *node) IsLeader() bool     { return n.leader }
func (n *node) Leader() string     { return n.host() }
func (n *node) GenerateID() uint64 { return 1 }
func (n *node) CreateQueue(typ, name string) error {
	n.add(op{kind: "CreateQueue", queue: name, typ: typ})
	return n.result()
}
func (n *node) DeleteQueue(name string) error {
	n.add(op{kind: "DeleteQueue", queue: name})
	return n.result()
}
func (n *node) Enqueue(name, group string, priority int64, content string) (*queue.Message, error) {
	n.add(op{kind: "Enqueue", queue: name, group: group, priority: priority, content: content})
	if n.fail {
		return nil, errNode
	}
	return n.msg, nil
}
func (n *node) Dequeue(name string, ack bool) (*queue.Message, error) {
	n.add(op{kind: "Dequeue", queue: name, ack: ack})
	if n.fail {
		return nil, errNode
	}
	return n.msg, nil
}
func (n *node) Ack(name string, id uint64) error {
	n.add(op{kind: "Ack", queue: name, id: id})
	return n.result()
}
func (n *node) Nack(name string, id uint64) error {
	n.add(op{kind: "Nack", queue: name, id: id})
	return n.result()
}
func (n *node) UpdatePriority(name string, id uint64, priority int64) error {
	n.add(op{kind: "UpdatePriority", queue: name, id: id, priority: priority})
	return n.result()
}

var kinds = []string{"CreateQueue", "DeleteQueue", "Enqueue", "Dequeue", "Ack", "Nack", "UpdatePriority"}

// short makes texts one character long.
var short bool

func text(l string) string {
	if short {
		return sym.StrR(l, 1, 0, 0x7f)
	}
	s := ""
	n := sym.Choose(l+" length", 3)
	if n == 2 {
		return sym.Long(70001)
	}
	for i := 2 * n; i > 0; i-- {
		s += sym.StrR(l, 1, 0, 0x7f)
	}
	return s
}

// request is any request of the kind, the fields of which are any values.
func request(kind string) op {
	o := op{kind: kind, queue: "q" + sym.StrR("queue", 1, 0, 0x7f)}
	switch kind {
	case "CreateQueue":
		o.typ = text("type")
	case "Enqueue":
		o.group, o.priority, o.content = text("group"), sym.I64("priority"), text("content")
	case "Dequeue":
		o.ack = sym.Bool("ack")
	case "Ack", "Nack":
		o.id = sym.U64("id")
	case "UpdatePriority":
		o.id, o.priority = sym.U64("id"), sym.I64("priority")
	}
	return o
}

// answer is what a call returns.
type answer struct {
	ok  bool
	msg queue.Message
}

// call does the request on a server.
func call(s *grpc.QueueServer, o op) (*answer, error) {
	ctx := context.Background()
	switch o.kind {
	case "CreateQueue":
		r, err := s.CreateQueue(ctx, &pb.CreateQueueRequest{Name: o.queue, Type: o.typ})
		return &answer{ok: r.GetSuccess()}, err
	case "DeleteQueue":
		r, err := s.DeleteQueue(ctx, &pb.DeleteQueueRequest{Name: o.queue})
		return &answer{ok: r.GetSuccess()}, err
	case "Enqueue":
		r, err := s.Enqueue(ctx, &pb.EnqueueRequest{QueueName: o.queue, Group: o.group, Priority: o.priority, Content: o.content})
		return &answer{r.GetSuccess(), queue.Message{ID: r.GetId(), Group: r.GetGroup(), Priority: r.GetPriority(), Content: r.GetContent()}}, err
	case "Dequeue":
		r, err := s.Dequeue(ctx, &pb.DequeueRequest{QueueName: o.queue, Ack: o.ack})
		return &answer{r.GetSuccess(), queue.Message{ID: r.GetId(), Group: r.GetGroup(), Priority: r.GetPriority(), Content: r.GetContent()}}, err
	case "Ack":
		r, err := s.Ack(ctx, &pb.AckRequest{QueueName: o.queue, Id: o.id})
		return &answer{ok: r.GetSuccess()}, err
	case "Nack":
		r, err := s.Nack(ctx, &pb.NackRequest{QueueName: o.queue, Id: o.id})
		return &answer{ok: r.GetSuccess()}, err
	}
	r, err := s.UpdatePriority(ctx, &pb.UpdatePriorityRequest{QueueName: o.queue, Id: o.id, Priority: o.priority})
	return &answer{ok: r.GetSuccess()}, err
}

// remote does a call that arrives at a server from another node.
func remote(s *grpc.QueueServer, method string, req, reply any) error {
	ctx := context.Background()
	switch q := req.(type) {
	case *pb.CreateQueueRequest:
		r, err := s.CreateQueue(ctx, q)
		if err == nil {
			reply.(*pb.CreateQueueResponse).Success = r.Success
		}
		return err
	case *pb.DeleteQueueRequest:
		r, err := s.DeleteQueue(ctx, q)
		if err == nil {
			reply.(*pb.DeleteQueueResponse).Success = r.Success
		}
		return err
	case *pb.EnqueueRequest:
		r, err := s.Enqueue(ctx, q)
		if err == nil {
			p := reply.(*pb.EnqueueResponse)
			p.Success, p.QueueName, p.Id, p.Group, p.Priority, p.Content = r.Success, r.QueueName, r.Id, r.Group, r.Priority, r.Content
		}
		return err
	case *pb.DequeueRequest:
		r, err := s.Dequeue(ctx, q)
		if err == nil {
			p := reply.(*pb.DequeueResponse)
			p.Success, p.QueueName, p.Id, p.Group, p.Priority, p.Content = r.Success, r.QueueName, r.Id, r.Group, r.Priority, r.Content
		}
		return err
	case *pb.AckRequest:
		r, err := s.Ack(ctx, q)
		if err == nil {
			reply.(*pb.AckResponse).Success = r.Success
		}
		return err
	case *pb.NackRequest:
		r, err := s.Nack(ctx, q)
		if err == nil {
			reply.(*pb.NackResponse).Success = r.Success
		}
		return err
	case *pb.UpdatePriorityRequest:
		r, err := s.UpdatePriority(ctx, q)
		if err == nil {
			reply.(*pb.UpdatePriorityResponse).Success = r.Success
		}
		return err
	}
	return errors.New("unknown method " + method)
}

func check(o op, n *node, a *answer, err error) {
	sym.Assert(len(n.calls) == 1, "C25: a call is not performed exactly once")
	sym.Assert(n.calls[0].kind == o.kind, "C25: a call performs another operation")
	sym.Assert(n.calls[0] == o, "C25: an operation with other values than the call's")
	n.calls = nil
	if n.fail {
		sym.Assert(err != nil, "C25: a failed operation is answered as a success")
		sym.Reach("failed")
		return
	}
	sym.Assert(err == nil && a.ok, "C25: a successful operation is answered as a failure")
	if o.kind == "Enqueue" || o.kind == "Dequeue" {
		sym.Assert(a.msg == *n.msg, "C25: the answer does not carry the operation's result")
	} else {
		sym.Assert(a.msg == queue.Message{}, "C25: the answer carries something else")
	}
	sym.Reach(o.kind)
}

func message() *queue.Message {
	return &queue.Message{ID: sym.U64("message id"), Group: text("message group"), Priority: sym.I64("message priority"), Content: text("message content")}
}

// Every unary call on a leader with any values of its fields (texts of up to 2
// ASCII characters, or long texts), done with any result or failing; twice in a row.
func C25_leader() {
	short = false
	n := &node{leader: true, host: func() string { return "me" }, msg: &queue.Message{}}
	s := grpc.NewQueueServer(n, 9000)
	o := request(kinds[sym.Choose("call", 7)])
	n.fail = sym.Choose("fails", 2) == 1
	if o.kind == "Enqueue" || o.kind == "Dequeue" {
		n.msg = message()
	}
	for i := 0; i < 2; i++ {
		a, err := call(s, o)
		check(o, n, a, err)
	}
	sym.Assert(len(symgrpc.Dialled) == 0, "C25: the leader asks another node")
}

// Three calls (thorough: four) on a follower, between which the leader changes
// between two nodes, is unknown, cannot be reached or connected to, or the follower becomes the
// leader itself. Each is done once, by the leader at that time only, with the
// values of the call, and answered with its result.
func C25_follower() {
	short = true
	hosts := []string{"", "node-1.ns", "node-2.ns"}
	cur := 0
	port := []int{9000, 0}[sym.Choose("port", 2)]
	nodes := []*node{}
	servers := []*grpc.QueueServer{}
	for range hosts {
		n := &node{leader: true, host: func() string { return "x" }, msg: &queue.Message{}}
		nodes = append(nodes, n)
		servers = append(servers, grpc.NewQueueServer(n, port))
	}
	n := &node{host: func() string { return hosts[cur] }, msg: &queue.Message{}}
	s := grpc.NewQueueServer(n, port)
	down := false
	asked := 0
	symgrpc.Handler = func(host, method string, req, reply any) error {
		asked++
		sym.Assert(asked == 1, "C25: a call is forwarded more than once")
		for i := 1; i < len(hosts); i++ {
			h := hosts[i]
			if port != 0 {
				h += ":9000"
			}
			if strings.TrimPrefix(host, "passthrough:///") == h {
				sym.Assert(i == cur, "C25: a call is sent to a node that is not the leader")
				if down {
					return symgrpc.ErrDown
				}
				return remote(servers[i], method, req, reply)
			}
		}
		sym.Assert(false, "C25: a call is sent to a node that is not the leader")
		return symgrpc.ErrDown
	}
	k := 3
	if sym.Deep() {
		k = 4
	}
	for i := 0; i < k; i++ {
		cur = sym.Choose("leader", 4)
		kind := kinds[2+i%3]
		if i == k-1 {
			kind = kinds[sym.Choose("call", 7)]
		}
		o := request(kind)
		n.leader = cur == 3
		down = false
		l := n
		symgrpc.DialFails, symgrpc.Refused = false, 0
		if cur < 3 {
			r := sym.Choose("reachable", 3)
			down, symgrpc.DialFails = r == 1, r == 2
			l = nodes[cur]
		}
		l.fail = !down && cur > 0 && sym.Choose("fails", 2) == 1
		if o.kind == "Enqueue" || o.kind == "Dequeue" {
			l.msg = &queue.Message{ID: sym.U64("message id"), Group: "g", Priority: sym.I64("message priority"), Content: "c"}
		}
		asked = 0
		a, err := call(s, o)
		down = down || symgrpc.Refused > 0
		for _, m := range append(nodes, n) {
			if m != l || cur == 0 || down {
				sym.Assert(len(m.calls) == 0, "C25: a call is performed by a node that is not the leader")
			}
		}
		if cur == 0 || down {
			sym.Assert(err != nil, "C25: a call is answered as a success without a leader")
			sym.Reach("refused")
			continue
		}
		check(o, l, a, err)
	}
}

// Two clients call a follower at the same time, for the first time or after a
// change of the leader: both calls are done by the leader. Any interleaving
// with up to 2 preemptions (thorough: 3).
func C25_concurrent() {
	cur := "node-1"
	l := &node{leader: true, host: func() string { return "x" }, msg: &queue.Message{}}
	ls := grpc.NewQueueServer(l, 9000)
	n := &node{host: func() string { return cur }, msg: &queue.Message{}}
	s := grpc.NewQueueServer(n, 9000)
	symgrpc.Handler = func(host, method string, req, reply any) error {
		sym.Assert(strings.TrimPrefix(host, "passthrough:///") == cur+":9000", "C25: a call is sent to a node that is not the leader")
		return remote(ls, method, req, reply)
	}
	if sym.Choose("earlier leader", 2) == 1 {
		_, err := call(s, op{kind: "Ack", queue: "q", id: 1})
		sym.Assert(err == nil, "C25: a call fails")
		cur = "node-2"
		l.calls = nil
	}
	p := 2
	if sym.Deep() {
		p = 3
	}
	done := make(chan error, 2)
	sym.Concurrent(p)
	for i := 0; i < 2; i++ {
		id := uint64(i)
		go func() {
			a, err := call(s, op{kind: "Nack", queue: "q", id: id})
			if err == nil && !a.ok {
				err = errNode
			}
			done <- err
		}()
	}
	e1, e2 := <-done, <-done
	sym.Sequential()
	sym.Assert(e1 == nil && e2 == nil, "C25: a call fails while another one is made")
	sym.Assert(len(l.calls) == 2 && l.calls[0].id+l.calls[1].id == 1, "C25: a call is not performed exactly once")
	sym.Reach("both")
}
