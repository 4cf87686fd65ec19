package hgrpc

import (
	"context"
	"errors"
	"io"
	"sync"
	"time"

	rpc "google.golang.org/grpc"

	"github.com/kgantsov/doq/pkg/grpc"
	"github.com/kgantsov/doq/pkg/http"
	pb "github.com/kgantsov/doq/pkg/proto"
	"github.com/kgantsov/doq/pkg/queue"
	"github.com/kgantsov/doq/pkg/zzverif/sym"
	"github.com/kgantsov/doq/pkg/zzverif/symenv"
)

var (
	errSend  = errors.New("send failed")
	errRecv  = errors.New("receive failed")
	errEmpty = errors.New("queue is empty")
)

// qnode is a leader with queues in memory.
type qnode struct {
	http.Node
	mu      sync.Mutex
	queues  map[string][]*queue.Message
	acks    map[string]bool
	handed  []*queue.Message
	calls   []op
	failing func(i int) bool
	next    uint64
	cid     uint64
}

func newQnode() *qnode {
	return &qnode{queues: map[string][]*queue.Message{}, acks: map[string]bool{}, next: 100}
}

func (n *qnode) IsLeader() bool { return true }
func (n *qnode) Leader() string { return "me" }
func (n *qnode) GenerateID() uint64 {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.cid++
	return n.cid
}

func (n *qnode) Enqueue(name, group string, priority int64, content string) (*queue.Message, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	i := len(n.calls)
	n.calls = append(n.calls, op{kind: "Enqueue", queue: name, group: group, priority: priority, content: content})
	if n.failing != nil && n.failing(i) {
		return nil, errNode
	}
	n.next++
	m := &queue.Message{ID: n.next, Group: group, Priority: priority, Content: content}
	n.queues[name] = append(n.queues[name], m)
	return m, nil
}

func (n *qnode) Dequeue(name string, ack bool) (*queue.Message, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	want, ok := n.acks[name]
	sym.Assert(ok, "C26: a queue without consumers is dequeued")
	sym.Assert(ack == want, "C26: a message is dequeued with another mode than the consumer's")
	q := n.queues[name]
	if len(q) == 0 {
		return nil, errEmpty
	}
	n.queues[name] = q[1:]
	n.handed = append(n.handed, q[0])
	return q[0], nil
}

// enqStream is a client's enqueue stream.
type enqStream struct {
	rpc.ServerStream
	reqs   []op
	end    error
	sent   []*pb.EnqueueResponse
	failAt int
	server *qnode
	recvd  int
}

func (s *enqStream) Context() context.Context { return context.Background() }
func (s *enqStream) Recv() (*pb.EnqueueRequest, error) {
	sym.Assert(len(s.server.calls) == s.recvd && len(s.sent) == s.recvd, "C26: the next request is read before the last one is enqueued and confirmed")
	if s.recvd == len(s.reqs) {
		return nil, s.end
	}
	o := s.reqs[s.recvd]
	s.recvd++
	return &pb.EnqueueRequest{QueueName: o.queue, Group: o.group, Priority: o.priority, Content: o.content}, nil
}
func (s *enqStream) Send(r *pb.EnqueueResponse) error {
	if len(s.sent) == s.failAt {
		return errSend
	}
	s.sent = append(s.sent, r)
	return nil
}

// An enqueue stream of up to 3 requests (thorough: 4) with any values that ends
// or breaks; any of the operations and any of the confirmations may fail.
func C26_enqueue() {
	n := newQnode()
	max := 4
	if sym.Deep() {
		max = 5
	}
	k := sym.Choose("requests", max)
	short = true
	st := &enqStream{server: n, end: io.EOF, failAt: sym.Choose("failing send", k+1)}
	if sym.Choose("broken", 2) == 1 {
		st.end = errRecv
	}
	if st.failAt == k {
		st.failAt = -1
	}
	for i := 0; i < k; i++ {
		st.reqs = append(st.reqs, request("Enqueue"))
	}
	bad := sym.Choose("failing operation", k+1)
	n.failing = func(i int) bool { return i == bad }
	s := grpc.NewQueueServer(n, 9000)
	err := s.EnqueueStream(st)
	// what should have happened
	calls, sent, failed := k, k, st.end != io.EOF
	if bad < k {
		calls, sent, failed = bad+1, bad, true
	}
	if st.failAt >= 0 && st.failAt < sent {
		calls, sent, failed = st.failAt+1, st.failAt, true
	}
	sym.Assert((err != nil) == failed, "C26: the end of a stream is not reported as it went")
	sym.Assert(len(n.calls) == calls, "C26: a request of a stream is not enqueued exactly once")
	for i := range n.calls {
		sym.Assert(n.calls[i] == st.reqs[i], "C26: a request of a stream is enqueued with other values")
	}
	sym.Assert(len(st.sent) == sent, "C26: a request of a stream is not confirmed exactly once")
	for i, r := range st.sent {
		o := st.reqs[i]
		sym.Assert(r.Success && r.Id == uint64(101+i), "C26: a confirmation is not of its request")
		sym.Assert(sym.And(r.Group == o.group, sym.And(r.Priority == o.priority, r.Content == o.content)), "C26: a confirmation is not of its request")
	}
	sym.Reach("done")
}

// deqStream is a consumer's dequeue stream.
type deqStream struct {
	rpc.ServerStream
	queue string
	ctx   context.Context
	stop  context.CancelFunc
	mu    sync.Mutex
	sent  []*pb.DequeueResponse
	fail  bool
	gate  chan struct{}
	ended bool
	err   error
}

func (s *deqStream) Context() context.Context { return s.ctx }
func (s *deqStream) Send(r *pb.DequeueResponse) error {
	s.mu.Lock()
	g := s.gate
	s.mu.Unlock()
	if g != nil {
		<-g
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.sent = append(s.sent, r)
	if s.fail {
		return errSend
	}
	return nil
}

func (n *qnode) consume(s *grpc.QueueServer, q string, ack bool) *deqStream {
	st := &deqStream{queue: q}
	st.ctx, st.stop = context.WithCancel(context.Background())
	n.acks[q] = ack
	go func() {
		err := s.DequeueStream(&pb.DequeueRequest{QueueName: q, Ack: ack}, st)
		st.mu.Lock()
		st.ended, st.err = true, err
		st.mu.Unlock()
	}()
	return st
}

// delivered checks that the messages the node handed out are those sent.
func (n *qnode) delivered(sts ...*deqStream) {
	seen := map[uint64]int{}
	for _, st := range sts {
		for _, r := range st.sent {
			seen[r.Id]++
			sym.Assert(r.Success, "C26: a message is sent as a failure")
			ok := false
			for _, m := range n.handed {
				if m.ID == r.Id {
					ok = true
					sym.Assert(sym.And(r.Group == m.Group, sym.And(r.Priority == m.Priority, r.Content == m.Content)), "C26: a message is sent with other values")
					sym.Assert(m.Content[:1] == st.queue, "C26: a message is sent to a consumer of another queue")
				}
			}
			sym.Assert(ok, "C26: a message is sent that was not handed out")
		}
	}
	for _, m := range n.handed {
		sym.Assert(seen[m.ID] == 1, "C26: a message that was handed out is not sent exactly once")
	}
}

// produce enqueues a message in the background and expects it to be done, within
// a second for every consumer that is too slow.
func (n *qnode) produce(s *grpc.QueueServer, q string, slow int) {
	done := false
	n.mu.Lock()
	i := len(n.calls)
	n.mu.Unlock()
	pr := sym.I64("priority")
	go func() {
		r, err := s.Enqueue(context.Background(), &pb.EnqueueRequest{QueueName: q, Group: "g", Priority: pr, Content: q + "m"})
		sym.Assert(err == nil && r.Success && r.Priority == pr, "C26: a message cannot be enqueued")
		done = true
	}()
	sym.RunBackground()
	for ; slow > 0 && !done; slow-- {
		symenv.FireTimers(time.Second)
	}
	sym.Assert(done, "C26: a producer is blocked by consumers")
	sym.Assert(len(n.calls) == i+1, "C26: a message is not enqueued exactly once")
}

// Two consumers of the same queue or of different ones, in either mode, and a
// history of three steps (thorough: four): a producer enqueues to either queue,
// a message appears by itself, a second passes, the first consumer is slow (its
// client takes nothing), takes again, its connection breaks, or it leaves.
func C26_dequeue() {
	n := newQnode()
	s := grpc.NewQueueServer(n, 9000)
	ack := sym.Choose("ack", 2) == 1
	c0 := n.consume(s, "a", ack)
	q1 := []string{"a", "b"}[sym.Choose("second queue", 2)]
	c1 := n.consume(s, q1, ack != (q1 == "b"))
	if q1 == "a" {
		n.acks["b"] = ack
	}
	sym.RunBackground()
	steps := 3
	if sym.Deep() {
		steps = 4
	}
	slow, gone := 0, false
	// a message that is enqueued is sent at once if a consumer waits for one
	produce := func(q string, k int) {
		waiting := len(n.queues[q])
		idle := q == q1 || q == "a" && !c0.ended && slow == 0
		n.produce(s, q, k)
		if idle {
			sym.Assert(len(n.queues[q]) <= waiting, "C26: a message that is enqueued is not sent to a consumer that waits for one")
			sym.Reach("sent at once")
		}
	}
	for i := 0; i < steps; i++ {
		switch sym.Choose("step", 7) {
		case 0:
			produce("a", slow)
		case 1:
			produce("b", 0)
		case 2:
			n.mu.Lock()
			n.next++
			n.queues["a"] = append(n.queues["a"], &queue.Message{ID: n.next, Content: "a", Priority: sym.I64("priority")})
			n.mu.Unlock()
		case 3:
			symenv.FireTickers()
		case 4:
			if slow == 1 {
				close(c0.gate)
				c0.gate, slow = nil, 0
			} else {
				c0.gate, slow = make(chan struct{}), 1
			}
			sym.RunBackground()
		case 5:
			c0.fail = true
		case 6:
			c0.stop()
			gone = true
			sym.RunBackground()
			if slow == 0 {
				sym.Assert(c0.ended, "C26: a consumer that left keeps its stream")
				sym.Reach("left")
			}
		}
	}
	if slow == 1 {
		close(c0.gate)
		c0.gate = nil
	}
	symenv.FireTickers()
	symenv.FireTickers()
	c0.mu.Lock()
	if c0.ended {
		sym.Assert(gone || c0.fail, "C26: a stream ends by itself")
		// a consumer that is gone does not hold up producers
		c0.mu.Unlock()
		n.produce(s, "a", 0)
		symenv.FireTickers()
		sym.Reach("gone")
	} else {
		sym.Assert(!gone, "C26: a consumer that left keeps its stream")
		c0.mu.Unlock()
	}
	sym.Assert(!c1.ended, "C26: a stream ends by itself")
	n.delivered(c0, c1)
	for _, q := range []string{"a", "b"} {
		if q == q1 || q == "a" && !c0.ended {
			sym.Assert(len(n.queues[q]) == 0, "C26: a waiting message is not delivered to a waiting consumer")
			sym.Reach("delivered")
		}
	}
	c0.stop()
	c1.stop()
	sym.RunBackground()
	sym.Assert(c0.ended && c1.ended, "C26: a consumer that left keeps its stream")
}

// A producer enqueues twice while a consumer leaves and another one arrives, in
// any interleaving with up to 1 preemption (thorough: 2), and a second may pass
// at any time: nobody crashes or is blocked, and the messages handed out are
// sent once.
func C26_concurrent() {
	n := newQnode()
	s := grpc.NewQueueServer(n, 9000)
	c0 := n.consume(s, "a", true)
	sym.RunBackground()
	p := 1
	if sym.Deep() {
		p = 2
	}
	var c1 *deqStream
	fin := 0
	var mu sync.Mutex
	end := func() { mu.Lock(); fin++; mu.Unlock() }
	sym.Concurrent(p)
	go func() {
		for i := 0; i < 2; i++ {
			_, err := s.Enqueue(context.Background(), &pb.EnqueueRequest{QueueName: "a", Group: "g", Priority: 1, Content: "am"})
			sym.Assert(err == nil, "C26: a message cannot be enqueued")
		}
		end()
	}()
	go func() {
		c0.stop()
		end()
	}()
	go func() {
		st := n.consume(s, "a", true)
		mu.Lock()
		c1 = st
		fin++
		mu.Unlock()
	}()
	sym.RunBackground()
	for i := 0; i < 4; i++ {
		mu.Lock()
		f := fin
		mu.Unlock()
		if f == 3 {
			break
		}
		symenv.FireTimers(time.Second)
	}
	sym.Sequential()
	sym.Assert(fin == 3, "C26: a producer or a consumer is blocked")
	symenv.FireTickers()
	sym.Assert(c0.ended, "C26: a consumer that left keeps its stream")
	n.delivered(c0, c1)
	sym.Assert(len(n.queues["a"]) == 0, "C26: a waiting message is not delivered to a waiting consumer")
	c1.stop()
	sym.RunBackground()
	sym.Assert(c1.ended, "C26: a consumer that left keeps its stream")
	sym.Reach("done")
}

// Consumers of one queue come and go in any order, 7 (thorough: 9) comings,
// goings and messages, without a second passing: every message is sent at once
// to one of the consumers that are there, and to nobody if there is none.
func C26_comings() {
	n := newQnode()
	s := grpc.NewQueueServer(n, 9000)
	ack := sym.Choose("ack", 2) == 1
	var all, live []*deqStream
	steps := 7
	if sym.Deep() {
		steps = 9
	}
	for i := 0; i <= steps; i++ {
		k := 0
		if i < steps {
			k = sym.Choose("step", 2+len(live))
		}
		switch k {
		case 0:
			waiting := len(n.queues["a"])
			n.produce(s, "a", 0)
			if len(live) > 0 {
				sym.Assert(len(n.queues["a"]) <= waiting, "C26: a message that is enqueued is not sent to a consumer that waits for one")
				sym.Reach("sent at once")
			} else {
				sym.Assert(len(n.queues["a"]) == waiting+1, "C26: a message is taken by a consumer that left")
			}
		case 1:
			c := n.consume(s, "a", ack)
			all, live = append(all, c), append(live, c)
			sym.RunBackground()
		default:
			c := live[k-2]
			live = append(append([]*deqStream{}, live[:k-2]...), live[k-1:]...)
			c.stop()
			sym.RunBackground()
			sym.Assert(c.ended, "C26: a consumer that left keeps its stream")
			sym.Reach("left")
		}
	}
	n.delivered(all...)
	for _, c := range live {
		c.stop()
	}
	sym.RunBackground()
}
