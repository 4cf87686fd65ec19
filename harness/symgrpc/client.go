// Package symgrpc models gRPC connections to other nodes.
package symgrpc

import (
	"context"
	"errors"
	"sync"

	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"

	"github.com/kgantsov/doq/pkg/zzverif/sym"
	"github.com/kgantsov/doq/pkg/zzverif/symenv"
)

var (
	// Handler answers a call to a host.
	Handler func(host, method string, req, reply any) error
	// Dialled are the hosts connected to.
	Dialled []string
	// DialFails makes connecting fail; Refused counts the failures.
	DialFails bool
	Refused   int

	mu    sync.Mutex
	conns = map[*grpc.ClientConn]string{}
)

// ErrDown is the failure of a call.
var ErrDown = errors.New("rpc error: code = Unavailable")

func init() {
	symenv.OnReset(func() {
		Handler, Dialled, conns = nil, nil, map[*grpc.ClientConn]string{}
		DialFails, Refused = false, 0
	})
}

func dial(host string) (*grpc.ClientConn, error) {
	mu.Lock()
	defer mu.Unlock()
	Dialled = append(Dialled, host)
	if DialFails {
		Refused++
		return nil, errors.New("failed to build resolver")
	}
	if !sym.Symbolic() {
		return grpc.Dial("passthrough:///"+host, grpc.WithTransportCredentials(insecure.NewCredentials()), grpc.WithUnaryInterceptor(
			func(ctx context.Context, method string, req, reply any, cc *grpc.ClientConn, invoker grpc.UnaryInvoker, opts ...grpc.CallOption) error {
				return call(host, method, req, reply)
			}))
	}
	c := new(grpc.ClientConn)
	conns[c] = host
	return c, nil
}

func call(host, method string, req, reply any) error {
	if Handler == nil {
		return ErrDown
	}
	return Handler(host, method, req, reply)
}

//sym:replace google.golang.org/grpc.Dial
func Dial(target string, opts ...grpc.DialOption) (*grpc.ClientConn, error) { return dial(target) }

//sym:replace google.golang.org/grpc.DialContext
func DialContext(ctx context.Context, target string, opts ...grpc.DialOption) (*grpc.ClientConn, error) {
	return dial(target)
}

//sym:replace (*google.golang.org/grpc.ClientConn).Invoke
func Invoke(cc *grpc.ClientConn, ctx context.Context, method string, req, reply any, opts ...grpc.CallOption) error {
	if !sym.Symbolic() {
		return cc.Invoke(ctx, method, req, reply, opts...)
	}
	mu.Lock()
	host, ok := conns[cc]
	mu.Unlock()
	if !ok {
		return errors.New("rpc error: the client connection is closing")
	}
	return call(host, method, req, reply)
}

//sym:replace (*google.golang.org/grpc.ClientConn).Close
func Close(cc *grpc.ClientConn) error {
	if !sym.Symbolic() {
		return cc.Close()
	}
	mu.Lock()
	defer mu.Unlock()
	delete(conns, cc)
	return nil
}

//sym:replace google.golang.org/grpc.WithInsecure
func WithInsecure() grpc.DialOption { return grpc.EmptyDialOption{} }
