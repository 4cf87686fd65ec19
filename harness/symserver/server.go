// Package symserver models what the server program does to its surroundings.
package symserver

import (
	"errors"
	"net"
	"net/http"
	"os"

	"github.com/gofiber/fiber/v2"
	"github.com/pkg/profile"
	"google.golang.org/grpc"

	"github.com/kgantsov/doq/pkg/zzverif/symenv"
)

var (
	// Dirs are the directories made.
	Dirs []string
	// Listened are the TCP addresses listened on (Port is the port got), GRPC
	// what gRPC is served on, and Impl what is served there.
	Listened []string
	Port     int
	GRPC     []string
	Impl     []any
	// HTTP are the addresses HTTP is served on; while it is, OnHTTP runs.
	HTTP   []string
	OnHTTP func()
	// Profiled are the addresses of the profiling server, and Profiles the
	// profiles started less those stopped.
	Profiled []string
	Profiles int
	// Fault says which of these fail: dir, listen.
	Fault string
)

// ErrFault is the injected failure.
var ErrFault = errors.New("permission denied")

func init() {
	symenv.OnReset(func() {
		Dirs, Listened, Port, GRPC, Impl = nil, nil, 0, nil, nil
		HTTP, OnHTTP, Profiled, Profiles, Fault = nil, nil, nil, 0, ""
	})
}

//sym:replace os.MkdirAll
func MkdirAll(path string, perm os.FileMode) error {
	if Fault == "dir" {
		return ErrFault
	}
	Dirs = append(Dirs, path)
	return nil
}

type listener struct{ addr string }

func (l *listener) Accept() (net.Conn, error) { return nil, ErrFault }
func (l *listener) Close() error              { return nil }
func (l *listener) Addr() net.Addr            { return &net.TCPAddr{Port: Port} }

//sym:replace net.Listen
func NetListen(network, addr string) (net.Listener, error) {
	if Fault == "listen" {
		return nil, ErrFault
	}
	Listened = append(Listened, network+" "+addr)
	return &listener{addr}, nil
}

//sym:replace google.golang.org/grpc.NewServer
func NewServer(o ...grpc.ServerOption) *grpc.Server { return new(grpc.Server) }

//sym:replace (*google.golang.org/grpc.Server).RegisterService
func RegisterService(s *grpc.Server, sd *grpc.ServiceDesc, impl any) { Impl = append(Impl, impl) }

//sym:replace (*google.golang.org/grpc.Server).Serve
func Serve(s *grpc.Server, l net.Listener) error {
	if x, ok := l.(*listener); ok {
		GRPC = append(GRPC, x.addr)
	}
	return nil
}

//sym:replace (*github.com/gofiber/fiber/v2.App).Listen
func Listen(app *fiber.App, addr string) error {
	HTTP = append(HTTP, addr)
	if OnHTTP != nil {
		OnHTTP()
	}
	return nil
}

//sym:replace net/http.ListenAndServe
func ListenAndServe(addr string, h http.Handler) error {
	Profiled = append(Profiled, addr)
	return nil
}

type stopper struct{}

func (stopper) Stop() { Profiles-- }

//sym:replace github.com/pkg/profile.Start
func Start(o ...func(*profile.Profile)) interface{ Stop() } {
	Profiles++
	return stopper{}
}
