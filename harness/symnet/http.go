// Package symnet models outgoing HTTP requests and name lookup.
package symnet

import (
	"bytes"
	"context"
	"errors"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"

	"github.com/kgantsov/doq/pkg/zzverif/symenv"
)

// Request is what was sent.
type Request struct {
	Method, URL, Host, Path, Query string
	URI                            string
	Type                           string
	Body                           []byte
}

// Answer is what comes back.
type Answer struct {
	Err    error
	Status int
	Header http.Header
	Body   []byte
}

var (
	// Sent are the requests made so far.
	Sent []*Request
	// Handler answers requests.
	Handler func(*Request) *Answer

	// Host names and addresses.
	SRV      func(service, proto, name string) ([]*net.SRV, error)
	Lookup   func(host string) ([]string, error)
	Hostname func() (string, error)

	mu sync.Mutex
)

// ErrDown is a connection failure.
var ErrDown = errors.New("connection refused")

// Noted is the number of requests made.
func Noted() int { return len(Sent) }

func init() {
	symenv.OnReset(func() {
		Sent, Handler, SRV, Lookup, Hostname = nil, nil, nil, nil, nil
	})
}

type body struct {
	*bytes.Reader
	Closed *bool
}

func (b body) Close() error { *b.Closed = true; return nil }

//sym:replace (*net/http.Client).Do
func ClientDo(c *http.Client, req *http.Request) (*http.Response, error) {
	r := &Request{Method: req.Method, URL: req.URL.String(), Host: req.URL.Host, Path: req.URL.Path, Query: req.URL.RawQuery, URI: req.URL.RequestURI(), Type: req.Header.Get("Content-Type")}
	if r.Method == "" {
		r.Method = "GET"
	}
	if req.Body != nil {
		b, err := io.ReadAll(req.Body)
		if err != nil {
			return nil, err
		}
		req.Body.Close()
		r.Body = b
	}
	mu.Lock()
	Sent = append(Sent, r)
	h := Handler
	mu.Unlock()
	a := &Answer{Err: ErrDown}
	if h != nil {
		a = h(r)
	}
	if a.Err != nil {
		return nil, a.Err
	}
	hd := a.Header
	if hd == nil {
		hd = http.Header{}
	}
	return &http.Response{StatusCode: a.Status, Header: hd, Body: body{bytes.NewReader(a.Body), new(bool)}, ContentLength: int64(len(a.Body)), Request: req}, nil
}

//sym:replace (*net/http.Client).Post
func ClientPost(c *http.Client, url, contentType string, b io.Reader) (*http.Response, error) {
	req, err := http.NewRequest("POST", url, b)
	if err != nil {
		return nil, err
	}
	req.Header.Set("Content-Type", contentType)
	return ClientDo(c, req)
}

//sym:replace (*net/http.Client).Get
func ClientGet(c *http.Client, url string) (*http.Response, error) {
	req, err := http.NewRequest("GET", url, nil)
	if err != nil {
		return nil, err
	}
	return ClientDo(c, req)
}

//sym:replace net/http.Post
func Post(url, contentType string, b io.Reader) (*http.Response, error) {
	return ClientPost(nil, url, contentType, b)
}

//sym:replace net/http.Get
func Get(url string) (*http.Response, error) { return ClientGet(nil, url) }

var errNoHost = errors.New("no such host")

//sym:replace net.LookupSRV
func NetLookupSRV(service, proto, name string) (string, []*net.SRV, error) {
	if SRV == nil {
		return "", nil, errNoHost
	}
	a, err := SRV(service, proto, name)
	if err != nil {
		return "", nil, err
	}
	return name, a, nil
}

//sym:replace net.LookupHost
func NetLookupHost(host string) ([]string, error) {
	if Lookup == nil {
		return nil, errNoHost
	}
	return Lookup(host)
}

//sym:replace net.LookupIP
func NetLookupIP(host string) ([]net.IP, error) {
	a, err := NetLookupHost(host)
	if err != nil {
		return nil, err
	}
	var r []net.IP
	for _, x := range a {
		r = append(r, net.ParseIP(x))
	}
	return r, nil
}

//sym:replace (*net.Resolver).LookupSRV
func ResolverLookupSRV(r *net.Resolver, ctx context.Context, service, proto, name string) (string, []*net.SRV, error) {
	return NetLookupSRV(service, proto, name)
}

//sym:replace (*net.Resolver).LookupHost
func ResolverLookupHost(r *net.Resolver, ctx context.Context, host string) ([]string, error) {
	return NetLookupHost(host)
}

//sym:replace os.Hostname
func OsHostname() (string, error) {
	if Hostname == nil {
		return "", errNoHost
	}
	return Hostname()
}

// Is tells whether the request goes to the path of a host.
func (r *Request) Is(method, host, path string) bool {
	return r.Method == method && r.Host == host && strings.TrimSuffix(r.Path, "/") == path
}
