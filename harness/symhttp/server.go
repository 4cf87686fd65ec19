// Package symhttp models an HTTP server: the handlers registered for its
// routes are called with the request as they would be by the framework.
package symhttp

import (
	"bytes"
	"context"
	"io"
	"net/http"
	"strings"

	"github.com/danielgtaylor/huma/v2"
	"github.com/danielgtaylor/huma/v2/adapters/humafiber"
	"github.com/gofiber/fiber/v2"

	"github.com/kgantsov/doq/pkg/zzverif/sym"
	"github.com/kgantsov/doq/pkg/zzverif/symenv"
)

type route struct {
	method string
	path   []string
	h      any
}

// Server is a running HTTP server.
type Server struct {
	app    *fiber.App
	routes []*route
}

var cur *Server

func init() { symenv.OnReset(func() { cur = nil }) }

// New is the server that start sets up.
func New(start func()) *Server {
	cur = &Server{}
	s := cur
	start()
	cur = nil
	return s
}

// Current is the server being set up.
func Current() *Server { return cur }

//sym:replace github.com/danielgtaylor/huma/v2/adapters/humafiber.New
func FiberNew(r *fiber.App, config huma.Config) huma.API {
	if cur != nil {
		cur.app = r
	}
	if sym.Symbolic() {
		return nil
	}
	return humafiber.New(r, config)
}

// Route registers a handler.
func Route(method, path string, h any) {
	if cur != nil {
		cur.routes = append(cur.routes, &route{method, strings.Split(strings.Trim(path, "/"), "/"), h})
	}
}

// invoke is done by the engine.
func invoke(ctx context.Context, h any, get func(loc, name string) string, body []byte) (int, []byte) {
	panic("symbolic only")
}

func param(p string) (string, bool) {
	if strings.HasPrefix(p, ":") {
		return p[1:], true
	}
	if strings.HasPrefix(p, "{") && strings.HasSuffix(p, "}") {
		return p[1 : len(p)-1], true
	}
	return "", false
}

// Do serves a request for the given path and query.
func (s *Server) Do(method, uri, contentType string, body []byte) (int, []byte) {
	if !sym.Symbolic() {
		return s.native(method, uri, contentType, body)
	}
	path, query := uri, ""
	if i := strings.Index(uri, "?"); i >= 0 {
		path, query = uri[:i], uri[i+1:]
	}
	parts := strings.Split(strings.Trim(path, "/"), "/")
	known := false
	for _, r := range s.routes {
		if len(r.path) != len(parts) {
			continue
		}
		vals := map[string]string{}
		ok := true
		for i, p := range r.path {
			if n, is := param(p); is {
				vals[n] = parts[i]
			} else if p != parts[i] {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		known = true
		if r.method != method {
			continue
		}
		if len(body) > 0 && contentType != "" && contentType != "application/json" {
			return 415, nil
		}
		return invoke(context.Background(), r.h, func(loc, name string) string {
			switch loc {
			case "path":
				return vals[name]
			case "query":
				for _, kv := range strings.Split(query, "&") {
					if strings.HasPrefix(kv, name+"=") {
						return kv[len(name)+1:]
					}
				}
			}
			return ""
		}, body)
	}
	if known {
		return 405, nil
	}
	return 404, nil
}

func (s *Server) native(method, uri, contentType string, body []byte) (int, []byte) {
	req, err := http.NewRequest(method, "http://localhost"+uri, bytes.NewReader(body))
	if err != nil {
		panic(err)
	}
	if contentType != "" {
		req.Header.Set("Content-Type", contentType)
	}
	res, err := s.app.Test(req, -1)
	if err != nil {
		panic(err)
	}
	b, err := io.ReadAll(res.Body)
	if err != nil {
		panic(err)
	}
	res.Body.Close()
	return res.StatusCode, b
}
