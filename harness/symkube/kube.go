// Package symkube models the endpoint slices of a Kubernetes cluster.
package symkube

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"sort"
	"strings"

	discoveryv1 "k8s.io/api/discovery/v1"
	apierrors "k8s.io/apimachinery/pkg/api/errors"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/client-go/kubernetes"
	typed "k8s.io/client-go/kubernetes/typed/discovery/v1"
	"k8s.io/client-go/rest"

	"github.com/kgantsov/doq/pkg/zzverif/sym"
	"github.com/kgantsov/doq/pkg/zzverif/symenv"
)

// Slice is what matters of an endpoint slice.
type Slice struct {
	Addresses []string
	Ports     []int32
	Ready     bool
	Service   string
	Hosts     []string // the host names given
}

var (
	// Available says whether the process runs in Kubernetes.
	Available bool
	// Fault says whether the next call fails (before it has any effect).
	Fault func(verb string) bool

	slices = map[string]*discoveryv1.EndpointSlice{}
	keys   []string
)

// ErrAPI is a failure of the API server.
var ErrAPI = errors.New("the server is unavailable")

func init() {
	symenv.OnReset(func() {
		Available, Fault, slices, keys = false, nil, map[string]*discoveryv1.EndpointSlice{}, nil
	})
}

// Put publishes an endpoint from outside.
func Put(ns, name, ip string, port int32) {
	ready := true
	n := "http"
	set(ns, &discoveryv1.EndpointSlice{
		ObjectMeta:  metav1.ObjectMeta{Name: name, Namespace: ns, Labels: map[string]string{"kubernetes.io/service-name": name}},
		AddressType: discoveryv1.AddressTypeIPv4,
		Endpoints:   []discoveryv1.Endpoint{{Addresses: []string{ip}, Conditions: discoveryv1.EndpointConditions{Ready: &ready}}},
		Ports:       []discoveryv1.EndpointPort{{Name: &n, Port: &port}},
	})
}

func set(ns string, s *discoveryv1.EndpointSlice) {
	k := ns + "/" + s.Name
	if _, ok := slices[k]; !ok {
		keys = append(keys, k)
		sort.Strings(keys)
	}
	slices[k] = s
}

// Remove removes an endpoint.
func Remove(ns, name string) bool {
	k := ns + "/" + name
	if _, ok := slices[k]; !ok {
		return false
	}
	delete(slices, k)
	var ks []string
	for _, o := range keys {
		if o != k {
			ks = append(ks, o)
		}
	}
	keys = ks
	return true
}

// Find is the published slice of a name, nil if there is none.
func Find(ns, name string) *Slice {
	s, ok := slices[ns+"/"+name]
	if !ok {
		return nil
	}
	r := &Slice{Service: s.Labels["kubernetes.io/service-name"], Ready: true}
	for _, e := range s.Endpoints {
		r.Addresses = append(r.Addresses, e.Addresses...)
		if e.Conditions.Ready != nil && !*e.Conditions.Ready {
			r.Ready = false
		}
		if e.Hostname != nil {
			r.Hosts = append(r.Hosts, *e.Hostname)
		}
	}
	for _, p := range s.Ports {
		if p.Port == nil {
			r.Ports = append(r.Ports, 0)
		} else {
			r.Ports = append(r.Ports, *p.Port)
		}
	}
	return r
}

// Count is the number of slices.
func Count() int { return len(keys) }

// Dump shows every slice.
func Dump() string {
	d := ""
	for _, k := range keys {
		i := strings.Index(k, "/")
		s := Find(k[:i], k[i+1:])
		d += k + "=" + s.Service
		for _, a := range s.Addresses {
			d += "," + a
		}
		for _, p := range s.Ports {
			d += fmt.Sprintf(":%d", p)
		}
		d += "\n"
	}
	return d
}

func fail(verb string) bool { return Fault != nil && Fault(verb) }

//sym:replace k8s.io/client-go/rest.InClusterConfig
func InClusterConfig() (*rest.Config, error) {
	if !Available {
		return nil, rest.ErrNotInCluster
	}
	return &rest.Config{Host: "http://kube"}, nil
}

//sym:replace k8s.io/client-go/kubernetes.NewForConfig
func NewForConfig(c *rest.Config) (*kubernetes.Clientset, error) {
	if sym.Symbolic() {
		return new(kubernetes.Clientset), nil
	}
	return native(c)
}

//sym:replace (*k8s.io/client-go/kubernetes.Clientset).DiscoveryV1
func DiscoveryV1(c *kubernetes.Clientset) typed.DiscoveryV1Interface {
	if !sym.Symbolic() {
		return c.DiscoveryV1()
	}
	return &discovery{}
}

type discovery struct{ typed.DiscoveryV1Interface }

func (d *discovery) EndpointSlices(ns string) typed.EndpointSliceInterface {
	return &endpointSlices{ns: ns}
}

type endpointSlices struct {
	typed.EndpointSliceInterface
	ns string
}

var resource = schema.GroupResource{Group: "discovery.k8s.io", Resource: "endpointslices"}

func copyOf(s *discoveryv1.EndpointSlice) *discoveryv1.EndpointSlice {
	n := *s
	n.Endpoints = append([]discoveryv1.Endpoint{}, s.Endpoints...)
	for i := range n.Endpoints {
		n.Endpoints[i].Addresses = append([]string{}, n.Endpoints[i].Addresses...)
		if h := n.Endpoints[i].Hostname; h != nil {
			v := *h
			n.Endpoints[i].Hostname = &v
		}
	}
	n.Ports = append([]discoveryv1.EndpointPort{}, s.Ports...)
	for i := range n.Ports {
		if p := n.Ports[i].Port; p != nil {
			v := *p
			n.Ports[i].Port = &v
		}
	}
	n.Labels = map[string]string{}
	for k, v := range s.Labels {
		n.Labels[k] = v
	}
	return &n
}

func (e *endpointSlices) Create(ctx context.Context, s *discoveryv1.EndpointSlice, o metav1.CreateOptions) (*discoveryv1.EndpointSlice, error) {
	if fail("create") {
		return nil, ErrAPI
	}
	if slices[e.ns+"/"+s.Name] != nil {
		return nil, apierrors.NewAlreadyExists(resource, s.Name)
	}
	set(e.ns, copyOf(s))
	return copyOf(s), nil
}

func (e *endpointSlices) Update(ctx context.Context, s *discoveryv1.EndpointSlice, o metav1.UpdateOptions) (*discoveryv1.EndpointSlice, error) {
	if fail("update") {
		return nil, ErrAPI
	}
	if slices[e.ns+"/"+s.Name] == nil {
		return nil, apierrors.NewNotFound(resource, s.Name)
	}
	set(e.ns, copyOf(s))
	return copyOf(s), nil
}

func (e *endpointSlices) Delete(ctx context.Context, name string, o metav1.DeleteOptions) error {
	if fail("delete") {
		return ErrAPI
	}
	if !Remove(e.ns, name) {
		return apierrors.NewNotFound(resource, name)
	}
	return nil
}

func (e *endpointSlices) Get(ctx context.Context, name string, o metav1.GetOptions) (*discoveryv1.EndpointSlice, error) {
	if fail("get") {
		return nil, ErrAPI
	}
	s := slices[e.ns+"/"+name]
	if s == nil {
		return nil, apierrors.NewNotFound(resource, name)
	}
	return copyOf(s), nil
}

func (e *endpointSlices) List(ctx context.Context, o metav1.ListOptions) (*discoveryv1.EndpointSliceList, error) {
	if fail("list") {
		return nil, ErrAPI
	}
	l := &discoveryv1.EndpointSliceList{}
	for _, k := range keys {
		if strings.HasPrefix(k, e.ns+"/") {
			l.Items = append(l.Items, *copyOf(slices[k]))
		}
	}
	return l, nil
}

// native serves the same slices to the real client.
func native(c *rest.Config) (*kubernetes.Clientset, error) {
	n := rest.CopyConfig(c)
	n.QPS = -1
	n.Transport = server{}
	return kubernetes.NewForConfig(n)
}

type server struct{}

func (server) RoundTrip(r *http.Request) (*http.Response, error) {
	p := strings.Split(strings.Trim(r.URL.Path, "/"), "/") // apis discovery.k8s.io v1 namespaces NS endpointslices [NAME]
	if len(p) < 6 || p[5] != "endpointslices" {
		return nil, errors.New("symkube: " + r.URL.Path)
	}
	e := &endpointSlices{ns: p[4]}
	name := ""
	if len(p) > 6 {
		name = p[6]
	}
	var in discoveryv1.EndpointSlice
	if r.Body != nil {
		b, err := io.ReadAll(r.Body)
		if err != nil {
			return nil, err
		}
		if r.Method == "POST" || r.Method == "PUT" {
			if err := json.Unmarshal(b, &in); err != nil {
				return nil, err
			}
		}
	}
	var out any
	var err error
	ctx := r.Context()
	switch {
	case r.Method == "POST":
		out, err = e.Create(ctx, &in, metav1.CreateOptions{})
	case r.Method == "PUT":
		out, err = e.Update(ctx, &in, metav1.UpdateOptions{})
	case r.Method == "DELETE":
		err = e.Delete(ctx, name, metav1.DeleteOptions{})
		out = &metav1.Status{TypeMeta: metav1.TypeMeta{Kind: "Status", APIVersion: "v1"}, Status: "Success"}
	case r.Method == "GET" && name != "":
		out, err = e.Get(ctx, name, metav1.GetOptions{})
	case r.Method == "GET":
		out, err = e.List(ctx, metav1.ListOptions{})
	default:
		return nil, errors.New("symkube: " + r.Method)
	}
	if err == ErrAPI {
		return nil, err
	}
	code := 200
	if err != nil {
		var se *apierrors.StatusError
		if !errors.As(err, &se) {
			return nil, err
		}
		st := se.ErrStatus
		st.TypeMeta = metav1.TypeMeta{Kind: "Status", APIVersion: "v1"}
		code, out = int(st.Code), &st
	} else if s, ok := out.(*discoveryv1.EndpointSlice); ok {
		s.TypeMeta = metav1.TypeMeta{Kind: "EndpointSlice", APIVersion: "discovery.k8s.io/v1"}
	}
	b, err := json.Marshal(out)
	if err != nil {
		return nil, err
	}
	return &http.Response{StatusCode: code, Header: http.Header{"Content-Type": []string{"application/json"}}, Body: io.NopCloser(bytes.NewReader(b)), Request: r}, nil
}
