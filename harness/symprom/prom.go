// Package symprom models the Prometheus client: what a registry exports.
package symprom

import (
	"github.com/prometheus/client_golang/prometheus"
	"github.com/prometheus/client_golang/prometheus/promauto"
	dto "github.com/prometheus/client_model/go"

	"github.com/kgantsov/doq/pkg/zzverif/sym"
	"github.com/kgantsov/doq/pkg/zzverif/symenv"
)

const label = "queue_name"

// vec is a metric with one label.
type vec struct {
	name   string
	labels []string
	vals   map[string]*float64
}

// registry is the exporting registry.
type registry struct {
	prometheus.Registerer
	m map[string]*vec
}

func (r *registry) Register(prometheus.Collector) error  { return nil }
func (r *registry) MustRegister(...prometheus.Collector) {}
func (r *registry) Unregister(prometheus.Collector) bool { return true }

var (
	cur  *registry
	nat  *prometheus.Registry
	last prometheus.Registerer
	vecs = map[*prometheus.MetricVec]*vec{}
)

func init() {
	symenv.OnReset(func() {
		cur, nat, last, vecs = nil, nil, nil, map[*prometheus.MetricVec]*vec{}
	})
}

// New is a new exporting registry; only it is observed.
func New() prometheus.Registerer {
	if !sym.Symbolic() {
		r := prometheus.NewRegistry()
		prometheus.DefaultRegisterer = prometheus.NewRegistry()
		nat = r
		return r
	}
	cur = &registry{m: map[string]*vec{}}
	return cur
}

// Value is the exported value of a metric for a queue, 0 if there is none.
func Value(name, queue string) float64 {
	if sym.Symbolic() {
		v := cur.m[name]
		if v == nil {
			return 0
		}
		p := v.vals[queue]
		if p == nil {
			return 0
		}
		return *p
	}
	fs, err := nat.Gather()
	if err != nil {
		panic(err)
	}
	for _, f := range fs {
		if f.GetName() != name {
			continue
		}
		for _, m := range f.Metric {
			for _, l := range m.Label {
				if l.GetName() == label && l.GetValue() == queue {
					return value(m)
				}
			}
		}
	}
	return 0
}

func value(m *dto.Metric) float64 {
	if m.Counter != nil {
		return m.Counter.GetValue()
	}
	return m.Gauge.GetValue()
}

func newVec(r prometheus.Registerer, ns, sub, name string, labels []string) *prometheus.MetricVec {
	n := name
	if sub != "" {
		n = sub + "_" + n
	}
	if ns != "" {
		n = ns + "_" + n
	}
	m := &prometheus.MetricVec{}
	v := &vec{name: n, labels: labels, vals: map[string]*float64{}}
	vecs[m] = v
	if x, ok := r.(*registry); ok && x != nil {
		if x.m[n] != nil {
			panic("duplicate metrics collector registration attempted")
		}
		x.m[n] = v
	}
	return m
}

//sym:replace github.com/prometheus/client_golang/prometheus/promauto.With
func With(r prometheus.Registerer) promauto.Factory {
	if !sym.Symbolic() {
		return promauto.With(r)
	}
	last = r
	return promauto.Factory{}
}

//sym:replace (github.com/prometheus/client_golang/prometheus/promauto.Factory).NewCounterVec
func FactoryCounterVec(f promauto.Factory, o prometheus.CounterOpts, l []string) *prometheus.CounterVec {
	if !sym.Symbolic() {
		return f.NewCounterVec(o, l)
	}
	return &prometheus.CounterVec{MetricVec: newVec(last, o.Namespace, o.Subsystem, o.Name, l)}
}

//sym:replace (github.com/prometheus/client_golang/prometheus/promauto.Factory).NewGaugeVec
func FactoryGaugeVec(f promauto.Factory, o prometheus.GaugeOpts, l []string) *prometheus.GaugeVec {
	if !sym.Symbolic() {
		return f.NewGaugeVec(o, l)
	}
	return &prometheus.GaugeVec{MetricVec: newVec(last, o.Namespace, o.Subsystem, o.Name, l)}
}

//sym:replace github.com/prometheus/client_golang/prometheus.NewCounterVec
func NewCounterVec(o prometheus.CounterOpts, l []string) *prometheus.CounterVec {
	if !sym.Symbolic() {
		return prometheus.NewCounterVec(o, l)
	}
	return &prometheus.CounterVec{MetricVec: newVec(nil, o.Namespace, o.Subsystem, o.Name, l)}
}

//sym:replace github.com/prometheus/client_golang/prometheus.NewGaugeVec
func NewGaugeVec(o prometheus.GaugeOpts, l []string) *prometheus.GaugeVec {
	if !sym.Symbolic() {
		return prometheus.NewGaugeVec(o, l)
	}
	return &prometheus.GaugeVec{MetricVec: newVec(nil, o.Namespace, o.Subsystem, o.Name, l)}
}

func (v *vec) at(q string) *float64 {
	p := v.vals[q]
	if p == nil {
		p = new(float64)
		v.vals[q] = p
	}
	return p
}

func (v *vec) byLabels(l prometheus.Labels) *float64 {
	q, ok := l[label]
	if !ok || len(l) != len(v.labels) {
		panic("inconsistent label cardinality")
	}
	return v.at(q)
}

func (v *vec) byValues(l []string) *float64 {
	if len(l) != 1 || len(v.labels) != 1 {
		panic("inconsistent label cardinality")
	}
	return v.at(l[0])
}

type metric struct {
	prometheus.Metric
	prometheus.Collector
	p *float64
}

func (m *metric) Desc() *prometheus.Desc           { return nil }
func (m *metric) Write(*dto.Metric) error          { return nil }
func (m *metric) Describe(chan<- *prometheus.Desc) {}
func (m *metric) Collect(chan<- prometheus.Metric) {}
func (m *metric) Inc()                             { *m.p++ }
func (m *metric) Add(f float64)                    { *m.p += f }
func (m *metric) Dec()                             { *m.p-- }
func (m *metric) Sub(f float64)                    { *m.p -= f }
func (m *metric) Set(f float64)                    { *m.p = f }
func (m *metric) SetToCurrentTime()                {}

//sym:replace (*github.com/prometheus/client_golang/prometheus.CounterVec).With
func CounterWith(v *prometheus.CounterVec, l prometheus.Labels) prometheus.Counter {
	if !sym.Symbolic() {
		return v.With(l)
	}
	return &metric{p: vecs[v.MetricVec].byLabels(l)}
}

//sym:replace (*github.com/prometheus/client_golang/prometheus.CounterVec).WithLabelValues
func CounterWithValues(v *prometheus.CounterVec, l ...string) prometheus.Counter {
	if !sym.Symbolic() {
		return v.WithLabelValues(l...)
	}
	return &metric{p: vecs[v.MetricVec].byValues(l)}
}

//sym:replace (*github.com/prometheus/client_golang/prometheus.GaugeVec).With
func GaugeWith(v *prometheus.GaugeVec, l prometheus.Labels) prometheus.Gauge {
	if !sym.Symbolic() {
		return v.With(l)
	}
	return &metric{p: vecs[v.MetricVec].byLabels(l)}
}

//sym:replace (*github.com/prometheus/client_golang/prometheus.GaugeVec).WithLabelValues
func GaugeWithValues(v *prometheus.GaugeVec, l ...string) prometheus.Gauge {
	if !sym.Symbolic() {
		return v.WithLabelValues(l...)
	}
	return &metric{p: vecs[v.MetricVec].byValues(l)}
}

//sym:replace (*github.com/prometheus/client_golang/prometheus.MetricVec).DeleteLabelValues
func DeleteLabelValues(m *prometheus.MetricVec, l ...string) bool {
	if !sym.Symbolic() {
		return m.DeleteLabelValues(l...)
	}
	v := vecs[m]
	_, ok := v.vals[l[0]]
	delete(v.vals, l[0])
	return ok
}

//sym:replace (*github.com/prometheus/client_golang/prometheus.MetricVec).Delete
func Delete(m *prometheus.MetricVec, l prometheus.Labels) bool {
	if !sym.Symbolic() {
		return m.Delete(l)
	}
	return DeleteLabelValues(m, l[label])
}
