// Package metrics is a minimal stand-in for the metrics package of
// go-loggregator >= 8, which is not in this sandbox's module cache. It keeps
// the API log-cache uses.
package metrics

import (
	"log"
	"sort"
	"strings"
	"sync"
)

// Opts carries the tags of a metric.
type Opts struct {
	Tags map[string]string
}

// MetricOption configures a metric.
type MetricOption func(o *Opts)

// WithMetricTags adds tags to a metric.
func WithMetricTags(tags map[string]string) MetricOption {
	return func(o *Opts) {
		for k, v := range tags {
			o.Tags[k] = v
		}
	}
}

// Counter only goes up.
type Counter interface {
	Add(float64)
}

// Gauge can be set.
type Gauge interface {
	Add(float64)
	Set(float64)
}

// Registry hands out metrics.
type Registry struct {
	mu sync.Mutex
	m  map[string]*Metric
}

// NewRegistry returns an empty registry.
func NewRegistry(_ *log.Logger) *Registry {
	return &Registry{m: map[string]*Metric{}}
}

// Key is the identity of a metric: its name and its tags.
func Key(name string, tags map[string]string) string {
	ks := make([]string, 0, len(tags))
	for k, v := range tags {
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	return name + "{" + strings.Join(ks, ",") + "}"
}

// Get returns the metric with that name and tags, creating it when missing.
func (r *Registry) Get(name string, opts ...MetricOption) *Metric {
	o := &Opts{Tags: map[string]string{}}
	for _, f := range opts {
		f(o)
	}
	k := Key(name, o.Tags)
	r.mu.Lock()
	defer r.mu.Unlock()
	m, ok := r.m[k]
	if !ok {
		m = &Metric{Name: name, Tags: o.Tags}
		r.m[k] = m
	}
	return m
}

// Lookup returns the metric with exactly that name and tags, or nil.
func (r *Registry) Lookup(name string, tags map[string]string) *Metric {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.m[Key(name, tags)]
}

// NewCounter returns a counter.
func (r *Registry) NewCounter(name string, opts ...MetricOption) Counter { return r.Get(name, opts...) }

// NewGauge returns a gauge.
func (r *Registry) NewGauge(name string, opts ...MetricOption) Gauge { return r.Get(name, opts...) }

// Metric is a value under a lock.
type Metric struct {
	Name string
	Tags map[string]string

	mu   sync.Mutex
	v    float64
	sets int
}

// Add adds.
func (m *Metric) Add(d float64) {
	m.mu.Lock()
	m.v += d
	m.mu.Unlock()
}

// Set sets.
func (m *Metric) Set(v float64) {
	m.mu.Lock()
	m.v = v
	m.sets++
	m.mu.Unlock()
}

// Value reads.
func (m *Metric) Value() float64 {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.v
}

// Sets is how often Set was called.
func (m *Metric) Sets() int {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.sets
}
