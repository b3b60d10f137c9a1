// Package testhelpers is a minimal stand-in for go-loggregator's spy registry.
package testhelpers

import (
	"fmt"
	"log"

	"code.cloudfoundry.org/go-loggregator/metrics"
)

// SpyMetricsRegistry is a registry tests can look into.
type SpyMetricsRegistry struct {
	*metrics.Registry
}

// NewMetricsRegistry returns an empty spy registry.
func NewMetricsRegistry() *SpyMetricsRegistry {
	return &SpyMetricsRegistry{metrics.NewRegistry(log.Default())}
}

// HasMetric tells whether the metric exists.
func (s *SpyMetricsRegistry) HasMetric(name string, tags map[string]string) bool {
	return s.Lookup(name, tags) != nil
}

// GetMetric returns the metric; it panics when there is none.
func (s *SpyMetricsRegistry) GetMetric(name string, tags map[string]string) *metrics.Metric {
	m := s.Lookup(name, tags)
	if m == nil {
		panic(fmt.Sprintf("unknown metric: %s", name))
	}
	return m
}

// GetMetricValue returns the value of the metric.
func (s *SpyMetricsRegistry) GetMetricValue(name string, tags map[string]string) float64 {
	return s.GetMetric(name, tags).Value()
}
