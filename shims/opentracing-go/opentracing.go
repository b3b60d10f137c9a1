// Package opentracing is a no-op stand-in for opentracing-go.
package opentracing

import "context"

// Span records nothing.
type Span interface {
	SetTag(key string, value interface{}) Span
	Finish()
}

type noop struct{}

func (n noop) SetTag(string, interface{}) Span { return n }
func (noop) Finish()                           {}

// SpanFromContext returns nil: nothing is traced.
func SpanFromContext(context.Context) Span { return nil }

// StartSpanFromContext returns a span that records nothing.
func StartSpanFromContext(ctx context.Context, _ string) (Span, context.Context) { return noop{}, ctx }
