// Package log is a no-op stand-in for go-kit/kit/log.
package log

// Logger logs nothing.
type Logger interface {
	Log(keyvals ...interface{}) error
}

type nop struct{}

func (nop) Log(...interface{}) error { return nil }

// NewNopLogger returns a logger that drops everything.
func NewNopLogger() Logger { return nop{} }
