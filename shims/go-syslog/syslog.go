// Package syslog is a stand-in for github.com/influxdata/go-syslog v2, built
// over the RFC 5424 machine of v1.0.1.
package syslog

import (
	"io"
	"time"
)

// Message is a parsed message. Parts the message does not have are nil.
type Message interface {
	Valid() bool
	Priority() *uint8
	Version() uint16
	Facility() *uint8
	Severity() *uint8
	Timestamp() *time.Time
	Hostname() *string
	ProcID() *string
	Appname() *string
	MsgID() *string
	Message() *string
	StructuredData() *map[string]map[string]string
}

// Result is what a parser hands to its listener.
type Result struct {
	Message Message
	Error   error
}

// ParserListener gets the results.
type ParserListener func(*Result)

// Parser parses a stream of messages.
type Parser interface {
	Parse(r io.Reader)
	WithListener(ParserListener)
}
