// Package octetcounting is a stand-in for go-syslog v2's octetcounting package
// (RFC 5425 framing). Like the original it stops at the first framing error and
// goes on after a message that does not parse.
package octetcounting

import (
	"bufio"
	"fmt"
	"io"
	"strconv"

	syslog "github.com/influxdata/go-syslog"
	"github.com/influxdata/go-syslog/rfc5424"
)

type parser struct {
	emit syslog.ParserListener
}

// NewParser returns a parser.
func NewParser() syslog.Parser { return &parser{emit: func(*syslog.Result) {}} }

// WithListener sets where results go.
func (p *parser) WithListener(f syslog.ParserListener) { p.emit = f }

// Parse reads frames until the end of the stream or a framing error.
func (p *parser) Parse(r io.Reader) {
	br := bufio.NewReaderSize(r, 8197)
	m := rfc5424.NewParser()
	first := true
	for {
		b, err := br.ReadByte()
		if err != nil {
			if first {
				p.emit(&syslog.Result{Error: fmt.Errorf("found EOF, expecting a MSGLEN")})
			}
			return
		}
		first = false
		if b < '1' || b > '9' {
			p.emit(&syslog.Result{Error: fmt.Errorf("found ILLEGAL(%c), expecting a MSGLEN", b)})
			return
		}
		lit := []byte{b}
		for {
			b, err = br.ReadByte()
			if err != nil || b < '0' || b > '9' {
				break
			}
			lit = append(lit, b)
		}
		if err != nil || b != ' ' {
			p.emit(&syslog.Result{Error: fmt.Errorf("found something else, expecting a WS")})
			return
		}
		n, err := strconv.ParseUint(string(lit), 10, 63)
		if err != nil {
			p.emit(&syslog.Result{Error: err})
			return
		}
		var buf []byte
		for uint64(len(buf)) < n {
			b, err := br.ReadByte()
			if err != nil {
				p.emit(&syslog.Result{Error: fmt.Errorf("found EOF after %q, expecting a SYSLOGMSG containing %d octets", buf, n)})
				return
			}
			if len(buf) == 0 && b != '<' {
				p.emit(&syslog.Result{Error: fmt.Errorf("found ILLEGAL(%c), expecting a SYSLOGMSG", b)})
				return
			}
			buf = append(buf, b)
		}
		msg, perr := m.Parse(buf, nil)
		res := &syslog.Result{Error: perr}
		if perr == nil {
			res.Message = msg
		}
		p.emit(res)
	}
}
