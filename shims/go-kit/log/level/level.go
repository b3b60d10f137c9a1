// Package level is a no-op stand-in for go-kit/kit/log/level.
package level

import "github.com/go-kit/kit/log"

// Error returns its argument.
func Error(l log.Logger) log.Logger { return l }

// Warn returns its argument.
func Warn(l log.Logger) log.Logger { return l }

// Info returns its argument.
func Info(l log.Logger) log.Logger { return l }

// Debug returns its argument.
func Debug(l log.Logger) log.Logger { return l }
