// Package certstrap is empty: only tests of a dependency need the real one.
package certstrap
