// Package xxhash is a stand-in for cespare/xxhash: a 64-bit hash of bytes.
package xxhash

import "hash/fnv"

// Sum64 hashes b.
func Sum64(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	x := h.Sum64()
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	return x
}
