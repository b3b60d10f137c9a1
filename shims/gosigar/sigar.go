// Package sigar is a minimal stand-in for github.com/cloudfoundry/gosigar.
package sigar

import (
	"bufio"
	"os"
	"strconv"
	"strings"
)

// Mem is the memory of the machine, in bytes.
type Mem struct {
	Total      uint64
	Used       uint64
	Free       uint64
	ActualFree uint64
	ActualUsed uint64
}

// Get reads /proc/meminfo.
func (m *Mem) Get() error {
	f, err := os.Open("/proc/meminfo")
	if err != nil {
		return err
	}
	defer f.Close()
	kb := map[string]uint64{}
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		fs := strings.Fields(sc.Text())
		if len(fs) < 2 {
			continue
		}
		v, err := strconv.ParseUint(fs[1], 10, 64)
		if err != nil {
			continue
		}
		kb[strings.TrimSuffix(fs[0], ":")] = v * 1024
	}
	m.Total, m.Free = kb["MemTotal"], kb["MemFree"]
	m.ActualFree = kb["MemAvailable"]
	m.Used = m.Total - m.Free
	m.ActualUsed = m.Total - m.ActualFree
	return sc.Err()
}
