package engine

import (
	"encoding/binary"
	"os"
	"syscall"
)

// journal mirrors the choice vector of the running execution into a shared file mapping, so the
// parent can tell which execution a worker was in when it died or hung.
type journal struct {
	b []byte
}

const journalMax = 1 << 16

func openJournal(path string) (*journal, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(16 + 4*journalMax); err != nil {
		return nil, err
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, 16+4*journalMax, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &journal{b}, nil
}

func (j *journal) begin(scenario int) {
	binary.LittleEndian.PutUint32(j.b[8:], 0)
	binary.LittleEndian.PutUint32(j.b[0:], uint32(scenario))
	binary.LittleEndian.PutUint32(j.b[4:], 1)
}

func (j *journal) end() { binary.LittleEndian.PutUint32(j.b[4:], 0) }

func (j *journal) put(i, v int) {
	if i >= journalMax {
		return
	}
	binary.LittleEndian.PutUint32(j.b[16+4*i:], uint32(v))
	binary.LittleEndian.PutUint32(j.b[8:], uint32(i+1))
}

// readJournal returns (scenario index, running, choices).
func readJournal(path string) (int, bool, []int) {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 16 {
		return 0, false, nil
	}
	n := int(binary.LittleEndian.Uint32(b[8:]))
	out := make([]int, 0, n)
	for i := 0; i < n && 16+4*i+4 <= len(b); i++ {
		out = append(out, int(binary.LittleEndian.Uint32(b[16+4*i:])))
	}
	return int(binary.LittleEndian.Uint32(b[0:])), binary.LittleEndian.Uint32(b[4:]) == 1, out
}
