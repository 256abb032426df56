package filter

import (
	"errors"
	"time"
)

type VerifWorker struct {
	Process   func(batch []byte)
	Stat      func(name string) uint64
	Triggered func(rule int) uint64
}

const VerifAvailable = false

func VerifNewWorker(maxDelta time.Duration, rs *RuleSet, junk string, publish func(string, []byte) error) (*VerifWorker, error) {
	return nil, errors.New("unavailable")
}
