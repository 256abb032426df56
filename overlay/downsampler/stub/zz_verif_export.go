package downsampler

import "time"

type VerifAssigner struct {
	Update    func([]byte) []error
	Bytes     func() []byte
	UntilNext func() time.Duration
}

const VerifAvailable = false

func VerifNewAssigner(period time.Duration, now func() time.Time) *VerifAssigner { return nil }
