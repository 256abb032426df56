package downsampler

import "time"

type verifClock func() time.Time

func (f verifClock) Now() time.Time { return f() }

// VerifAssigner is the part of a downsampler worker which has no input and
// output of its own.
type VerifAssigner struct {
	Update    func([]byte) []error
	Bytes     func() []byte
	UntilNext func() time.Duration
}

// VerifNewAssigner makes an assigner with the given clock.
func VerifNewAssigner(period time.Duration, now func() time.Time) *VerifAssigner {
	a := newAssigner(period, newAvgBucket, verifClock(now))
	return &VerifAssigner{
		Update:    func(b []byte) []error { return a.Update(b) },
		Bytes:     func() []byte { return a.Bytes() },
		UntilNext: func() time.Duration { return a.UntilNext() },
	}
}

// VerifAvailable says that this is not the stub.
const VerifAvailable = true
