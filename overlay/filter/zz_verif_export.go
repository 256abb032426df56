package filter

import (
	"time"

	"github.com/jumptrading/influx-spout/v2/stats"
)

// VerifWorker is a filter worker whose output goes to a function.
type VerifWorker struct {
	Process   func(batch []byte)
	Stat      func(name string) uint64
	Triggered func(rule int) uint64
}

type verifConn struct {
	natsConn
	publish func(string, []byte) error
}

func (c *verifConn) Publish(subject string, data []byte) error { return c.publish(subject, data) }
func (c *verifConn) Flush() error                              { return nil }
func (c *verifConn) Close()                                    {}

// VerifNewWorker makes a worker without a NATS connection.
func VerifNewWorker(maxDelta time.Duration, rs *RuleSet, junk string, publish func(string, []byte) error) (*VerifWorker, error) {
	st := initStats()
	ruleSt := stats.NewAnon(rs.Count())
	w, err := newWorker(maxDelta, rs, st, ruleSt, false,
		func() (natsConn, error) { return &verifConn{publish: publish}, nil }, junk)
	if err != nil {
		return nil, err
	}
	return &VerifWorker{
		Process:   func(b []byte) { w.processBatch(b) },
		Stat:      st.Get,
		Triggered: func(i int) uint64 { return ruleSt.Get(i) },
	}, nil
}

// VerifAvailable says that this is not the stub.
const VerifAvailable = true
