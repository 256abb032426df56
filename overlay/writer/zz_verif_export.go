package writer

import "github.com/jumptrading/influx-spout/v2/config"

type verifDB func([]byte) error

func (f verifDB) Write(b []byte) error { return f(b) }

// VerifRetryWorker starts a retry worker which writes with a function. It
// returns what stops it and its channel of errors.
func VerifRetryWorker(in chan []byte, write func([]byte) error, c *config.Config) (stop func(), errs <-chan error) {
	w := newRetryWorker(in, verifDB(write), c)
	return w.Stop, w.WriteErrors()
}

// VerifClientError makes an error as the InfluxDB client does.
func VerifClientError(text string, permanent bool) error { return newClientError(text, permanent) }

// VerifAvailable says that this is not the stub.
const VerifAvailable = true
