package writer

import (
	"errors"

	"github.com/jumptrading/influx-spout/v2/config"
)

const VerifAvailable = false

func VerifRetryWorker(in chan []byte, write func([]byte) error, c *config.Config) (stop func(), errs <-chan error) {
	return nil, nil
}

func VerifClientError(text string, permanent bool) error { return errors.New(text) }
