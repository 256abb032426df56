package harness

import (
	"io"
	"log"
	"os"
	"path/filepath"
	"strconv"
	"testing"
	"time"
)

// theT is the running test (synctest needs it).
var theT *testing.T

// TestCheck runs the check named by the environment.
func TestCheck(t *testing.T) {
	theT = t
	id := os.Getenv("VH_CHECK")
	if id == "" {
		t.Skip("VH_CHECK not set")
	}
	f, ok := checks[id]
	if !ok {
		t.Fatalf("unknown check %q", id)
	}
	dir := os.Getenv("VH_DIR")
	seed, _ := strconv.ParseInt(os.Getenv("VH_SEED"), 10, 64)
	round, _ := strconv.Atoi(os.Getenv("VH_ROUND"))
	lf, err := os.Create(filepath.Join(dir, "log.txt"))
	if err != nil {
		t.Fatal(err)
	}
	log.SetOutput(io.Writer(lf))

	c := newCtx(id, seed, round, os.Getenv("VH_TIER") == "thorough", dir)
	out := filepath.Join(dir, "result.json")
	stop := make(chan struct{})
	go func() {
		for {
			select {
			case <-time.After(time.Second):
				c.write(out, false)
			case <-stop:
				return
			}
		}
	}()
	c.guard(func() { f(c) })
	stop <- struct{}{}
	c.write(out, true)
	os.Stdout.Sync()
	// Race reports make the test binary fail; the driver reads the
	// reports themselves.
	os.Exit(0)
}
