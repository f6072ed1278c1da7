// Replay: runs the real code against an independent oracle written from the text of the properties. It is used to find a
// concrete input when the verifier rejects an obligation, and to spot-check the contracts that the verifier assumes.
// It uses the exported interface only.
package cascadia_test

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"testing"
	"time"
)

func init() { log.SetOutput(io.Discard) }

type campaign struct {
	t        *testing.T
	rng      *rand.Rand
	end      time.Time
	evals    int
	distinct map[string]bool
	samples  []any
	rule     string
	exhaust  bool
}

func newCampaign(t *testing.T, rule string) *campaign {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	secs, err := strconv.ParseFloat(os.Getenv("VERIF_SECS"), 64)
	if err != nil {
		secs = 3
	}
	return &campaign{t: t, rng: rand.New(rand.NewSource(seed)), end: time.Now().Add(time.Duration(secs * float64(time.Second))),
		distinct: map[string]bool{}, rule: rule}
}

func (c *campaign) more() bool { return time.Now().Before(c.end) }

// case records one case; key tells distinct ones apart ("" if the case is trivial).
func (c *campaign) done(key string, sample any) {
	c.evals++
	if key != "" && !c.distinct[key] && len(c.distinct) < 2_000_000 {
		c.distinct[key] = true
		if len(c.samples) < 3 {
			c.samples = append(c.samples, sample)
		}
	}
}

func (c *campaign) write(name string, v any) {
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(filepath.Join(os.Getenv("VERIF_OUT"), name), append(b, '\n'), 0o644)
}

// finish writes the statistics.
func (c *campaign) finish() {
	c.write("stats.json", map[string]any{"evaluations": c.evals, "distinct_nontrivial": len(c.distinct), "rule": c.rule, "samples": c.samples, "exhaustive": c.exhaust})
}

// fail reports a failing input.
func (c *campaign) fail(v map[string]any) {
	c.write("failure.json", v)
	c.finish()
	b, _ := json.Marshal(v)
	c.t.Fatalf("REPLAY-FAIL %s", b)
}

// guard turns a panic or a hang of f into a failure.
func (c *campaign) guard(input map[string]any, f func()) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
				return
			}
			done <- ""
		}()
		f()
	}()
	select {
	case s := <-done:
		if s != "" {
			input["why"] = s
			c.fail(input)
		}
	case <-time.After(20 * time.Second):
		input["why"] = "did not return within 20 s"
		c.fail(input)
	}
}
