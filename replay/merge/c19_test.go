package merge_test

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"testing"

	merge "github.com/tylantz/go-tailwind-merge"
)

// Goroutines getting, setting and clearing one cache, under the race detector.
func TestVerif(t *testing.T) {
	c := newCampaign(t, "2 to 8 goroutines with 50 to 400 random operations each on one cache, under the race detector; values name their key; non-trivial: every kind of operation occurs")
	defer c.finish()
	for c.more() {
		cache := merge.NewCache()
		g, n, clears := 2+c.rng.Intn(7), 50+c.rng.Intn(350), c.rng.Intn(20)
		in := map[string]any{"goroutines": g, "operations": n, "clears": clears, "seed": c.evals}
		why := ""
		var mu sync.Mutex
		c.guard(in, func() {
			var wg sync.WaitGroup
			var started, panics sync.WaitGroup
			_ = panics
			started.Add(g)
			for i := 0; i < g; i++ {
				wg.Add(1)
				go func(rng *rand.Rand) {
					defer wg.Done()
					defer func() {
						if r := recover(); r != nil {
							mu.Lock()
							why = fmt.Sprint("panic: ", r)
							mu.Unlock()
						}
					}()
					started.Done()
					started.Wait()
					for j := 0; j < n; j++ {
						k := fmt.Sprint("k", rng.Intn(4))
						switch x := rng.Intn(100); {
						case x < clears:
							cache.Clear()
						case x < 50:
							cache.Set(k, fmt.Sprint(k, ":", j))
						default:
							v, ok := cache.Get(k)
							if ok && !strings.HasPrefix(v, k+":") || !ok && v != "" {
								mu.Lock()
								why = fmt.Sprintf("the lookup of %q gave %q, %v", k, v, ok)
								mu.Unlock()
							}
						}
					}
				}(rand.New(rand.NewSource(c.rng.Int63())))
			}
			wg.Wait()
		})
		if why != "" {
			in["why"] = why
			c.fail(in)
		}
		key := ""
		if clears > 0 {
			key = fmt.Sprint(in)
		}
		c.done(key, in)
	}
}
