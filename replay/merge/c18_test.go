package merge_test

import (
	"fmt"
	"testing"

	merge "github.com/tylantz/go-tailwind-merge"
)

// Random histories against a map.
func TestVerif(t *testing.T) {
	c := newCampaign(t, "histories of up to 60 operations on 1 to 6 keys against a map; non-trivial: a lookup after an overwrite or a clear")
	defer c.finish()
	all := []string{"", " ", "a", "A", "a ", "b", "a b", "b a", "é", "\x00", "p-4 p-5", "p-4  p-5"}
	for c.more() {
		ks := make([]string, 1+c.rng.Intn(6))
		for i := range ks {
			ks[i] = pick(c.rng, all)
		}
		cache := merge.NewCache()
		want := map[string]string{}
		var history []string
		why, rich := "", false
		c.guard(map[string]any{"history": history}, func() {
			for n := c.rng.Intn(60); n >= 0 && why == ""; n-- {
				k := pick(c.rng, ks)
				switch c.rng.Intn(8) {
				case 0:
					history = append(history, "clear")
					cache.Clear()
					want = map[string]string{}
				case 1, 2, 3:
					v := pick(c.rng, all)
					history = append(history, fmt.Sprintf("set %q %q", k, v))
					cache.Set(k, v)
					if _, ok := want[k]; ok {
						rich = true
					}
					want[k] = v
				default:
					history = append(history, fmt.Sprintf("get %q", k))
					v, ok := cache.Get(k)
					w, wok := want[k]
					if v != w || ok != wok {
						why = fmt.Sprintf("the lookup gave %q, %v instead of %q, %v", v, ok, w, wok)
					}
				}
			}
			for _, k := range all {
				if v, ok := cache.Get(k); why == "" && (v != want[k] || ok != func() bool { _, ok := want[k]; return ok }()) {
					why = fmt.Sprintf("at the end, the lookup of %q gave %q, %v", k, v, ok)
				}
			}
		})
		if why != "" {
			c.fail(map[string]any{"history": history, "why": why})
		}
		key := ""
		if rich {
			key = fmt.Sprint(history)
		}
		c.done(key, history)
	}
}
