package merge_test

import (
	"fmt"
	"strings"
	"testing"

	merge "github.com/tylantz/go-tailwind-merge"
)

type mapCache map[string]string

func (m mapCache) Get(k string) (string, bool) { v, ok := m[k]; return v, ok }
func (m mapCache) Set(k, v string)             { m[k] = v }
func (m mapCache) Clear() {
	for k := range m {
		delete(m, k)
	}
}

// Random histories of loading and merging on two instances, one with a cache.
func TestVerif(t *testing.T) {
	c := newCampaign(t, "histories of 3 to 62 operations (load a stylesheet, load a broken one, merge) on an instance with a cache and one without; non-trivial: a list merged again after a load")
	defer c.finish()
	for c.more() {
		keep := c.rng.Intn(2) == 0
		var cache merge.Cache = mapCache{}
		if c.rng.Intn(2) == 0 {
			cache = merge.NewCache()
		}
		cases := []*mergeCase{genCase(c.rng), genCase(c.rng)}
		a, b := merge.NewMerger(cache, keep), merge.NewMerger(nil, keep)
		var history []string
		merged, again := map[string]int{}, false
		loads := 0
		why := ""
		for n := 3 + c.rng.Intn(60); n > 0 && why == ""; n-- {
			k := cases[c.rng.Intn(2)]
			c.guard(map[string]any{"history": history}, func() {
				if c.rng.Intn(4) == 0 {
					css := k.Css[c.rng.Intn(len(k.Css))]
					switch c.rng.Intn(4) {
					case 0:
						css += ".p-4 { color }" // does not parse
					case 1:
						css = ".x { } } .b { color red } "
					}
					history = append(history, "load "+css)
					e1 := a.AddRules(strings.NewReader(css), false)
					e2 := b.AddRules(strings.NewReader(css), false)
					if (e1 == nil) != (e2 == nil) {
						why = fmt.Sprintf("loading gave %v with a cache and %v without", e1, e2)
					}
					loads++
					return
				}
				list := k.List
				if c.rng.Intn(3) == 0 {
					list, _ = genList(c.rng, k.tokens)
				}
				history = append(history, "merge "+list)
				if l, ok := merged[list]; ok && l != loads {
					again = true
				}
				merged[list] = loads
				r1, r2 := a.Merge(list), b.Merge(list)
				if r1 != r2 {
					why = fmt.Sprintf("merging %q gave %q with a cache and %q without", list, r1, r2)
				}
			})
		}
		if why != "" {
			c.fail(map[string]any{"history": history, "keepSort": keep, "why": why})
		}
		key := ""
		if again {
			key = strings.Join(history, "\x00")
		}
		c.done(key, history)
	}
}
