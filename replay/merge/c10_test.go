package merge_test

import (
	"fmt"
	"reflect"
	"strings"
	"sync"
	"testing"

	merge "github.com/tylantz/go-tailwind-merge"
)

// Many merges on one instance, one after another and at the same time (under the race detector), against the expected results.
func TestVerif(t *testing.T) {
	c := newCampaign(t, "a stylesheet and 2 to 12 lists, merged in turn and concurrently on one instance, compared with what each gives by the properties of Merge; non-trivial: two of the lists share a class with a rule")
	defer c.finish()
	for c.more() {
		k := genCase(c.rng)
		lists := []string{k.List}
		for n := 1 + c.rng.Intn(11); n > 0; n-- {
			l, _ := genList(c.rng, append(k.tokens, keys(k.rules)...))
			lists = append(lists, l)
		}
		var want []map[string]bool
		for i, l := range lists {
			k.List, k.tokens = l, strings.Fields(l)
			o := k.oracle()
			if len(o.tokens) < 2 {
				o.keep = set(o.tokens)
			}
			want = append(want, o.keep)
			_ = i
		}
		same := func(got string, want map[string]bool) bool { return reflect.DeepEqual(set(strings.Fields(got)), want) }
		why := ""
		c.guard(map[string]any{"stylesheets": k.Css, "lists": lists}, func() {
			var cache merge.Cache
			if c.rng.Intn(2) == 0 {
				cache = merge.NewCache()
			}
			m, err := load(k, cache)
			if err != nil {
				why = err.Error()
				return
			}
			before := fmt.Sprintf("%#v", m.Rules())
			for turn := 0; turn < 2; turn++ {
				got := make([]string, 4*len(lists))
				var wg sync.WaitGroup
				for i := range got {
					wg.Add(1)
					go func(i int) {
						defer wg.Done()
						got[i] = m.Merge(lists[i%len(lists)])
					}(i)
				}
				wg.Wait()
				for i := range got {
					if !same(got[i], want[i%len(lists)]) {
						why = fmt.Sprintf("merging %q at the same time as other lists gave %q", lists[i%len(lists)], got[i])
						return
					}
				}
				if cache != nil {
					cache.Clear()
				}
				for i, l := range lists {
					if got := m.Merge(l); !same(got, want[i]) {
						why = fmt.Sprintf("merging %q after other lists gave %q", l, got)
						return
					}
				}
				if fmt.Sprintf("%#v", m.Rules()) != before {
					why = "merging changed the rules"
					return
				}
			}
		})
		if why != "" {
			c.fail(map[string]any{"stylesheets": k.Css, "lists": lists, "keepSort": k.KeepSort, "why": why})
		}
		key := ""
		n := map[string]int{}
		for _, l := range lists {
			for x := range set(strings.Fields(l)) {
				if k.rules[x] != nil {
					n[x]++
					if n[x] > 1 {
						key = strings.Join(k.Css, "\x00") + strings.Join(lists, "\x00")
					}
				}
			}
		}
		c.done(key, map[string]any{"stylesheets": k.Css, "lists": lists})
	}
}
