package merge_test

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"

	merge "github.com/tylantz/go-tailwind-merge"
)

// What each property counts as setting, seen through Merge: every property of the table against every one.
func TestVerif(t *testing.T) {
	c := newCampaign(t, "each property of the table (and some that are not in it) followed by each other one; non-trivial: the first sets more than itself")
	defer c.finish()
	delete(table, "--*") // stands for all custom properties
	props := append(keys(table), "fill", "stroke", "unknown-prop", "margin-topp")
	longs := map[string]bool{}
	css := ""
	for i, p := range props {
		css += fmt.Sprintf(".s%d { %s: 1px }\n", i, p)
		for _, l := range longhands(p) {
			longs[l] = true
		}
	}
	var m *merge.Merger
	c.guard(map[string]any{"why": "loading the table"}, func() {
		m = merge.NewMerger(nil, true)
		for i, l := range keys(longs) {
			css += fmt.Sprintf(".l%d { %s: 1px }\n", i, l)
		}
		if err := m.AddRules(strings.NewReader(css), false); err != nil {
			c.fail(map[string]any{"why": err.Error()})
		}
	})
	var list []string
	names := keys(longs)
	for i := range names {
		list = append(list, fmt.Sprintf("l%d", i))
	}
	for i, p := range props {
		var got []string
		// the longhands that p overrides
		res := set(strings.Fields(m.Merge(strings.Join(list, " ") + fmt.Sprintf(" s%d", i))))
		for j, l := range names {
			if !res[fmt.Sprintf("l%d", j)] {
				got = append(got, l)
			}
		}
		want := append([]string{}, longhands(p)...)
		sort.Strings(want)
		if !reflect.DeepEqual(got, want) {
			c.fail(map[string]any{"property": p, "overrides": got, "want": want, "why": "the property does not override exactly the longhands that it sets"})
		}
		// p sets nothing else: its longhands override it, and without one of them they do not
		var over []string
		for j, l := range names {
			if i := sort.SearchStrings(want, l); i < len(want) && want[i] == l {
				over = append(over, fmt.Sprintf("l%d", j))
			}
		}
		cl := fmt.Sprintf("s%d", i)
		if r := set(strings.Fields(m.Merge(cl + " " + strings.Join(over, " ")))); r[cl] {
			c.fail(map[string]any{"property": p, "longhands": want, "why": "the property counts as setting something else than its longhands"})
		}
		for x := range over {
			rest := append(append([]string{}, over[:x]...), over[x+1:]...)
			if r := set(strings.Fields(m.Merge(cl + " unknown " + strings.Join(rest, " ")))); !r[cl] {
				c.fail(map[string]any{"property": p, "longhands": want, "why": "the property does not count as setting " + want[x]})
			}
		}
		key := ""
		if len(want) > 1 {
			key = p
		}
		c.done(key, map[string]any{"property": p, "sets": want})
	}
	c.exhaust = true
}
