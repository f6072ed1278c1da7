package merge_test

import (
	"fmt"
	"strings"
	"testing"

	merge "github.com/tylantz/go-tailwind-merge"
)

func TestVerif(t *testing.T) {
	mergeCampaign(t, "lists in which a custom property is used", func(k *mergeCase, o *oracle) bool { return len(o.used) > 0 }, func(c *campaign, k *mergeCase, m *merge.Merger, o *oracle, got string) string {
		if len(o.tokens) < 2 {
			return ""
		}
		in := set(strings.Fields(got))
		for x, c := range o.lastSet {
			if !isCustom(x.prop) {
				continue
			}
			if o.used[x.prop] && !in[c] {
				return fmt.Sprintf("%q is the last class setting %q (in use) in circumstance %q but was removed", c, x.prop, x.circ)
			}
			if !o.keep[c] && in[c] {
				return fmt.Sprintf("%q only sets custom properties that are not in use but was kept", c)
			}
		}
		return ""
	})
}
