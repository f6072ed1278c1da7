package merge_test

import (
	"fmt"
	"strings"
	"testing"

	merge "github.com/tylantz/go-tailwind-merge"
)

func TestVerif(t *testing.T) {
	mergeCampaign(t, "lists in which two classes set the same property in the same circumstance", func(k *mergeCase, o *oracle) bool { return conflict(o) }, func(c *campaign, k *mergeCase, m *merge.Merger, o *oracle, got string) string {
		in := set(strings.Fields(got))
		for x, c := range o.lastSet {
			if !isCustom(x.prop) && !in[c] {
				return fmt.Sprintf("%q is the last class setting %q in circumstance %q but was removed", c, x.prop, x.circ)
			}
		}
		return ""
	})
}
