package merge_test

import (
	"fmt"
	"strings"
	"testing"

	merge "github.com/tylantz/go-tailwind-merge"
)

func TestVerif(t *testing.T) {
	mergeCampaign(t, "lists with an !important declaration and a conflict", func(k *mergeCase, o *oracle) bool { return len(o.lastImp) > 0 && conflict(o) }, func(c *campaign, k *mergeCase, m *merge.Merger, o *oracle, got string) string {
		in := set(strings.Fields(got))
		for x, c := range o.lastImp {
			if !in[c] {
				return fmt.Sprintf("%q is the last class setting %q with !important in circumstance %q but was removed", c, x.prop, x.circ)
			}
		}
		return ""
	})
}
