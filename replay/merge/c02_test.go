package merge_test

import (
	"fmt"
	"strings"
	"testing"

	merge "github.com/tylantz/go-tailwind-merge"
)

func TestVerif(t *testing.T) {
	mergeCampaign(t, "lists with a class without rule and one with a rule", func(k *mergeCase, o *oracle) bool { return len(o.unknown) > 0 && len(o.sets) > 0 }, func(c *campaign, k *mergeCase, m *merge.Merger, o *oracle, got string) string {
		in := set(strings.Fields(got))
		for x := range o.unknown {
			if !in[x] {
				return fmt.Sprintf("class %q has no rule but was removed", x)
			}
		}
		return ""
	})
}
