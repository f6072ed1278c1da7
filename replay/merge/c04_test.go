package merge_test

import (
	"fmt"
	"strings"
	"testing"

	merge "github.com/tylantz/go-tailwind-merge"
)

func TestVerif(t *testing.T) {
	mergeCampaign(t, "lists with a class each of whose properties is set again", func(k *mergeCase, o *oracle) bool { return anyTrue(o.setAgainEverywhere) }, func(c *campaign, k *mergeCase, m *merge.Merger, o *oracle, got string) string {
		if len(o.tokens) < 2 {
			return ""
		}
		in := set(strings.Fields(got))
		for c, again := range o.setAgainEverywhere {
			if again && in[c] && !o.keep[c] {
				return fmt.Sprintf("each property that %q sets is set again by a later class, but it was kept", c)
			}
		}
		return ""
	})
}
