package merge_test

import (
	"fmt"
	"strings"
	"testing"

	merge "github.com/tylantz/go-tailwind-merge"
)

func TestVerif(t *testing.T) {
	mergeCampaign(t, "lists of at least two names", func(k *mergeCase, o *oracle) bool { return len(k.tokens) > 1 }, func(c *campaign, k *mergeCase, m *merge.Merger, o *oracle, got string) string {
		if len(o.tokens) < 2 {
			if got != k.List {
				return "a list of fewer than two names was changed"
			}
			return ""
		}
		if got == "" {
			return ""
		}
		in := set(o.tokens)
		for _, x := range strings.Split(got, " ") {
			if !in[x] {
				return fmt.Sprintf("%q is not a class name of the list", x)
			}
		}
		return ""
	})
}
