package merge_test

import (
	"fmt"
	"strings"
	"testing"

	merge "github.com/tylantz/go-tailwind-merge"
)

func TestVerif(t *testing.T) {
	mergeCampaign(t, "lists of at least two names", func(k *mergeCase, o *oracle) bool { return len(k.tokens) > 1 }, func(c *campaign, k *mergeCase, m *merge.Merger, o *oracle, got string) string {
		if len(o.tokens) < 2 {
			return ""
		}
		out := strings.Split(got, " ")
		if len(set(out)) != len(out) && got != "" {
			return "a name is repeated"
		}
		if !k.KeepSort {
			return ""
		}
		last := map[string]int{}
		for i, x := range o.tokens {
			last[x] = i
		}
		for i := 1; i < len(out); i++ {
			if last[out[i-1]] >= last[out[i]] {
				return fmt.Sprintf("%q and %q are out of order", out[i-1], out[i])
			}
		}
		if again := m.Merge(got); again != got {
			return fmt.Sprintf("merging the result again gives %q", again)
		}
		return ""
	})
}
