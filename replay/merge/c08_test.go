package merge_test

import (
	"fmt"
	"testing"

	merge "github.com/tylantz/go-tailwind-merge"
)

var m2 *merge.Merger
var m2for string

// second returns another instance with the same rules.
func second(k *mergeCase) *merge.Merger {
	if s := fmt.Sprint(k.KeepSort, k.Css); m2for != s {
		m2, _ = load(k, nil)
		m2for = s
	}
	return m2
}

func TestVerif(t *testing.T) {
	mergeCampaign(t, "lists of at least two names", func(k *mergeCase, o *oracle) bool { return len(k.tokens) > 1 }, func(c *campaign, k *mergeCase, m *merge.Merger, o *oracle, got string) string {
		m2 := second(k)
		for i := 0; i < 3; i++ {
			if again := m.Merge(k.List); again != got {
				return fmt.Sprintf("merging again gives %q", again)
			}
			if again := m2.Merge(k.List); again != got {
				return fmt.Sprintf("merging with another instance gives %q", again)
			}
		}
		return ""
	})
}
