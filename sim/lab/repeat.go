package lab

import "fmt"

func Digest(r *Result) string { return digest(r) }

// DiffResults names the first difference of two executions.
func DiffResults(a, b *Result) string {
	for i := range a.Events {
		if i >= len(b.Events) {
			return fmt.Sprintf("history ends early at %d", i)
		}
		if a.Events[i] != b.Events[i] {
			return fmt.Sprintf("event %d: %+v / %+v", i, a.Events[i], b.Events[i])
		}
	}
	if a.Stdout != b.Stdout {
		i := 0
		for i < len(a.Stdout) && i < len(b.Stdout) && a.Stdout[i] == b.Stdout[i] {
			i++
		}
		cut := func(s string) string {
			lo, hi := i-200, i+200
			if lo < 0 {
				lo = 0
			}
			if hi > len(s) {
				hi = len(s)
			}
			return s[lo:hi]
		}
		return fmt.Sprintf("stdout differs at %d:\n%s\n----\n%s", i, cut(a.Stdout), cut(b.Stdout))
	}
	if a.Stderr != b.Stderr {
		return "stderr differs"
	}
	if a.Hash != b.Hash {
		return "hash differs"
	}
	return ""
}
