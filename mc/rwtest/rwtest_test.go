package rwtest

import "testing"

// TestNative runs the programs as they are.
func TestNative(t *testing.T) {
	for _, p := range Programs {
		ok := false
		got := p.F()
		for _, w := range p.Want {
			ok = ok || got == w
		}
		if !ok {
			t.Errorf("%s: %q", p.Name, got)
		}
	}
}
