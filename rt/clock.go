package rt

import "time"

// The simulated clock moves only when it is looked at or waited for.
var clock time.Time

//go:norace
func init() {
	clock = time.Unix(1_000_000_000, 0)
	OnReset(func() { clock = time.Unix(1_000_000_000, 0) })
}

// Now replaces time.Now.
//
//go:norace
func Now() time.Time {
	clock = clock.Add(time.Microsecond)
	return clock
}

// Since replaces time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until replaces time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep replaces time.Sleep: no real time passes, but it counts as many steps, so
// that waiting in a loop for another task uses up the budget.
//
//go:norace
func Sleep(d time.Duration) {
	clock = clock.Add(d)
	steps += 1000
	Y(0)
}

// After replaces time.After.
func After(d time.Duration) <-chan time.Time {
	Sleep(d)
	ch := make(chan time.Time, 1)
	ch <- Now()
	return ch
}
