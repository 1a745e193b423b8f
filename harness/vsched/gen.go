package vsched

import "pgregory.net/rapid"

// Gen draws a schedule for a run of roughly n steps.
func Gen(rt *rapid.T, n int) Schedule {
	var s Schedule
	mode := rapid.IntRange(0, 9).Draw(rt, "sched")
	if mode >= 2 {
		// few preemptions, anywhere
		max := 4
		if mode >= 5 {
			max = 12
		}
		k := rapid.IntRange(1, max).Draw(rt, "preemptions")
		for i := 0; i < k; i++ {
			s.Pre = append(s.Pre, Pre{At: rapid.IntRange(0, 1+2*n/(k+1)).Draw(rt, "at"), Pick: rapid.IntRange(0, 5).Draw(rt, "pick")})
		}
	}
	if mode >= 7 {
		s.Rand = rapid.Uint64Range(1, 1<<40).Draw(rt, "rand")
		s.Density = rapid.SampledFrom([]int{100, 50, 20, 5, 2}).Draw(rt, "density")
	}
	return s
}
