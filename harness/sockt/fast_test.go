//go:build fast

package sockt

import "time"

// speed makes long times pass n times as fast; 0 turns it off.
func speed(n int64) { time.VerifSpeed.Store(n) }

const canSpeed = true
