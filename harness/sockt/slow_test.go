//go:build !fast

package sockt

func speed(int64) {}

const canSpeed = false
