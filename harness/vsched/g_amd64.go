package vsched

// getg returns an identity of the running goroutine (unique among live ones).
func getg() uintptr
