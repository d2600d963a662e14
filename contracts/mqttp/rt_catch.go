package mqttp

// hCatch: what Decode's recover turns into an error.
func hCatch(f func()) (caught bool) {
	defer func() {
		if recover() != nil {
			caught = true
		}
	}()
	f()
	return false
}
