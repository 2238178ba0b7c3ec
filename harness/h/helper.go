package h

// frames of a file that is not a test file
func helper(f func()) { helper2(f) }

func helper2(f func()) { f() }
