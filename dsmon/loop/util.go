package main

// the module's language version has no built-in min and max

type num interface{ ~int | ~int64 | ~int8 }

func min[T num](a T, b ...T) T {
	for _, x := range b {
		if x < a {
			a = x
		}
	}
	return a
}

func max[T num](a T, b ...T) T {
	for _, x := range b {
		if x > a {
			a = x
		}
	}
	return a
}
