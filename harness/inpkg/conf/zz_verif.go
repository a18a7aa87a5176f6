package conf

// VerifNames gives a harness the names of a field path.
func VerifNames(path string) (flag, env string) { return flagStyle(path), envStyle(path) }
