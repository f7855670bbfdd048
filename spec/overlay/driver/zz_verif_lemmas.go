package driver

// verifNormalizeTwice normalises a path that was normalised before.
func verifNormalizeTwice(driver *BaseDriver, path string) (string, string) {
	once := driver.NormalizePath(path)
	return once, driver.NormalizePath(once)
}

// verifNormalizeMoved normalises a normalised path in another working directory.
func verifNormalizeMoved(driver, other *BaseDriver, path string) (string, string) {
	once := driver.NormalizePath(path)
	return once, other.NormalizePath(once)
}
