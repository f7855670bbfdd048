package fat8

func verifNameRoundTrip(name string) (string, error) {
	raw, err := FilenameToBytes(name)
	if err != nil {
		return "", err
	}
	return BytesToFilename(raw)
}

func verifClusterRoundTrip(driver *FAT8Driver, id PhysicalCluster, data []byte) ([]byte, error) {
	if err := driver.WriteAbsoluteCluster(id, data); err != nil {
		return nil, err
	}
	return driver.ReadAbsoluteCluster(id)
}
