package disko

func verifKinds(stat *FileStat) (bool, bool, bool) {
	return stat.IsDir(), stat.IsFile(), stat.IsSymlink()
}
