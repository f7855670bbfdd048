package unixv6

import "os"

func verifModeRoundTrip(mode os.FileMode) (os.FileMode, error) {
	flags, err := ConvertStandardFlagsToFS(mode)
	if err != nil {
		return 0, err
	}
	return ConvertFSFlagsToStandard(flags)
}

func verifFlagsRoundTrip(flags uint16) (uint16, error) {
	mode, err := ConvertFSFlagsToStandard(flags)
	if err != nil {
		return 0, err
	}
	return ConvertStandardFlagsToFS(mode)
}
