package driver

import (
	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/common"
)

// Client code that only exists for verification: what the file of an object does to the
// object when one of the callbacks of its block cache is called.

func verifFileOpen(driver *BaseDriver, object extObjectHandle, flags disko.IOFlags) (File, error) {
	return NewFileFromObjectHandle(driver, object, flags)
}

func verifFileFetch(driver *BaseDriver, object extObjectHandle, flags disko.IOFlags, block common.LogicalBlock, buffer []byte) (error, error) {
	file, err := NewFileFromObjectHandle(driver, object, flags)
	if err != nil {
		return err, nil
	}
	return nil, file.BasicStream.VerifCache().VerifFetch(block, buffer)
}

func verifFileFlush(driver *BaseDriver, object extObjectHandle, flags disko.IOFlags, block common.LogicalBlock, buffer []byte) (error, error) {
	file, err := NewFileFromObjectHandle(driver, object, flags)
	if err != nil {
		return err, nil
	}
	return nil, file.BasicStream.VerifCache().VerifFlush(block, buffer)
}

func verifFileResize(driver *BaseDriver, object extObjectHandle, flags disko.IOFlags, n common.LogicalBlock) (error, error) {
	file, err := NewFileFromObjectHandle(driver, object, flags)
	if err != nil {
		return err, nil
	}
	return nil, file.BasicStream.VerifCache().VerifResize(n)
}
