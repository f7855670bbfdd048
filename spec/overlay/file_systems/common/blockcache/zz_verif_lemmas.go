package blockcache

import (
	"io"

	c "github.com/dargueta/disko/file_systems/common"
)

// Client code that only exists for verification: what a cache made by WrapStream does to
// its stream when one of its callbacks is called.

func verifFetch(stream io.ReadWriteSeeker, bytesPerBlock, totalBlocks uint, allow bool, block c.LogicalBlock, buffer []byte) error {
	cache := WrapStream(stream, bytesPerBlock, totalBlocks, allow)
	return cache.fetch(block, buffer)
}

func verifFlush(stream io.ReadWriteSeeker, bytesPerBlock, totalBlocks uint, allow bool, block c.LogicalBlock, buffer []byte) error {
	cache := WrapStream(stream, bytesPerBlock, totalBlocks, allow)
	return cache.flush(block, buffer)
}

func verifResize(stream io.ReadWriteSeeker, bytesPerBlock, totalBlocks uint, allow bool, n c.LogicalBlock) error {
	cache := WrapStream(stream, bytesPerBlock, totalBlocks, allow)
	return cache.resize(n)
}

func verifResizeFetch(stream io.ReadWriteSeeker, bytesPerBlock, totalBlocks uint, allow bool, n, block c.LogicalBlock, buffer []byte) (error, error) {
	cache := WrapStream(stream, bytesPerBlock, totalBlocks, allow)
	err := cache.resize(n)
	return err, cache.fetch(block, buffer)
}

func verifResizeFlush(stream io.ReadWriteSeeker, bytesPerBlock, totalBlocks uint, allow bool, n, block c.LogicalBlock, buffer []byte) (error, error) {
	cache := WrapStream(stream, bytesPerBlock, totalBlocks, allow)
	err := cache.resize(n)
	return err, cache.flush(block, buffer)
}

func verifWrap(stream io.ReadWriteSeeker, bytesPerBlock, totalBlocks uint, allow bool) (uint, uint) {
	cache := WrapStream(stream, bytesPerBlock, totalBlocks, allow)
	return cache.bytesPerBlock, cache.totalBlocks
}

func verifInferred(stream io.ReadWriteSeeker, bytesPerBlock uint, allow bool) (uint, uint) {
	cache := WrapStreamWithInferredSize(stream, bytesPerBlock, allow)
	return cache.bytesPerBlock, cache.totalBlocks
}

func verifSlice(storage []byte, bytesPerBlock uint) (uint, uint) {
	cache := WrapSlice(storage, bytesPerBlock)
	return cache.bytesPerBlock, cache.totalBlocks
}

func verifSliceFlush(storage []byte, bytesPerBlock uint, block c.LogicalBlock, buffer []byte) error {
	cache := WrapSlice(storage, bytesPerBlock)
	return cache.flush(block, buffer)
}

// VerifFetch, VerifFlush and VerifResize call the callbacks of a cache.
func (cache *BlockCache) VerifFetch(block c.LogicalBlock, buffer []byte) error {
	return cache.fetch(block, buffer)
}

func (cache *BlockCache) VerifFlush(block c.LogicalBlock, buffer []byte) error {
	return cache.flush(block, buffer)
}

func (cache *BlockCache) VerifResize(n c.LogicalBlock) error {
	return cache.resize(n)
}
