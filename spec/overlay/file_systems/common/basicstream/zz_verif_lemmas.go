package basicstream

import "github.com/dargueta/disko/file_systems/common/blockcache"

// VerifCache is the cache behind the stream.
func (stream *BasicStream) VerifCache() *blockcache.BlockCache { return stream.data }
