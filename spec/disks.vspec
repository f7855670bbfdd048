package github.com/dargueta/disko/disks

def BITS(g) = g.BitsPerAddressUnit * g.AddressUnitsPerSector * g.SectorsPerTrack * g.TotalDataTracks * g.Heads

func (g *DiskGeometry) TotalSizeBytes() (n)
  props C35
  requires BITS(g) <= 9223372036854775800
  ensures whole: 8 * n >= BITS(g) && 8 * (n - 1) < BITS(g)

func GetPredefinedDiskGeometry(slug) (g, err)
  props C35
  ensures found: iff(err == nil, has(diskGeometries, slug))
  ensures entry: imp(err == nil, g.Slug == diskGeometries[slug].Slug && g.Name == diskGeometries[slug].Name && g.BitsPerAddressUnit == diskGeometries[slug].BitsPerAddressUnit && g.AddressUnitsPerSector == diskGeometries[slug].AddressUnitsPerSector && g.SectorsPerTrack == diskGeometries[slug].SectorsPerTrack && g.TotalDataTracks == diskGeometries[slug].TotalDataTracks && g.HiddenTracks == diskGeometries[slug].HiddenTracks && g.Heads == diskGeometries[slug].Heads)
