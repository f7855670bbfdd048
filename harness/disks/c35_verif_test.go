package disks_test

import (
	"encoding/csv"
	"fmt"
	"math/big"
	"os"
	"strconv"
	"strings"
	"testing"

	"github.com/dargueta/disko/disks"
	"github.com/dargueta/disko/verifharness"
)

func TestVerif_C35(t *testing.T) {
	verifharness.Run(t, "every row of disk-geometries.csv looked up and compared field by field, and names near and far from them; sizes of all predefined and of random geometries", func(r *verifharness.R) {
		f, err := os.Open("disk-geometries.csv")
		if err != nil {
			t.Fatal(err)
		}
		defer f.Close()
		cr := csv.NewReader(f)
		cr.Comma = '|'
		rows, err := cr.ReadAll()
		if err != nil || len(rows) < 2 {
			t.Fatalf("%d rows: %v", len(rows), err)
		}
		seen := map[string]bool{}
		var slugs []string
		size := func(g disks.DiskGeometry) {
			r.Case("size", func() string { return fmt.Sprintf("%+v", g) }, func() error {
				b := big.NewInt(1)
				for _, x := range []uint{g.BitsPerAddressUnit, g.AddressUnitsPerSector, g.SectorsPerTrack, g.TotalDataTracks, g.Heads} {
					b.Mul(b, new(big.Int).SetUint64(uint64(x)))
				}
				if b.BitLen() > 63 {
					return nil
				}
				want := b.Add(b, big.NewInt(7)).Rsh(b, 3).Int64()
				if got := g.TotalSizeBytes(); got != want {
					return fmt.Errorf("size is %d, want %d", got, want)
				}
				return nil
			})
		}
		for _, fields := range rows[1:] {
			row := map[string]string{}
			for i, c := range rows[0] {
				row[c] = fields[i]
			}
			slug := row["slug"]
			slugs = append(slugs, slug)
			r.Case("row", func() string { return fmt.Sprint(fields) }, func() error {
				if seen[slug] {
					return fmt.Errorf("identifier %q is there twice", slug)
				}
				seen[slug] = true
				g, err := disks.GetPredefinedDiskGeometry(slug)
				if err != nil {
					return err
				}
				for c, have := range map[string]string{
					"name": g.Name, "slug": g.Slug, "form_factor": g.FormFactor, "notes": g.Notes,
				} {
					if row[c] != have {
						return fmt.Errorf("%s is %q", c, have)
					}
				}
				for c, have := range map[string]uint{
					"first_year_available": g.FirstYearAvailable, "is_removable": g.IsRemovable,
					"bits_per_address_unit": g.BitsPerAddressUnit, "address_units_per_sector": g.AddressUnitsPerSector,
					"sectors_per_track": g.SectorsPerTrack, "total_data_tracks": g.TotalDataTracks,
					"hidden_tracks": g.HiddenTracks, "heads": g.Heads,
				} {
					want, _ := strconv.ParseUint(row[c], 10, 64)
					if uint64(have) != want {
						return fmt.Errorf("%s is %d, want %q", c, have, row[c])
					}
				}
				return nil
			})
			if g, err := disks.GetPredefinedDiskGeometry(slug); err == nil {
				size(g)
			}
		}
		unknown := func(s string) {
			for _, k := range slugs {
				if s == k {
					return
				}
			}
			r.Case("unknown name", func() string { return fmt.Sprintf("%q", s) }, func() error {
				if g, err := disks.GetPredefinedDiskGeometry(s); err == nil {
					return fmt.Errorf("found %+v", g)
				}
				return nil
			})
		}
		unknown("")
		for _, k := range slugs {
			for _, s := range []string{strings.ToUpper(k), strings.Title(k), " " + k, k + " ", k + "x", k[:len(k)-1], k[1:], strings.ReplaceAll(k, "-", "_"), strings.ReplaceAll(k, "-", "")} {
				unknown(s)
			}
			if g, err := disks.GetPredefinedDiskGeometry(k); err == nil {
				unknown(g.Name)
				unknown(g.Notes)
			}
		}
		pick := func() uint {
			switch r.Intn(3) {
			case 0:
				return uint(r.Intn(20))
			case 1:
				return uint(r.Intn(3000))
			}
			return uint(r.Uint64() >> (30 + uint(r.Intn(30))))
		}
		for r.More() {
			g := disks.DiskGeometry{BitsPerAddressUnit: pick(), AddressUnitsPerSector: pick(), SectorsPerTrack: pick(), TotalDataTracks: pick(), HiddenTracks: pick(), Heads: pick()}
			size(g)
			b := make([]byte, r.Intn(12))
			for i := range b {
				b[i] = "abcdefghijklmnopqrstuvwxyz0123456789-"[r.Intn(37)]
			}
			unknown(string(b))
		}
	})
}
