// Command mon holds the monitors for the chunk, control, handshake and spec
// packages.
package main

import "github.com/WatchBeam/rtmp/zzverif/kit"

func main() {
	if dumpS1() {
		return
	}
	kit.Main(map[string]func(*kit.R){
		"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07,
		"C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16,
		"P01": p01, "P02": p02, "P03": p03, "P04": p04, "P05": p05,
		"H01": h01, "H02": h02, "H03": h03, "H04": h04,
		"K01": k01, "K02": k02, "K03": k03, "K04": k04, "K05": k05, "K06": k06,
		"S01": s01,
		"M01": m01, "M02": m02, "M03": m03,
	})
}
