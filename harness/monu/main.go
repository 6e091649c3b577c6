// Command monu holds the monitors for the packages above the chunk layer:
// commands, data, client and server.
package main

import "github.com/WatchBeam/rtmp/zzverif/kit"

func main() {
	kit.Main(map[string]func(*kit.R){
		"U01": u01, "U02": u02, "U03": u03, "U04": u04, "U05": u05, "U06": u06, "U07": u07, "U08": u08, "U09": u09, "U10": u10, "U11": u11,
	})
}
