// Replays traces: main FILE; one JSON result per line.
package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"

	vrt "MODPATH/zzvrt"
)

func main() {
	b, err := ioutil.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var ts []*vrt.Trace
	if err := json.Unmarshal(b, &ts); err != nil {
		panic(err)
	}
	for _, t := range ts {
		h := table[t.Harness]
		var r vrt.Result
		if h == nil {
			r = vrt.Result{Status: "mismatch", Msg: "no harness " + t.Harness}
		} else {
			r = vrt.Run(h, t)
		}
		j, err := json.Marshal(r)
		if err != nil {
			panic(err)
		}
		fmt.Println("VRT " + string(j))
	}
}
