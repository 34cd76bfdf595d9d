// godrv answers work requests, one JSON line each.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"strconv"
	"time"

	"uipcheck/work"
)

func main() {
	log.SetOutput(io.Discard)
	if h, err := strconv.Atoi(os.Getenv("VERIF_ZONE")); err == nil {
		time.Local = time.FixedZone("zone", h*3600)
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		l, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var r work.Req
		if err := json.Unmarshal(l, &r); err != nil {
			fmt.Fprintln(os.Stderr, "bad request:", err)
			os.Exit(7)
		}
		s, _ := json.Marshal(work.Do(&r))
		out.WriteByte('@')
		out.Write(s)
		out.WriteByte('\n')
		out.Flush()
	}
}
