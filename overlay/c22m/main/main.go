// Command c22m round-trips what the metadata servers replicate and store.
package main

import (
	"metaserver/internal/entity"

	. "verifharness/report"
	"verifharness/roundtrip"
)

func main() {
	roundtrip.Codecs(51, Pick(1500, 30000), map[string]func() roundtrip.Codec{
		"RaftData": func() roundtrip.Codec { return new(entity.RaftData) },
	})
	Done()
}
