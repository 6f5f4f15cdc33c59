// Command c22a round-trips the credentials the api servers keep in etcd.
package main

import (
	"apiserver/internal/usecase/componet/auth/credential"

	. "verifharness/report"
	"verifharness/roundtrip"
)

func main() {
	roundtrip.Codecs(52, Pick(1500, 30000), map[string]func() roundtrip.Codec{
		"AdminCredential": func() roundtrip.Codec { return new(credential.AdminCredential) },
	})
	Done()
}
