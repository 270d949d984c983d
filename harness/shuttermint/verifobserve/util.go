// Package verifobserve explores how a keyper follows its chains.
package verifobserve

import (
	"bytes"
	"encoding/gob"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// roundTrip stores and reloads a value the way the keyper does.
func roundTrip(src, dst interface{}) {
	var b bytes.Buffer
	must(gob.NewEncoder(&b).Encode(src))
	must(gob.NewDecoder(&b).Decode(dst))
}
