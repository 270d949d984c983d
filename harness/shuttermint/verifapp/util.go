package verifapp

import (
	"strconv"

	"github.com/ethereum/go-ethereum/crypto"
	abcitypes "github.com/tendermint/tendermint/abci/types"
)

func itoa(x uint64) string { return strconv.FormatUint(x, 10) }

// genesisVals makes n genesis validators.
func genesisVals(n int) []abcitypes.ValidatorUpdate {
	var r []abcitypes.ValidatorUpdate
	for i := 0; i < n; i++ {
		r = append(r, ValUpdate(crypto.Keccak256([]byte("genesis validator "+itoa(uint64(i)))), int64(10+i)))
	}
	return r
}
