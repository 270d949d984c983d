// Package verifapp explores the Shuttermint application: breadth first search over all action
// sequences up to a bound, with the real application and a reference model in lockstep.
package verifapp

import (
	"crypto/ecdsa"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"sync"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/ethereum/go-ethereum/crypto/ecies"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	tmcrypto "github.com/tendermint/tendermint/proto/tendermint/crypto"
	"google.golang.org/protobuf/proto"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/app"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
)

// ChainID of the explored chains.
const ChainID = "verif-chain"

// Keyper is an account with all its keys.
type Keyper struct {
	I    int
	Key  *ecdsa.PrivateKey
	Enc  *ecdsa.PrivateKey
	Addr common.Address
	Val  []byte
}

var (
	keyperMu sync.Mutex
	keypers  = map[int]*Keyper{}
)

func detKey(s string) *ecdsa.PrivateKey {
	k, err := crypto.ToECDSA(crypto.Keccak256([]byte(s)))
	if err != nil {
		panic(err)
	}
	return k
}

// K returns account number i.
func K(i int) *Keyper {
	keyperMu.Lock()
	defer keyperMu.Unlock()
	k := keypers[i]
	if k == nil {
		key := detKey(fmt.Sprintf("verif keyper %d", i))
		k = &Keyper{
			I: i, Key: key, Enc: detKey(fmt.Sprintf("verif encryption %d", i)),
			Addr: crypto.PubkeyToAddress(key.PublicKey), Val: crypto.Keccak256([]byte(fmt.Sprintf("verif validator %d", i))),
		}
		keypers[i] = k
	}
	return k
}

// Addrs returns the addresses of the given accounts.
func Addrs(is ...int) []common.Address {
	var r []common.Address
	for _, i := range is {
		r = append(r, K(i).Addr)
	}
	return r
}

// Bytes returns the addresses of the given accounts as byte strings.
func Bytes(is ...int) [][]byte {
	var r [][]byte
	for _, i := range is {
		r = append(r, K(i).Addr.Bytes())
	}
	return r
}

// EncPub is the account's encryption key in ecies form.
func (k *Keyper) EncPub() *ecies.PublicKey { return ecies.ImportECDSAPublic(&k.Enc.PublicKey) }

type txKey struct {
	signer  int
	nonce   uint64
	chain   string
	payload string
}

var (
	txMu    sync.RWMutex
	txCache = map[txKey][]byte{}
)

// Tx signs and encodes a message.
func Tx(chain string, signer int, nonce uint64, msg *shmsg.Message) []byte {
	mb, err := proto.Marshal(msg)
	if err != nil {
		panic(err)
	}
	k := txKey{signer, nonce, chain, string(mb)}
	txMu.RLock()
	tx, ok := txCache[k]
	txMu.RUnlock()
	if ok {
		return tx
	}
	signed, err := shmsg.SignMessage(&shmsg.MessageWithNonce{ChainId: []byte(chain), RandomNonce: nonce, Msg: msg}, K(signer).Key)
	if err != nil {
		panic(err)
	}
	tx = []byte(base64.RawURLEncoding.EncodeToString(signed))
	txMu.Lock()
	if len(txCache) > 400000 {
		txCache = map[txKey][]byte{}
	}
	txCache[k] = tx
	txMu.Unlock()
	return tx
}

// ValUpdate makes a validator entry.
func ValUpdate(pub []byte, power int64) abcitypes.ValidatorUpdate {
	return abcitypes.ValidatorUpdate{Power: power, PubKey: tmcrypto.PublicKey{Sum: &tmcrypto.PublicKey_Ed25519{Ed25519: pub}}}
}

// Genesis describes how a chain starts.
type Genesis struct {
	Keypers    []int
	Threshold  int
	Validators []abcitypes.ValidatorUpdate
	DevMode    bool
	ChainID    string
}

// NewApp makes an application after InitChain.
func (g *Genesis) NewApp() *app.ShutterApp {
	a := app.NewShutterApp()
	g.Init(a)
	return a
}

// Init calls InitChain.
func (g *Genesis) Init(a *app.ShutterApp) {
	a.DevMode = g.DevMode
	// amino wants integers as strings
	type gs struct {
		Keypers   []string `json:"keypers"`
		Threshold string   `json:"threshold"`
	}
	x := gs{Threshold: fmt.Sprint(g.Threshold)}
	for _, k := range Addrs(g.Keypers...) {
		x.Keypers = append(x.Keypers, k.Hex())
	}
	st, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	a.InitChain(abcitypes.RequestInitChain{ChainId: g.Chain(), AppStateBytes: st, Validators: g.Validators})
}

// Chain is the chain id.
func (g *Genesis) Chain() string {
	if g.ChainID != "" {
		return g.ChainID
	}
	return ChainID
}

// Gammas makes polynomial commitments of n distinct points.
func Gammas(seed, n int) [][]byte {
	var r [][]byte
	for i := 0; i < n; i++ {
		r = append(r, new(bn256.G2).ScalarBaseMult(big.NewInt(int64(seed*1000+i+2))).Marshal())
	}
	return r
}

// Share makes an encoded epoch secret key share.
func Share(seed int) []byte {
	g1 := new(bn256.G1).ScalarBaseMult(big.NewInt(int64(seed + 2)))
	s := shcrypto.EpochSecretKeyShare(*g1)
	b, err := (&s).GobEncode()
	if err != nil {
		panic(err)
	}
	return b
}

// Message constructors. They fill the protocol buffers directly so that malformed ones can be made.

// MConfigVote makes a batch config vote.
func MConfigVote(c CfgSpec) *shmsg.Message {
	return &shmsg.Message{Payload: &shmsg.Message_BatchConfig{BatchConfig: &shmsg.BatchConfig{
		StartBatchIndex: c.Start, Keypers: Bytes(c.Keypers...), Threshold: c.Threshold,
		ConfigContractAddress: contractAddr(c.Contract), ConfigIndex: c.Index,
	}}}
}

func contractAddr(i int) []byte {
	return common.BigToAddress(big.NewInt(int64(0xc0de00 + i))).Bytes()
}

// CfgSpec describes a batch config.
type CfgSpec struct {
	Index, Start, Threshold uint64
	Keypers                 []int
	Contract                int
}

// MStarted reports a config as started.
func MStarted(index uint64) *shmsg.Message { return shmsg.NewBatchConfigStarted(index) }

// MCheckIn checks an account in.
func MCheckIn(val []byte, k *Keyper) *shmsg.Message {
	return &shmsg.Message{Payload: &shmsg.Message_CheckIn{CheckIn: &shmsg.CheckIn{
		ValidatorPublicKey: val, EncryptionPublicKey: crypto.CompressPubkey(&k.Enc.PublicKey),
	}}}
}

// MCheckInRaw checks in with arbitrary keys.
func MCheckInRaw(val, enc []byte) *shmsg.Message {
	return &shmsg.Message{Payload: &shmsg.Message_CheckIn{CheckIn: &shmsg.CheckIn{ValidatorPublicKey: val, EncryptionPublicKey: enc}}}
}

// MEonVote votes for an eon start.
func MEonVote(batch uint64) *shmsg.Message { return shmsg.NewEonStartVote(batch) }

// MDecSig publishes a decryption signature.
func MDecSig(batch uint64, sig []byte) *shmsg.Message {
	return shmsg.NewDecryptionSignature(batch, sig)
}

// MCommitment publishes commitments.
func MCommitment(eon uint64, gammas [][]byte) *shmsg.Message {
	return &shmsg.Message{Payload: &shmsg.Message_PolyCommitment{PolyCommitment: &shmsg.PolyCommitment{Eon: eon, Gammas: gammas}}}
}

// MEval publishes evaluations.
func MEval(eon uint64, receivers [][]byte, evals [][]byte) *shmsg.Message {
	return &shmsg.Message{Payload: &shmsg.Message_PolyEval{PolyEval: &shmsg.PolyEval{Eon: eon, Receivers: receivers, EncryptedEvals: evals}}}
}

// MAccuse accuses.
func MAccuse(eon uint64, accused [][]byte) *shmsg.Message {
	return &shmsg.Message{Payload: &shmsg.Message_Accusation{Accusation: &shmsg.Accusation{Eon: eon, Accused: accused}}}
}

// MApologise apologises.
func MApologise(eon uint64, accusers, evals [][]byte) *shmsg.Message {
	return &shmsg.Message{Payload: &shmsg.Message_Apology{Apology: &shmsg.Apology{Eon: eon, Accusers: accusers, PolyEvals: evals}}}
}

// MShare publishes an epoch secret key share.
func MShare(eon, epoch uint64, share []byte) *shmsg.Message {
	return &shmsg.Message{Payload: &shmsg.Message_EpochSecretKeyShare{EpochSecretKeyShare: &shmsg.EpochSecretKeyShare{Eon: eon, Epoch: epoch, Share: share}}}
}
