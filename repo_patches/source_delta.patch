From af3ce09de64ae302eeed076e0a05cfc0b2723ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 01/36] fix: refuse batch configs with a threshold that does
 not fit into an int

The conversion to int made thresholds of 2^63 and above negative, so that they passed the check.
---
 shuttermint/keyper/shutterevents/batchconfig.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shuttermint/keyper/shutterevents/batchconfig.go b/shuttermint/keyper/shutterevents/batchconfig.go
index a7e3ea3..b276723 100644
--- a/shuttermint/keyper/shutterevents/batchconfig.go
+++ b/shuttermint/keyper/shutterevents/batchconfig.go
@@ -32,7 +32,7 @@ func (bc *BatchConfig) EnsureValid() error {
 	if bc.Threshold == 0 {
 		return errors.Errorf("threshold must not be zero")
 	}
-	if int(bc.Threshold) > len(bc.Keypers) {
+	if bc.Threshold > uint64(len(bc.Keypers)) {
 		return errors.Errorf("threshold too high")
 	}
 	// XXX maybe we should check for duplicate addresses
-- 
2.43.0


From 12f91878293c43af5dff13fc06495f44f17263a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 02/36] fix: do not count reports about the previous config as
 started for a new one

---
 shuttermint/app/app.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shuttermint/app/app.go b/shuttermint/app/app.go
index 9b5450d..3244765 100644
--- a/shuttermint/app/app.go
+++ b/shuttermint/app/app.go
@@ -150,6 +150,8 @@ func (app *ShutterApp) addConfig(cfg BatchConfig) error {
 	}
 	log.Printf("adding config %d", cfg.ConfigIndex)
 	app.Configs = append(app.Configs, &cfg)
+	// The votes have been made for the previous config, they must not start the new one.
+	app.StartedVotes = make(map[common.Address]struct{})
 	app.updateCheckTxMembers()
 	return nil
 }
-- 
2.43.0


From 7d8f014e3a650d763798b8c00b83f9976b8f5de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 03/36] fix: check senders of decryption signatures against the
 current config of the batch

The config was stored when the first signature for a batch arrived. A keyper of an old config could
keep the keypers of a later one from publishing their signatures by signing a future batch early.
---
 shuttermint/app/app.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shuttermint/app/app.go b/shuttermint/app/app.go
index 3244765..40dcb6c 100644
--- a/shuttermint/app/app.go
+++ b/shuttermint/app/app.go
@@ -173,8 +173,9 @@ func (app *ShutterApp) getBatchState(batchIndex uint64) BatchState {
 	bs, ok := app.BatchStates[batchIndex]
 	if !ok {
 		bs.BatchIndex = batchIndex
-		bs.Config = app.getConfig(batchIndex)
 	}
+	// A new config for the batch may have been accepted since the first signature arrived.
+	bs.Config = app.getConfig(batchIndex)
 
 	return bs
 }
-- 
2.43.0


From 7ed8e195752c1a63c276eab633a409a13c5f2b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 04/36] fix: decode poly commitment events without gammas

---
 shuttermint/keyper/shutterevents/marshal.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/shuttermint/keyper/shutterevents/marshal.go b/shuttermint/keyper/shutterevents/marshal.go
index d75cf47..7042c46 100644
--- a/shuttermint/keyper/shutterevents/marshal.go
+++ b/shuttermint/keyper/shutterevents/marshal.go
@@ -134,9 +134,11 @@ func encodeGammas(gammas *shcrypto.Gammas) []byte {
 }
 
 func decodeGammas(eventValue []byte) (shcrypto.Gammas, error) {
-	parts := strings.Split(string(eventValue), ",")
 	var res shcrypto.Gammas
-	for _, p := range parts {
+	if len(eventValue) == 0 {
+		return res, nil
+	}
+	for _, p := range strings.Split(string(eventValue), ",") {
 		marshaledG2, err := hex.DecodeString(p)
 		if err != nil {
 			return shcrypto.Gammas{}, err
-- 
2.43.0


From 8a8d5b7ec8e8d45d3f235ccebc3771d9362938b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:57 +0000
Subject: [PATCH 05/36] fix: do not write the padding into the buffer of the
 caller

---
 shlib/shcrypto/encryption.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shlib/shcrypto/encryption.go b/shlib/shcrypto/encryption.go
index 22f50be..c2397af 100644
--- a/shlib/shcrypto/encryption.go
+++ b/shlib/shcrypto/encryption.go
@@ -171,7 +171,7 @@ func DecryptBlocks(encryptedBlocks []Block, sigma Block) []Block {
 func PadMessage(m []byte) []Block {
 	paddingLength := BlockSize - len(m)%BlockSize
 	padding := bytes.Repeat([]byte{byte(paddingLength)}, paddingLength)
-	m = append(m, padding...)
+	m = append(m[:len(m):len(m)], padding...) // copies, the caller may use the rest of its buffer
 
 	blocks := []Block{}
 	numBlocks := len(m) / BlockSize
-- 
2.43.0


From 6f805d348dadc8d5c2dbe7efb0eee52aff1c256a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 06/36] fix: refuse byte strings that are no compressed points
 when decoding keys, shares and messages

---
 shlib/shcrypto/encoding.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/shlib/shcrypto/encoding.go b/shlib/shcrypto/encoding.go
index 42bebf3..1972758 100644
--- a/shlib/shcrypto/encoding.go
+++ b/shlib/shcrypto/encoding.go
@@ -51,8 +51,7 @@ func (m *EncryptedMessage) Unmarshal(d []byte) error {
 	if m.C1 == nil {
 		m.C1 = new(blst.P2Affine)
 	}
-	m.C1.Uncompress(d[1 : 1+blst.BLST_P2_COMPRESS_BYTES])
-	if m.C1 == nil {
+	if m.C1.Uncompress(d[1:1+blst.BLST_P2_COMPRESS_BYTES]) == nil {
 		return errors.New("failed to deserialize C1")
 	}
 	if !m.C1.InG2() {
@@ -93,8 +92,7 @@ func (eonPublicKeyShare *EonPublicKeyShare) Marshal() []byte {
 // Unmarshal deserializes an eon public key share.
 func (eonPublicKeyShare *EonPublicKeyShare) Unmarshal(m []byte) error {
 	p := (*blst.P2Affine)(eonPublicKeyShare)
-	p.Uncompress(m)
-	if p == nil {
+	if p.Uncompress(m) == nil {
 		return errors.New("failed to deserialize eon public key share")
 	}
 	if !p.InG2() {
@@ -111,8 +109,7 @@ func (eonPublicKey *EonPublicKey) Marshal() []byte {
 // Unmarshal deserializes an eon public key from the given byte slice.
 func (eonPublicKey *EonPublicKey) Unmarshal(m []byte) error {
 	p := (*blst.P2Affine)(eonPublicKey)
-	p.Uncompress(m)
-	if p == nil {
+	if p.Uncompress(m) == nil {
 		return errors.New("failed to deserialize eon public key")
 	}
 	if !p.InG2() {
@@ -143,8 +140,7 @@ func (epochID *EpochID) Marshal() []byte {
 // Unmarshal deserializes an epoch id.
 func (epochID *EpochID) Unmarshal(m []byte) error {
 	p := (*blst.P1Affine)(epochID)
-	p.Uncompress(m)
-	if p == nil {
+	if p.Uncompress(m) == nil {
 		return errors.New("failed to deserialize epoch id")
 	}
 	if !p.InG1() {
@@ -162,8 +158,7 @@ func (epochSecretKeyShare *EpochSecretKeyShare) Marshal() []byte {
 // Unmarshal deserializes an epoch secret key share.
 func (epochSecretKeyShare *EpochSecretKeyShare) Unmarshal(m []byte) error {
 	p := (*blst.P1Affine)(epochSecretKeyShare)
-	p.Uncompress(m)
-	if p == nil {
+	if p.Uncompress(m) == nil {
 		return errors.New("failed to deserialize epoch secret key share")
 	}
 	if !p.InG1() {
@@ -180,8 +175,7 @@ func (epochSecretKey *EpochSecretKey) Marshal() []byte {
 // Unmarshal deserializes an epoch secret key.
 func (epochSecretKey *EpochSecretKey) Unmarshal(m []byte) error {
 	p := (*blst.P1Affine)(epochSecretKey)
-	p.Uncompress(m)
-	if p == nil {
+	if p.Uncompress(m) == nil {
 		return errors.New("failed to deserialize epoch secret key")
 	}
 	if !p.InG1() {
-- 
2.43.0


From a4fdbb133361c4b2c6feed6dcd37df0d82f4f738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 07/36] fix: refuse blocks of wrong length in text form

---
 shlib/shcrypto/encoding.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/shlib/shcrypto/encoding.go b/shlib/shcrypto/encoding.go
index 1972758..9753bc7 100644
--- a/shlib/shcrypto/encoding.go
+++ b/shlib/shcrypto/encoding.go
@@ -206,8 +206,14 @@ func (block Block) MarshalText() ([]byte, error) { //nolint:unparam
 // UnmarshalText deserializes the block from hex.
 func (block *Block) UnmarshalText(b []byte) error {
 	decoded, err := hexutil.Decode(string(b))
+	if err != nil {
+		return err
+	}
+	if len(decoded) != BlockSize {
+		return fmt.Errorf("invalid length %d of block", len(decoded))
+	}
 	copy(block[:], decoded)
-	return err
+	return nil
 }
 
 // MarshalText serializes the encrypted message to hex.
-- 
2.43.0


From 1b10b17624ab8cccc871c0d8bc38c9b9472237fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 08/36] fix: refuse eon secret key shares out of range in
 storage form

---
 shlib/shcrypto/keys.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/shlib/shcrypto/keys.go b/shlib/shcrypto/keys.go
index 9d3eafe..24b02e6 100644
--- a/shlib/shcrypto/keys.go
+++ b/shlib/shcrypto/keys.go
@@ -92,7 +92,13 @@ func (eonSecretKeyShare *EonSecretKeyShare) GobEncode() ([]byte, error) {
 }
 
 func (eonSecretKeyShare *EonSecretKeyShare) GobDecode(data []byte) error {
-	return (*big.Int)(eonSecretKeyShare).GobDecode(data)
+	if err := (*big.Int)(eonSecretKeyShare).GobDecode(data); err != nil {
+		return err
+	}
+	if !ValidEval((*big.Int)(eonSecretKeyShare)) {
+		return ErrInvalidEonSecretKeyShare
+	}
+	return nil
 }
 
 func (eonSecretKeyShare *EonSecretKeyShare) Equal(e2 *EonSecretKeyShare) bool {
-- 
2.43.0


From fa4cd8d85d7f19b034b4fc1d35959cee5b1f89d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 09/36] fix: refuse malformed gammas in storage form and
 replace the previous value

---
 shlib/shcrypto/feldman.go | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/shlib/shcrypto/feldman.go b/shlib/shcrypto/feldman.go
index 088ace1..9ee24e8 100644
--- a/shlib/shcrypto/feldman.go
+++ b/shlib/shcrypto/feldman.go
@@ -3,7 +3,6 @@ package shcrypto
 import (
 	"bytes"
 	"crypto/rand"
-	"errors"
 	"fmt"
 	"io"
 	"math/big"
@@ -171,18 +170,7 @@ func (g *Gammas) GobEncode() ([]byte, error) {
 
 // GobDecode decodes a Gammas value. See https://golang.org/pkg/encoding/gob/#GobDecoder
 func (g *Gammas) GobDecode(data []byte) error {
-	for i := 0; i < len(data); i += blst.BLST_P2_COMPRESS_BYTES {
-		p := new(blst.P2Affine)
-		p.Uncompress(data[i : i+blst.BLST_P2_COMPRESS_BYTES])
-		if p == nil {
-			return errors.New("failed to deserialize gammas")
-		}
-		if !p.InG2() {
-			return errors.New("gamma is not on curve")
-		}
-		*g = append(*g, p)
-	}
-	return nil
+	return g.Unmarshal(data)
 }
 
 // KeyperX computes the x value assigned to the keyper identified by its index.
-- 
2.43.0


From 4e06efedaad6df2185db3380eab236be2b24c227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 10/36] fix: do not store the zero receipt of a skipped half
 step as the receipt of half step 0

---
 shuttermint/keyper/observe/mainchain.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/shuttermint/keyper/observe/mainchain.go b/shuttermint/keyper/observe/mainchain.go
index 49033ce..724bfdc 100644
--- a/shuttermint/keyper/observe/mainchain.go
+++ b/shuttermint/keyper/observe/mainchain.go
@@ -223,6 +223,11 @@ func (mainchain *MainChain) syncExecutionState(cc *contract.Caller, opts *bind.C
 		if err != nil {
 			return errors.Wrap(err, "failed to get cipher execution receipt from contract")
 		}
+		if !receipt.Executed {
+			// The half step was skipped. There's no receipt and the contract returns the zero value,
+			// which we must not mistake for the receipt of half step 0.
+			continue
+		}
 		mainchain.CipherExecutionReceipts[receipt.HalfStep] = &receipt
 	}
 	mainchain.NumExecutionHalfSteps = numExecutionHalfSteps
-- 
2.43.0


From 67a0ff4c13a8824c66cd0f569ac01a0d9fe9a994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 11/36] fix: do not go back when the head of the main chain is
 behind the synced block

---
 shuttermint/keyper/observe/mainchain.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/shuttermint/keyper/observe/mainchain.go b/shuttermint/keyper/observe/mainchain.go
index 724bfdc..c2fa55d 100644
--- a/shuttermint/keyper/observe/mainchain.go
+++ b/shuttermint/keyper/observe/mainchain.go
@@ -348,6 +348,11 @@ func (mainchain *MainChain) SyncToHead(
 	} else {
 		syncUntilBlockNumber = 0
 	}
+	if syncUntilBlockNumber < mainchain.CurrentBlock {
+		// The node is behind the block we've already synced to. Going back would make us apply the
+		// events of the blocks in between a second time later on.
+		return mainchain, nil
+	}
 
 	mainchain = mainchain.Clone()
 
-- 
2.43.0


From f6f1308248c96e9ca6d25780c5ae4f1e9a80838e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:35 +0000
Subject: [PATCH 12/36] fix: do not crash when stopped while the main chain is
 unreachable

---
 shuttermint/keyper/observe/mainchain.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shuttermint/keyper/observe/mainchain.go b/shuttermint/keyper/observe/mainchain.go
index c2fa55d..c9b239a 100644
--- a/shuttermint/keyper/observe/mainchain.go
+++ b/shuttermint/keyper/observe/mainchain.go
@@ -441,7 +441,8 @@ func SyncMain(
 		sub.Unsubscribe()
 		for {
 			log.Println("Attempting reconnection to main chain")
-			sub, err = caller.Ethclient.SubscribeNewHead(ctx, headers)
+			// keep the old subscription until we have a new one: sub must never be nil
+			newSub, err := caller.Ethclient.SubscribeNewHead(ctx, headers)
 			if err != nil {
 				select {
 				case <-time.After(mainChainReconnectInterval):
@@ -450,6 +451,7 @@ func SyncMain(
 					return
 				}
 			} else {
+				sub = newSub
 				log.Println("Main chain connection regained")
 				return
 			}
-- 
2.43.0


From d911e1d3779646f1adb856150305933c67de17c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:59 +0000
Subject: [PATCH 13/36] fix: keep unprocessed epoch secret key shares when
 filtering eons

---
 shuttermint/keyper/observe/shutter.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shuttermint/keyper/observe/shutter.go b/shuttermint/keyper/observe/shutter.go
index ba179a1..ad3ede6 100644
--- a/shuttermint/keyper/observe/shutter.go
+++ b/shuttermint/keyper/observe/shutter.go
@@ -113,6 +113,7 @@ func (eon *Eon) ApplyFilter(syncHeight int64) *Eon {
 	clone.PolyEvals = append(clone.PolyEvals, eon.GetPolyEvals(syncHeight)...)
 	clone.Accusations = append(clone.Accusations, eon.GetAccusations(syncHeight)...)
 	clone.Apologies = append(clone.Apologies, eon.GetApologies(syncHeight)...)
+	clone.EpochSecretKeyShares = append(clone.EpochSecretKeyShares, eon.GetEpochSecretKeyShares(syncHeight)...)
 	return &clone
 }
 
-- 
2.43.0


From d72d73d65308f891a8725c5ef496e2877ccb1579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:40 +0000
Subject: [PATCH 14/36] fix: do not crash on a batch config file containing
 only null

UnmarshalJSON decoded into a pointer to a pointer, which null sets to nil.
---
 shuttermint/contract/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shuttermint/contract/config.go b/shuttermint/contract/config.go
index 976a641..0ec7094 100644
--- a/shuttermint/contract/config.go
+++ b/shuttermint/contract/config.go
@@ -115,7 +115,7 @@ func (bc *BatchConfig) UnmarshalJSON(data []byte) error {
 		Alias: (*Alias)(bc),
 	}
 
-	if err := json.Unmarshal(data, &tmp); err != nil {
+	if err := json.Unmarshal(data, tmp); err != nil {
 		return err
 	}
 
-- 
2.43.0


From f108172d6c1bec7a3ce6cd4235ac86bc8542dfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:40 +0000
Subject: [PATCH 15/36] fix: escape text written to the keyper config file

A quote, backslash or control character in DBDir or one of the URLs made
the file written by WriteTOML unreadable, or changed the value.
---
 shuttermint/keyper/config.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/shuttermint/keyper/config.go b/shuttermint/keyper/config.go
index 3afbfd4..35eef92 100644
--- a/shuttermint/keyper/config.go
+++ b/shuttermint/keyper/config.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"io"
 	"reflect"
+	"strings"
 	"text/template"
 
 	"github.com/ethereum/go-ethereum/common"
@@ -48,9 +49,9 @@ ExecutorContract	= "{{ .ExecutorContractAddress }}"
 KeyBroadcastContract	= "{{ .KeyBroadcastContractAddress }}"
 KeyperSlasher		= "{{ .KeyperSlasherAddress }}"
 
-EthereumURL		= "{{ .EthereumURL }}"
-ShuttermintURL		= "{{ .ShuttermintURL }}"
-DBDir			= "{{ .DBDir }}"
+EthereumURL		= {{ .EthereumURL | QuoteTOML }}
+ShuttermintURL		= {{ .ShuttermintURL | QuoteTOML }}
+DBDir			= {{ .DBDir | QuoteTOML }}
 DKGPhaseLength		= {{ .DKGPhaseLength }}
 ExecutionStaggering	= {{ .ExecutionStaggering }}
 MainChainFollowDistance = {{ .MainChainFollowDistance }}
@@ -68,12 +69,32 @@ func init() {
 	var err error
 	tmpl, err = template.New("keyper").Funcs(template.FuncMap{
 		"FromECDSA": crypto.FromECDSA,
+		"QuoteTOML": quoteTOML,
 	}).Parse(configTemplate)
 	if err != nil {
 		panic(err)
 	}
 }
 
+// quoteTOML writes the given text as a basic TOML string.
+func quoteTOML(text string) string {
+	b := strings.Builder{}
+	b.WriteByte('"')
+	for _, r := range text {
+		switch {
+		case r == '"' || r == '\\':
+			b.WriteByte('\\')
+			b.WriteRune(r)
+		case r < 0x20 || r == 0x7f:
+			fmt.Fprintf(&b, "\\u%04X", r)
+		default:
+			b.WriteRune(r)
+		}
+	}
+	b.WriteByte('"')
+	return b.String()
+}
+
 func stringToEd25519PrivateKey(f reflect.Type, t reflect.Type, data interface{}) (interface{}, error) {
 	if f.Kind() != reflect.String || t != reflect.TypeOf(ed25519.PrivateKey{}) {
 		return data, nil
-- 
2.43.0


From f720284b80af5ea4b9c729cd55c79d1020ea7514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:40 +0000
Subject: [PATCH 16/36] fix: refuse negative block counts in the keyper config

A negative DKGPhaseLength, ExecutionStaggering or MainChainFollowDistance
was silently read as a number close to 2^64.
---
 shuttermint/keyper/config.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/shuttermint/keyper/config.go b/shuttermint/keyper/config.go
index 35eef92..e4cae25 100644
--- a/shuttermint/keyper/config.go
+++ b/shuttermint/keyper/config.go
@@ -141,6 +141,24 @@ func stringToAddress(f reflect.Type, t reflect.Type, data interface{}) (interfac
 	return addr, nil
 }
 
+// refuseNegative keeps negative numbers from being converted to huge unsigned ones.
+func refuseNegative(f reflect.Type, t reflect.Type, data interface{}) (interface{}, error) {
+	if t.Kind() != reflect.Uint64 {
+		return data, nil
+	}
+	switch v := reflect.ValueOf(data); f.Kind() {
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		if v.Int() < 0 {
+			return nil, errors.Errorf("must not be negative: %d", v.Int())
+		}
+	case reflect.Float32, reflect.Float64:
+		if v.Float() < 0 {
+			return nil, errors.Errorf("must not be negative: %f", v.Float())
+		}
+	}
+	return data, nil
+}
+
 func randomSigningKey() (*ecdsa.PrivateKey, error) {
 	return crypto.GenerateKey()
 }
@@ -192,6 +210,7 @@ func (config *Config) Unmarshal(v *viper.Viper) error {
 				stringToEcdsaPrivateKey,
 				stringToEciesPrivateKey,
 				stringToAddress,
+				refuseNegative,
 				mapstructure.StringToTimeDurationHookFunc(),
 				mapstructure.StringToSliceHookFunc(","),
 			),
-- 
2.43.0


From 78bf9ef020b65df71b6a167bfbb33d9b92a5b6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:38 +0000
Subject: [PATCH 17/36] fix: follow configs that are unscheduled on the main
 chain

Configs that have not started yet can be removed from the config contract
and replaced by others. The keyper only ever fetched additional ones, so
its view kept the removed config forever.
---
 shuttermint/keyper/observe/mainchain.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/shuttermint/keyper/observe/mainchain.go b/shuttermint/keyper/observe/mainchain.go
index c9b239a..e2825b4 100644
--- a/shuttermint/keyper/observe/mainchain.go
+++ b/shuttermint/keyper/observe/mainchain.go
@@ -153,7 +153,14 @@ func (mainchain *MainChain) syncConfigs(cc *contract.Caller, opts *bind.CallOpts
 	if err != nil {
 		return errors.Wrap(err, "failed to get number of configs from contract")
 	}
-	for configIndex := uint64(len(mainchain.BatchConfigs)); configIndex < numConfigs; configIndex++ {
+	// Configs that hadn't started at the time of the last sync may have been unscheduled, and others
+	// may have taken their place. So we fetch them again.
+	numFinal := len(mainchain.BatchConfigs)
+	for numFinal > 0 && mainchain.BatchConfigs[numFinal-1].StartBlockNumber > mainchain.CurrentBlock {
+		numFinal--
+	}
+	mainchain.BatchConfigs = mainchain.BatchConfigs[:numFinal]
+	for configIndex := uint64(numFinal); configIndex < numConfigs; configIndex++ {
 		config, err := cc.ConfigContract.GetConfigByIndex(opts, configIndex)
 		if err != nil {
 			return errors.Wrap(err, "failed to get config by index from contract")
-- 
2.43.0


From 8f872faaaa4de8741c2647ee2a50c31b9b89c46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:55 +0000
Subject: [PATCH 18/36] fix: do not crash when the main chain node cannot be
 reached before sending a transaction

---
 shuttermint/keyper/fx/runenv.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shuttermint/keyper/fx/runenv.go b/shuttermint/keyper/fx/runenv.go
index 57a18e0..c92016d 100644
--- a/shuttermint/keyper/fx/runenv.go
+++ b/shuttermint/keyper/fx/runenv.go
@@ -66,11 +66,11 @@ func (runenv *RunEnv) sendMainChainTX(ctx context.Context, id ActionID, act Main
 	var auth *bind.TransactOpts
 
 	auth, err = runenv.ContractCaller.Auth()
-	auth.Context = ctx
-
 	if err != nil {
 		return err
 	}
+	auth.Context = ctx
+
 	tx, err = act.SendTX(runenv.ContractCaller, auth)
 	if err != nil {
 		return err
-- 
2.43.0


From 68a0a3d7e16ec60f1fa2091ca79755b8e0c25adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:55 +0000
Subject: [PATCH 19/36] fix: stop sending transactions when shutting down with
 many unmined transactions

---
 shuttermint/keyper/fx/runenv.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/shuttermint/keyper/fx/runenv.go b/shuttermint/keyper/fx/runenv.go
index c92016d..122ca08 100644
--- a/shuttermint/keyper/fx/runenv.go
+++ b/shuttermint/keyper/fx/runenv.go
@@ -76,7 +76,11 @@ func (runenv *RunEnv) sendMainChainTX(ctx context.Context, id ActionID, act Main
 		return err
 	}
 	runenv.PendingActions.SetMainChainTXHash(id, tx.Hash())
-	runenv.inFlightMainChainTXs <- id
+	select {
+	case runenv.inFlightMainChainTXs <- id:
+	case <-ctx.Done():
+		// the action is still pending and its transaction will be waited for after the next start
+	}
 	return nil
 }
 
-- 
2.43.0


From 17668888a2189b56bf9b4510360e6381f03d25b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:55 +0000
Subject: [PATCH 20/36] fix: keep main chain actions until their transaction
 has been mined

---
 shuttermint/keyper/fx/runenv.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/shuttermint/keyper/fx/runenv.go b/shuttermint/keyper/fx/runenv.go
index 122ca08..b2b44b1 100644
--- a/shuttermint/keyper/fx/runenv.go
+++ b/shuttermint/keyper/fx/runenv.go
@@ -86,19 +86,22 @@ func (runenv *RunEnv) sendMainChainTX(ctx context.Context, id ActionID, act Main
 
 var zerohash = common.Hash{}
 
-func (runenv *RunEnv) waitMined(ctx context.Context, id ActionID) {
+// waitMined waits until the transaction of the given action has been mined. It returns false if the
+// context is canceled before that.
+func (runenv *RunEnv) waitMined(ctx context.Context, id ActionID) bool {
 	act := runenv.PendingActions.GetAction(id)
 	hash := runenv.PendingActions.GetMainChainTXHash(id)
 	if hash == zerohash {
 		log.Fatalf("internal error: cannot wait for the zero hash, id=%d", id)
 	}
 	receipt, err := medley.WaitMined(ctx, runenv.ContractCaller.Ethclient, hash)
-	if err == context.Canceled {
-		return
-	}
-	if err != nil {
+	for err != nil {
+		if ctx.Err() != nil {
+			return false
+		}
 		log.Printf("Error waiting for transaction id=%d, %s: %v", id, hash.Hex(), err)
-		return
+		medley.Sleep(ctx, time.Second)
+		receipt, err = medley.WaitMined(ctx, runenv.ContractCaller.Ethclient, hash)
 	}
 	if receipt.Status != types.ReceiptStatusSuccessful {
 		world := runenv.CurrentWorld() // XXX we should make sure our world includes the receipt's blocknumber
@@ -107,7 +110,7 @@ func (runenv *RunEnv) waitMined(ctx context.Context, id ActionID) {
 		tx, _, err := runenv.ContractCaller.Ethclient.TransactionByHash(ctx, hash)
 		if err != nil {
 			log.Printf("TX reverted: id=%d, gasUsed=%d, expired=%t, %s, hash=%s", id, receipt.GasUsed, expired, act, hash.Hex())
-			return
+			return true
 		}
 
 		reason := medley.GetRevertReason(ctx, runenv.ContractCaller.Ethclient, runenv.ContractCaller.Address(), tx, receipt.BlockNumber)
@@ -115,6 +118,7 @@ func (runenv *RunEnv) waitMined(ctx context.Context, id ActionID) {
 	} else {
 		log.Printf("TX success: id=%d, gasUsed=%d, %s, hash=%s", id, receipt.GasUsed, act, hash.Hex())
 	}
+	return true
 }
 
 func (runenv *RunEnv) RunActions(ctx context.Context, actionCounter uint64, actions []IAction) error {
@@ -241,8 +245,9 @@ func (runenv *RunEnv) handleInFlightTXs(ctx context.Context) {
 	for {
 		select {
 		case id := <-runenv.inFlightMainChainTXs:
-			runenv.waitMined(ctx, id)
-			runenv.PendingActions.RemoveAction(id)
+			if runenv.waitMined(ctx, id) {
+				runenv.PendingActions.RemoveAction(id)
+			}
 		case <-ctx.Done():
 			return
 		}
-- 
2.43.0


From d752d876a772773d3ceee8cd1fcb5cc6496b14c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:55 +0000
Subject: [PATCH 21/36] fix: do not wait for an unresponsive main chain node
 when shutting down

---
 shuttermint/contract/caller.go  | 8 ++++----
 shuttermint/keyper/fx/runenv.go | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/shuttermint/contract/caller.go b/shuttermint/contract/caller.go
index 3800ff0..5857970 100644
--- a/shuttermint/contract/caller.go
+++ b/shuttermint/contract/caller.go
@@ -56,8 +56,8 @@ func (cc *Caller) Address() common.Address {
 }
 
 // Auth returns a new transactor with initialized key, nonce, and gas price.
-func (cc *Caller) Auth() (*bind.TransactOpts, error) {
-	chainID, err := cc.Ethclient.ChainID(context.Background())
+func (cc *Caller) Auth(ctx context.Context) (*bind.TransactOpts, error) {
+	chainID, err := cc.Ethclient.ChainID(ctx)
 	if err != nil {
 		return nil, err
 	}
@@ -67,13 +67,13 @@ func (cc *Caller) Auth() (*bind.TransactOpts, error) {
 		return nil, err
 	}
 
-	nonce, err := cc.Ethclient.PendingNonceAt(context.Background(), cc.Address())
+	nonce, err := cc.Ethclient.PendingNonceAt(ctx, cc.Address())
 	if err != nil {
 		return nil, err
 	}
 	auth.Nonce = big.NewInt(int64(nonce))
 
-	gasPrice, err := cc.Ethclient.SuggestGasPrice(context.Background())
+	gasPrice, err := cc.Ethclient.SuggestGasPrice(ctx)
 	if err != nil {
 		return nil, err
 	}
diff --git a/shuttermint/keyper/fx/runenv.go b/shuttermint/keyper/fx/runenv.go
index b2b44b1..0b1a7ad 100644
--- a/shuttermint/keyper/fx/runenv.go
+++ b/shuttermint/keyper/fx/runenv.go
@@ -65,7 +65,7 @@ func (runenv *RunEnv) sendMainChainTX(ctx context.Context, id ActionID, act Main
 	var tx *types.Transaction
 	var auth *bind.TransactOpts
 
-	auth, err = runenv.ContractCaller.Auth()
+	auth, err = runenv.ContractCaller.Auth(ctx)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 27e21124a0a31104940879e73c5ca49eb5f49786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:55 +0000
Subject: [PATCH 22/36] fix: retry shuttermint messages that were not accepted
 into the mempool

---
 shuttermint/keyper/fx/messagesender.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/shuttermint/keyper/fx/messagesender.go b/shuttermint/keyper/fx/messagesender.go
index 67ab21f..194dafc 100644
--- a/shuttermint/keyper/fx/messagesender.go
+++ b/shuttermint/keyper/fx/messagesender.go
@@ -117,6 +117,11 @@ func (ms *RPCMessageSender) SendMessage(ctx context.Context, msg *shmsg.Message)
 	if err != nil {
 		return err
 	}
+	if res.CheckTx.Code != 0 {
+		// The message has not been included in a block. This may only be temporary, e.g. because
+		// we sent too many messages for a single block.
+		return errors.Errorf("shuttermint message rejected: %s", res.CheckTx.Log)
+	}
 	if res.DeliverTx.Code != 0 {
 		return &RemoteError{
 			msg: res.DeliverTx.Log,
-- 
2.43.0


From eff8440f990225d078d8c9da11ee6d9585afb183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:00 +0000
Subject: [PATCH 23/36] fix: do not count decryption signatures that the
 slasher contract refuses

---
 shuttermint/keyper/decide.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index 3b2e1df..11d5703 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -46,6 +46,15 @@ type Batch struct {
 
 // VerifySignature checks if the sender signed the batches' DecryptionSignatureHash.
 func (batch *Batch) VerifySignature(sender common.Address, signature []byte) bool {
+	if len(signature) != crypto.SignatureLength {
+		return false
+	}
+	// The slasher contract does not accept signatures with an s value in the upper half of the range.
+	r := new(big.Int).SetBytes(signature[:32])
+	s := new(big.Int).SetBytes(signature[32:64])
+	if !crypto.ValidateSignatureValues(signature[crypto.RecoveryIDOffset], r, s, true) {
+		return false
+	}
 	pubkey, err := crypto.SigToPub(batch.DecryptionSignatureHash, signature)
 	if err != nil {
 		return false
-- 
2.43.0


From 132df32452d42b5fb294578d2f4ca2443e81572d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:04 +0000
Subject: [PATCH 24/36] fix: execute the last batches of a config that is
 followed by an inactive one

---
 shuttermint/keyper/decide.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index 11d5703..313b261 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -891,10 +891,9 @@ func (dcdr *Decider) handleDecryptionSignatures() {
 }
 
 func (dcdr *Decider) maybeExecuteBatch() {
+	// The current config may be inactive, but the last batches of the one before may still be to be
+	// executed.
 	config := dcdr.MainChain.CurrentConfig()
-	if !config.IsActive() {
-		return // nothing to execute if config is inactive
-	}
 	batchIndex := config.BatchIndex(dcdr.MainChain.CurrentBlock)
 
 	nextHalfStep := dcdr.MainChain.NumExecutionHalfSteps
-- 
2.43.0


From fb241d41d1c1eb2cfcf2e530e927c2799df0308d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:08 +0000
Subject: [PATCH 25/36] fix: do not divide by zero for configs without keypers

---
 shuttermint/keyper/decide.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index 313b261..a92e5d8 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -1174,6 +1174,9 @@ func (dcdr *Decider) syncPendingAppeals() {
 func (dcdr *Decider) executionDelay(config contract.BatchConfig, halfStep uint64) uint64 {
 	// do not delay the execution for more than 50% of the execution timeout
 	var maxStaggering, staggering, divisor uint64
+	if len(config.Keypers) == 0 {
+		return 0
+	}
 	divisor = uint64(len(config.Keypers) - 1)
 	if divisor == 0 {
 		maxStaggering = 0
-- 
2.43.0


From 0237fec3986872951b67b9ed814fd3cb5246cafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:11 +0000
Subject: [PATCH 26/36] fix: remember the pending half step 0 across restarts

---
 shuttermint/keyper/decide.go | 11 +++++------
 shuttermint/keyper/keyper.go |  6 +++---
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index a92e5d8..45ab84a 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -259,7 +259,7 @@ type State struct {
 	LastEonStarted           uint64
 	DKGs                     []DKG
 	EKGs                     []*EKG
-	PendingHalfStep          *uint64
+	PendingHalfSteps         uint64 // one past the last half step we have sent a transaction for, 0 if none is pending
 	PendingAppeals           map[uint64]struct{}
 	NextEpochSecretShare     uint64
 	Batches                  map[uint64]*Batch
@@ -897,14 +897,14 @@ func (dcdr *Decider) maybeExecuteBatch() {
 	batchIndex := config.BatchIndex(dcdr.MainChain.CurrentBlock)
 
 	nextHalfStep := dcdr.MainChain.NumExecutionHalfSteps
-	if dcdr.State.PendingHalfStep != nil && nextHalfStep > *dcdr.State.PendingHalfStep {
+	if nextHalfStep >= dcdr.State.PendingHalfSteps {
 		// Reset the pending half step if the current one is greater.
 		// XXX There's a chance that another keyper has executed the previous half step and our tx
 		// is still pending. In that case we should probably wait until it fails before sending
 		// another one.
-		dcdr.State.PendingHalfStep = nil
+		dcdr.State.PendingHalfSteps = 0
 	}
-	if dcdr.State.PendingHalfStep != nil {
+	if dcdr.State.PendingHalfSteps != 0 {
 		// Don't try to execute anything if there's already one or more pending transaction
 		// executing the current or another half step. Rather, wait for them to confirm first.
 		return
@@ -914,8 +914,7 @@ func (dcdr *Decider) maybeExecuteBatch() {
 	for halfStep := nextHalfStep; halfStep < nextHalfStep+numHalfStepsToExecute; halfStep++ {
 		if action := dcdr.maybeExecuteHalfStep(halfStep); action != nil {
 			dcdr.addAction(action)
-			halfStep2 := halfStep // avoid using reference to loop variable
-			dcdr.State.PendingHalfStep = &halfStep2
+			dcdr.State.PendingHalfSteps = halfStep + 1
 		} else {
 			break
 		}
diff --git a/shuttermint/keyper/keyper.go b/shuttermint/keyper/keyper.go
index 7f86e52..d0cbf16 100644
--- a/shuttermint/keyper/keyper.go
+++ b/shuttermint/keyper/keyper.go
@@ -251,9 +251,9 @@ func (kpr *Keyper) loadRunenv(ctx context.Context) error {
 		return err
 	}
 
-	if !havePendingActions && len(kpr.State.Actions) == 0 && kpr.State.PendingHalfStep != nil {
-		log.Printf("Fixing State: PendingHalfStep should be nil!")
-		kpr.State.PendingHalfStep = nil
+	if !havePendingActions && len(kpr.State.Actions) == 0 && kpr.State.PendingHalfSteps != 0 {
+		log.Printf("Fixing State: PendingHalfSteps should be 0!")
+		kpr.State.PendingHalfSteps = 0
 	}
 	return nil
 }
-- 
2.43.0


From 90e73c0e0488ea0672c5043034669f7243f4ead1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:42 +0000
Subject: [PATCH 27/36] fix: do not decrypt batches before they have ended in
 the main chain view

---
 shuttermint/keyper/decide.go | 51 +++++++++++++++++++++++++++++++-----
 1 file changed, 45 insertions(+), 6 deletions(-)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index 45ab84a..819fc0b 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -252,6 +252,13 @@ func (dkg *DKG) syncApologies(syncHeight int64, eon observe.Eon) {
 	}
 }
 
+// PendingDecryption is used to store that we know the epoch secret key for a batch, which we could
+// not decrypt yet.
+type PendingDecryption struct {
+	Eon   uint64
+	Epoch uint64
+}
+
 // State is the keyper's internal state.
 type State struct {
 	CheckInMessageSent       bool
@@ -264,6 +271,7 @@ type State struct {
 	NextEpochSecretShare     uint64
 	Batches                  map[uint64]*Batch
 	HalfStepsChecked         uint64
+	PendingDecryptions       []PendingDecryption
 
 	// We store the actions that should be executed together with a counter. When starting the
 	// program, we feed these actions into runenv, which can use the counter to identify the
@@ -670,14 +678,45 @@ func (dcdr *Decider) syncEKGWithEon(syncHeight int64, ekg *EKG, eon *observe.Eon
 		}
 		if key, ok := ekg.EpochKG.SecretKeys[share.Epoch]; ok {
 			log.Printf("Epoch secret key generated for epoch %d", share.Epoch)
-			dcdr.decryptTransactions(key, share.Epoch)
-			if !dcdr.executionTimeoutReachedOrInactive(share.Epoch) {
-				dcdr.sendDecryptionSignature(share.Epoch)
-			}
+			dcdr.handleEpochSecretKey(ekg.Eon, share.Epoch, key)
 		}
 	}
 }
 
+// handleEpochSecretKey decrypts the batch and sends a decryption signature. If the batch hasn't ended
+// yet as far as our main chain view is concerned, we may not know all of its transactions. In this
+// case the decryption is postponed.
+func (dcdr *Decider) handleEpochSecretKey(eon, epoch uint64, key *shcrypto.EpochSecretKey) {
+	if !dcdr.batchEnded(epoch) {
+		dcdr.State.PendingDecryptions = append(dcdr.State.PendingDecryptions, PendingDecryption{Eon: eon, Epoch: epoch})
+		return
+	}
+	dcdr.decryptTransactions(key, epoch)
+	if !dcdr.executionTimeoutReachedOrInactive(epoch) {
+		dcdr.sendDecryptionSignature(epoch)
+	}
+}
+
+// handlePendingDecryptions handles the epoch secret keys of batches that hadn't ended in our main
+// chain view when we got to know the key.
+func (dcdr *Decider) handlePendingDecryptions() {
+	pending := dcdr.State.PendingDecryptions
+	dcdr.State.PendingDecryptions = nil
+	for _, p := range pending {
+		ekg, err := dcdr.State.FindEKGByEon(p.Eon)
+		if err != nil {
+			continue
+		}
+		dcdr.handleEpochSecretKey(p.Eon, p.Epoch, ekg.EpochKG.SecretKeys[p.Epoch])
+	}
+}
+
+// batchEnded checks if the given batch has ended in our main chain view.
+func (dcdr *Decider) batchEnded(batchIndex uint64) bool {
+	config, ok := dcdr.MainChain.ConfigForBatchIndex(batchIndex)
+	return ok && dcdr.MainChain.CurrentBlock >= config.BatchEndBlock(batchIndex)
+}
+
 // Add a prefix to avoid accidentally signing data with special meaning in different context, in
 // particular Ethereum transactions (c.f. EIP191 https://eips.ethereum.org/EIPS/eip-191).
 var hashPrefix = []byte{0x19, 'd', 'e', 'c', 't', 'x'}
@@ -733,8 +772,7 @@ func (dcdr *Decider) decryptTransactions(key *shcrypto.EpochSecretKey, epoch uin
 	batchIndex := epoch
 	batch, ok := dcdr.MainChain.Batches[batchIndex]
 	if !ok {
-		// We may run into this case if our main chain node is lagging behind or if the
-		// batch is empty. XXX The former case is not being handled here.
+		// The batch is empty.
 		log.Printf("Batch missing for batch index=%d", batchIndex)
 		batch = &observe.Batch{BatchIndex: batchIndex}
 	}
@@ -827,6 +865,7 @@ func (dcdr *Decider) executionTimeoutReachedOrInactive(batchIndex uint64) bool {
 }
 
 func (dcdr *Decider) handleEpochKG() {
+	dcdr.handlePendingDecryptions()
 	dcdr.syncEKGs()
 	dcdr.publishEpochSecretKeyShares()
 }
-- 
2.43.0


From ee2069455bf082f25328e8747d44e54f5e3cfa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:55 +0000
Subject: [PATCH 28/36] fix: handle decryption signatures that arrive after the
 batch has been executed

---
 shuttermint/keyper/decide.go          | 22 ++++++++++++----------
 shuttermint/keyper/observe/shutter.go | 13 +++++++++++++
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index 819fc0b..89c4eb9 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -35,13 +35,13 @@ type decryptfn func(encrypted []byte) ([]byte, error)
 
 // Batch is used to store local state about a single Batch.
 type Batch struct {
-	BatchIndex               uint64
-	DecryptionSignatureHash  []byte
-	DecryptedTransactions    [][]byte
-	DecryptedBatchHash       []byte
-	DecryptionSignatureIndex int
-	VerifiedSignatures       map[common.Address][]byte
-	IsEmpty                  bool
+	BatchIndex              uint64
+	DecryptionSignatureHash []byte
+	DecryptedTransactions   [][]byte
+	DecryptedBatchHash      []byte
+	SignatureSyncHeight     int64 // decryption signatures below this height have been handled
+	VerifiedSignatures      map[common.Address][]byte
+	IsEmpty                 bool
 }
 
 // VerifySignature checks if the sender signed the batches' DecryptionSignatureHash.
@@ -895,8 +895,10 @@ func (dcdr *Decider) syncBatch(batch *Batch) {
 	}
 
 	signatureCount := 0
-	for i := batch.DecryptionSignatureIndex; i < len(shBatch.DecryptionSignatures); i++ {
-		ev := shBatch.DecryptionSignatures[i]
+	for _, ev := range shBatch.DecryptionSignatures {
+		if ev.Height < batch.SignatureSyncHeight {
+			continue
+		}
 		if !config.IsKeyper(ev.Sender) {
 			log.Printf("Ignoring signature for batch %d from non-keyper %s", batch.BatchIndex, ev.Sender.Hex())
 			continue
@@ -920,7 +922,7 @@ func (dcdr *Decider) syncBatch(batch *Batch) {
 		log.Printf("Verified %d signatures for batch %d, total %d signatures",
 			signatureCount, batch.BatchIndex, len(batch.VerifiedSignatures))
 	}
-	batch.DecryptionSignatureIndex = len(shBatch.DecryptionSignatures)
+	batch.SignatureSyncHeight = dcdr.Shutter.CurrentBlock + 1
 }
 
 func (dcdr *Decider) handleDecryptionSignatures() {
diff --git a/shuttermint/keyper/observe/shutter.go b/shuttermint/keyper/observe/shutter.go
index ad3ede6..ae3a8e5 100644
--- a/shuttermint/keyper/observe/shutter.go
+++ b/shuttermint/keyper/observe/shutter.go
@@ -193,12 +193,25 @@ func (shutter *Shutter) filterSyncHeight() {
 	shutter.Eons = newEons
 }
 
+// filterBatchIndex removes the decryption signatures for batches below the Filter's BatchIndex that
+// were generated at a height below the Filter's SyncHeight.
 func (shutter *Shutter) filterBatchIndex() {
 	batchIndex := shutter.Filter.BatchIndex
 	newBatches := make(map[uint64]*BatchData)
 	for b, bd := range shutter.Batches {
 		if b >= batchIndex {
 			newBatches[b] = bd
+			continue
+		}
+		// The heights are non-decreasing
+		first := sort.Search(len(bd.DecryptionSignatures), func(i int) bool {
+			return bd.DecryptionSignatures[i].Height >= shutter.Filter.SyncHeight
+		})
+		if first < len(bd.DecryptionSignatures) {
+			newBatches[b] = &BatchData{
+				BatchIndex:           b,
+				DecryptionSignatures: bd.DecryptionSignatures[first:],
+			}
 		}
 	}
 	shutter.Batches = newBatches
-- 
2.43.0


From 2fd8542af7b976346aca6bf222e79b74c109dd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:40 +0000
Subject: [PATCH 29/36] fix: restore missing commitments and poly evals when
 loading the state

---
 shuttermint/keyper/decide.go | 25 +++++++++++++++++++++++++
 shuttermint/keyper/keyper.go |  4 ++++
 2 files changed, 29 insertions(+)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index 89c4eb9..98600dc 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -96,6 +96,31 @@ func (dkg *DKG) IsFinalized() bool {
 	return dkg.Pure == nil || dkg.Pure.Phase == puredkg.Finalized
 }
 
+// restoreNils sets those commitments and poly evals that haven't been received back to nil after the
+// DKG has been decoded. Gob has no representation for nil pointers in slices: they are decoded as
+// pointers to zero values, i.e. as if an empty commitment and the poly eval zero had been received.
+func (dkg *DKG) restoreNils() {
+	pure := dkg.Pure
+	if pure == nil {
+		return
+	}
+	for i, c := range pure.Commitments {
+		if c != nil && len(*c) == 0 {
+			pure.Commitments[i] = nil
+		}
+	}
+	for i, eval := range pure.Evals {
+		if eval == nil || eval.Sign() != 0 {
+			continue
+		}
+		// Zero may be the value that has been received, but only if it matches the commitment.
+		c := pure.Commitments[i]
+		if c == nil || !shcrypto.VerifyPolyEval(int(pure.Keyper), eval, c, pure.Threshold) {
+			pure.Evals[i] = nil
+		}
+	}
+}
+
 // newApology create a new shmsg apology message from the given puredkg apologies.
 func (dkg *DKG) newApology(apologies []puredkg.ApologyMsg) *shmsg.Message {
 	var accusers []common.Address
diff --git a/shuttermint/keyper/keyper.go b/shuttermint/keyper/keyper.go
index d0cbf16..20515b3 100644
--- a/shuttermint/keyper/keyper.go
+++ b/shuttermint/keyper/keyper.go
@@ -325,6 +325,10 @@ func (kpr *Keyper) LoadState() error {
 		return err
 	}
 
+	for i := range st.State.DKGs {
+		st.State.DKGs[i].restoreNils()
+	}
+
 	if st.State.SyncHeight == 0 && st.Shutter.CurrentBlock > 0 {
 		log.Printf("Fixing SyncHeight: %d", st.Shutter.CurrentBlock)
 		st.State.SyncHeight = st.Shutter.CurrentBlock // We didn't have this field in older versions
-- 
2.43.0


From 57348ddae53f9b3d7cb40401d9eceebe81bce603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:40 +0000
Subject: [PATCH 30/36] fix: do not skip events on restart if none have been
 handled yet

---
 shuttermint/keyper/keyper.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shuttermint/keyper/keyper.go b/shuttermint/keyper/keyper.go
index 20515b3..2bae4d7 100644
--- a/shuttermint/keyper/keyper.go
+++ b/shuttermint/keyper/keyper.go
@@ -329,7 +329,9 @@ func (kpr *Keyper) LoadState() error {
 		st.State.DKGs[i].restoreNils()
 	}
 
-	if st.State.SyncHeight == 0 && st.Shutter.CurrentBlock > 0 {
+	// Without a DKG nothing has been handled yet and all the events since the start are still needed.
+	hasDKGs := len(st.State.DKGs) > 0 || len(st.State.EKGs) > 0
+	if st.State.SyncHeight == 0 && st.Shutter.CurrentBlock > 0 && hasDKGs {
 		log.Printf("Fixing SyncHeight: %d", st.Shutter.CurrentBlock)
 		st.State.SyncHeight = st.Shutter.CurrentBlock // We didn't have this field in older versions
 	}
-- 
2.43.0


From 3bc3f7a9a7367302a8f7aa6c16d66724e91933ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:40 +0000
Subject: [PATCH 31/36] fix: generate keys with the config the eon has been
 started for

---
 shuttermint/keyper/decide.go          | 8 +++++++-
 shuttermint/keyper/observe/shutter.go | 9 ++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index 98600dc..5d8f610 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -428,7 +428,13 @@ func (dcdr *Decider) maybeSendBatchConfig() {
 }
 
 func (dcdr *Decider) startDKG(eon *observe.Eon) {
-	batchConfig := dcdr.Shutter.FindBatchConfigByBatchIndex(eon.StartEvent.BatchIndex)
+	// Use the config the eon has been started for. Another config with the same start batch index may
+	// have been added since then.
+	batchConfig := eon.Config
+	if len(batchConfig.Keypers) == 0 {
+		// The eon has been stored by an older version, which didn't have this field.
+		batchConfig = dcdr.Shutter.FindBatchConfigByBatchIndex(eon.StartEvent.BatchIndex)
+	}
 	keyperIndex, err := medley.FindAddressIndex(batchConfig.Keypers, dcdr.Config.Address())
 	if err != nil {
 		return
diff --git a/shuttermint/keyper/observe/shutter.go b/shuttermint/keyper/observe/shutter.go
index ae3a8e5..2010a46 100644
--- a/shuttermint/keyper/observe/shutter.go
+++ b/shuttermint/keyper/observe/shutter.go
@@ -96,6 +96,7 @@ type Eon struct {
 	Eon                  uint64
 	StartHeight          int64
 	StartEvent           shutterevents.EonStarted
+	Config               shutterevents.BatchConfig // the batch config the eon has been started for
 	Commitments          []shutterevents.PolyCommitment
 	PolyEvals            []shutterevents.PolyEval
 	Accusations          []shutterevents.Accusation
@@ -108,6 +109,7 @@ func (eon *Eon) ApplyFilter(syncHeight int64) *Eon {
 		Eon:         eon.Eon,
 		StartHeight: eon.StartHeight,
 		StartEvent:  eon.StartEvent,
+		Config:      eon.Config,
 	}
 	clone.Commitments = append(clone.Commitments, eon.GetPolyCommitments(syncHeight)...)
 	clone.PolyEvals = append(clone.PolyEvals, eon.GetPolyEvals(syncHeight)...)
@@ -296,7 +298,12 @@ func (shutter *Shutter) applyEonStarted(e shutterevents.EonStarted) error {
 	if idx < len(shutter.Eons) {
 		return pkgErrors.Errorf("eons should increase")
 	}
-	shutter.Eons = append(shutter.Eons, Eon{Eon: e.Eon, StartEvent: e, StartHeight: e.Height})
+	shutter.Eons = append(shutter.Eons, Eon{
+		Eon:         e.Eon,
+		StartEvent:  e,
+		StartHeight: e.Height,
+		Config:      shutter.FindBatchConfigByBatchIndex(e.BatchIndex),
+	})
 	return nil
 }
 
-- 
2.43.0


From 91662ed6adbca41f32cca900ffc0c6f05146d605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:52 +0000
Subject: [PATCH 32/36] fix: keypers vote for the next config that shuttermint
 can adopt

The config contract allows configs that shuttermint refuses, e.g. ones without keypers. Keypers kept
voting for such a config only, so that no later config was ever adopted.
---
 shuttermint/keyper/decide.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index 5d8f610..603c5e7 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -23,6 +23,7 @@ import (
 	"github.com/shutter-network/shutter/shuttermint/keyper/epochkg"
 	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
 	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
+	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
 	"github.com/shutter-network/shutter/shuttermint/medley"
 	"github.com/shutter-network/shutter/shuttermint/shmsg"
 )
@@ -410,12 +411,25 @@ func (dcdr *Decider) sendBatchConfig(configIndex uint64, config contract.BatchCo
 	dcdr.sendShuttermintMessage(fmt.Sprintf("batch config, index=%d", configIndex), msg)
 }
 
+// canBeAdopted checks if shuttermint can adopt the given config. The config contract also allows configs
+// that shuttermint refuses, e.g. ones without keypers in order to pause the system.
+func canBeAdopted(config contract.BatchConfig) bool {
+	batchConfig := shutterevents.BatchConfig{
+		Keypers:   config.Keypers,
+		Threshold: config.Threshold,
+	}
+	return batchConfig.EnsureValid() == nil && medley.EnsureUniqueAddresses(config.Keypers) == nil
+}
+
 func (dcdr *Decider) maybeSendBatchConfig() {
 	if len(dcdr.Shutter.BatchConfigs) == 0 {
 		log.Printf("Shutter is not bootstrapped")
 		return
 	}
 	configIndex := 1 + dcdr.Shutter.BatchConfigs[len(dcdr.Shutter.BatchConfigs)-1].ConfigIndex
+	for configIndex < uint64(len(dcdr.MainChain.BatchConfigs)) && !canBeAdopted(dcdr.MainChain.BatchConfigs[configIndex]) {
+		configIndex++
+	}
 
 	if configIndex <= dcdr.State.LastSentBatchConfigIndex {
 		return // already sent this one out
-- 
2.43.0


From 3085b28b5551898ad893d7eebe1c7be99ba2d29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:22 +0000
Subject: [PATCH 33/36] fix: the start chosen for the next config is one the
 config contract accepts

---
 shuttermint/cmd/config/setnext.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/shuttermint/cmd/config/setnext.go b/shuttermint/cmd/config/setnext.go
index 76108c4..072ffcf 100644
--- a/shuttermint/cmd/config/setnext.go
+++ b/shuttermint/cmd/config/setnext.go
@@ -77,7 +77,14 @@ func chooseStartBlockAndBatch(ctx context.Context, client *ethclient.Client, cc
 	if err != nil {
 		return 0, 0, errors.Wrap(err, "failed to get header")
 	}
+	// The contract asks for at least one batch span of the last config as notice
+	if batchSpan > headsUp {
+		headsUp = batchSpan
+	}
 	minStartBlock := header.Number.Uint64() + headsUp + 20
+	if minStartBlock < startBlockNumber {
+		minStartBlock = startBlockNumber
+	}
 
 	if batchSpan == 0 {
 		return minStartBlock, startBatchIndex, nil
-- 
2.43.0


From 39e83d0608c2d0772c0b892f0f03559d7a772e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:22 +0000
Subject: [PATCH 34/36] fix: SetNextBatchConfig replaces all keypers of a list
 with duplicates

---
 shuttermint/contract/config.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/shuttermint/contract/config.go b/shuttermint/contract/config.go
index 0ec7094..80d9a30 100644
--- a/shuttermint/contract/config.go
+++ b/shuttermint/contract/config.go
@@ -381,9 +381,14 @@ func (cc *ConfigContract) SetNextBatchConfig(ctx context.Context, batch *txbatch
 		}
 		batch.Add(tx)
 	}
-	if !addressesEqual(newbc.Keypers, curbc.Keypers) {
+	// curbc.Keypers doesn't contain duplicates, while the contract's list may do.
+	curKeypers, err := cc.GetNextConfigKeypers(callOpts)
+	if err != nil {
+		return err
+	}
+	if !addressesEqual(newbc.Keypers, curKeypers) {
 		// TODO: remove and keypers in groups if there are too many of them
-		if tx, err = cc.NextConfigRemoveKeypers(txopts, uint64(len(curbc.Keypers))); err != nil {
+		if tx, err = cc.NextConfigRemoveKeypers(txopts, uint64(len(curKeypers))); err != nil {
 			return err
 		}
 		batch.Add(tx)
-- 
2.43.0


From 449ccadfb6fbeb08a9df27b1868b7082a81d2b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:54 +0000
Subject: [PATCH 35/36] fix: check executions again once their batch is
 decrypted

A keyper looked at each executed half step only once. If it had not decrypted the batch yet, which is the normal case
for an execution right after the end of the batch, a wrong execution was never accused.
---
 shuttermint/keyper/decide.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index 603c5e7..a833a19 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -297,6 +297,7 @@ type State struct {
 	NextEpochSecretShare     uint64
 	Batches                  map[uint64]*Batch
 	HalfStepsChecked         uint64
+	UncheckedHalfSteps       []uint64 // checked half steps whose batch we haven't decrypted yet
 	PendingDecryptions       []PendingDecryption
 
 	// We store the actions that should be executed together with a counter. When starting the
@@ -1196,7 +1197,13 @@ func (dcdr *Decider) maybeAppeal() {
 }
 
 func (dcdr *Decider) maybeAccuse() {
+	halfSteps := dcdr.State.UncheckedHalfSteps
 	for halfStep := dcdr.State.HalfStepsChecked; halfStep < dcdr.MainChain.NumExecutionHalfSteps; halfStep++ {
+		halfSteps = append(halfSteps, halfStep)
+	}
+	dcdr.State.UncheckedHalfSteps = nil
+
+	for _, halfStep := range halfSteps {
 		if halfStep%2 != 0 {
 			continue // only accuse for cipher execution half steps, not plain ones
 		}
@@ -1211,6 +1218,11 @@ func (dcdr *Decider) maybeAccuse() {
 
 		stBatch, ok := dcdr.State.Batches[batchIndex]
 		if !ok {
+			// The batch may have been executed before we could decrypt it, so check again later.
+			config, ok := dcdr.MainChain.ConfigForBatchIndex(batchIndex)
+			if ok && config.IsKeyper(dcdr.Config.Address()) {
+				dcdr.State.UncheckedHalfSteps = append(dcdr.State.UncheckedHalfSteps, halfStep)
+			}
 			continue
 		}
 
-- 
2.43.0


From 7f817c8ad41e7e37dc0ba7ef8acc33ccd38f94c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:54 +0000
Subject: [PATCH 36/36] fix: gas limit for executing a batch covers the
 transactions' data

The limit only grew with the number of transactions. With large transactions (or the limits that prepare configs writes)
executing a batch ran out of gas: the encrypted transactions were lost and the plain ones blocked all further batches.
---
 shuttermint/keyper/fx/actions.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/shuttermint/keyper/fx/actions.go b/shuttermint/keyper/fx/actions.go
index ac3dfb8..5d6c033 100644
--- a/shuttermint/keyper/fx/actions.go
+++ b/shuttermint/keyper/fx/actions.go
@@ -19,8 +19,23 @@ const (
 	executeCipherBatchBaseLimit = uint64(250_000)
 	executePlainBatchBaseLimit  = uint64(250_000) // XXX check if we can lower that value
 	skipCipherExecutionLimit    = uint64(200_000)
+
+	// In addition to the gas used by the target contract, executing a batch costs gas for each
+	// transaction (calling the target contract, emitting an event on failure) and each byte of its
+	// data (16 for the call data, the rest for copying and hashing it).
+	executeTransactionGas = uint64(10_000)
+	executeByteGas        = uint64(24)
 )
 
+// transactionsGas returns the gas needed to execute the given transactions of a batch.
+func transactionsGas(transactions [][]byte, transactionGasLimit uint64) uint64 {
+	gas := uint64(0)
+	for _, tx := range transactions {
+		gas += transactionGasLimit + executeTransactionGas + uint64(len(tx))*executeByteGas
+	}
+	return gas
+}
+
 // IAction describes an action to run as determined by the Decider's Decide method.
 type IAction interface {
 	// IsExpired checks if the action expired because some time limit is reached or because the
@@ -83,7 +98,7 @@ type ExecuteCipherBatch struct {
 }
 
 func (a ExecuteCipherBatch) gasLimit() uint64 {
-	return executeCipherBatchBaseLimit + uint64(len(a.Transactions))*a.TransactionGasLimit
+	return executeCipherBatchBaseLimit + transactionsGas(a.Transactions, a.TransactionGasLimit)
 }
 
 func (a ExecuteCipherBatch) SendTX(caller *contract.Caller, auth *bind.TransactOpts) (*types.Transaction, error) {
@@ -110,7 +125,7 @@ type ExecutePlainBatch struct {
 }
 
 func (a ExecutePlainBatch) gasLimit() uint64 {
-	return executePlainBatchBaseLimit + uint64(len(a.Transactions))*a.TransactionGasLimit
+	return executePlainBatchBaseLimit + transactionsGas(a.Transactions, a.TransactionGasLimit)
 }
 
 func (a ExecutePlainBatch) SendTX(caller *contract.Caller, auth *bind.TransactOpts) (*types.Transaction, error) {
-- 
2.43.0

