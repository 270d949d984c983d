package verifapp

import (
	"testing"

	"github.com/ethereum/go-ethereum/crypto"

	"github.com/shutter-network/shutter/shuttermint/app"
	"github.com/shutter-network/shutter/shuttermint/verifkit"
)

func TestC08(t *testing.T) {
	r := verifkit.Start("validators")
	defer r.Finish()
	a := CfgSpec{Index: 1, Start: 10, Threshold: 2, Keypers: []int{0, 1, 2}}
	b := CfgSpec{Index: 2, Start: 20, Threshold: 2, Keypers: []int{1, 3}}
	c := CfgSpec{Index: 3, Start: 30, Threshold: 1, Keypers: []int{0, 3, 4}}

	checkin := func(i int) []Action { return By("check in", MCheckIn(K(i).Val, K(i)), i) }
	checkinAs := func(i, v int) []Action {
		return By("check in with key of k"+itoa(uint64(v)), MCheckIn(K(v).Val, K(i)), i)
	}
	gvals := genesisVals(3)
	own := append(genesisVals(1), ValUpdate(K(0).Val, 10), ValUpdate(K(1).Val, 5))
	placeholder := append(genesisVals(1), ValUpdate([]byte(app.NonExistentValidator.Ed25519pubkey), 10))
	dup := append(genesisVals(1), genesisVals(1)...)

	for _, g := range []Genesis{
		{Keypers: []int{0, 1}, Threshold: 2, Validators: gvals},
		{Keypers: []int{0, 1}, Threshold: 1, Validators: own},
		{Keypers: []int{0, 1}, Threshold: 1, Validators: placeholder},
		{Keypers: []int{0, 1}, Threshold: 1, Validators: dup},
		{Keypers: []int{0, 1}, Threshold: 1, Validators: gvals, DevMode: true},
	} {
		name := "vals" + itoa(uint64(len(g.Validators))) + "-T" + itoa(uint64(g.Threshold))
		if g.DevMode {
			name += "-dev"
		}
		(&Scenario{
			Name: "one-config-" + name, Genesis: g, Depth: r.Pick(40, 60), Max: r.Pick(40000, 800000), Prefix: votes(a, []int{0, 1}[:g.Threshold]...),
			Actions: all(By("started", MStarted(1), 0, 1), checkin(0), checkin(1), checkin(2), checkinAs(1, 0), checkinAs(0, 2), checkinAs(5, 5),
				[]Action{EndBlock}),
		}).Run(r, "C08")
	}
	// three configs one after the other, each started or not, check ins at any time
	g2 := Genesis{Keypers: []int{0, 1}, Threshold: 1, Validators: gvals}
	(&Scenario{
		Name: "three-configs", Genesis: g2, Depth: r.Pick(40, 60), Max: r.Pick(150000, 2500000), Prefix: votes(a, 0),
		Actions: all(By("started 1", MStarted(1), 0), By("started 2", MStarted(2), 0, 1), By("started 3", MStarted(3), 1, 3),
			By("vote b", MConfigVote(b), 0, 1), By("vote c", MConfigVote(c), 1, 3), checkin(0), checkin(1), checkin(3), checkinAs(4, 0), []Action{EndBlock}),
	}).Run(r, "C08")
	// deeper: second config already started
	(&Scenario{
		Name: "after-change", Genesis: g2, Depth: r.Pick(40, 60), Max: r.Pick(80000, 1500000),
		Prefix: all(checkin(0), checkin(1), votes(a, 0), By("started", MStarted(1), 0), []Action{EndBlock}, votes(b, 0, 1)),
		Actions: all(By("started 2", MStarted(2), 0, 1), By("started 3", MStarted(3), 1, 3), By("vote c", MConfigVote(c), 1, 3),
			checkin(2), checkin(3), checkin(4), []Action{EndBlock}),
	}).Run(r, "C08")
	// malformed check ins
	enc := crypto.CompressPubkey(&K(0).Enc.PublicKey)
	bad := append([]byte(nil), enc...)
	bad[0] = 5
	(&Scenario{
		Name: "malformed-check-ins", Genesis: g2, Depth: r.Pick(40, 60), Max: r.Pick(50000, 500000), Prefix: all(votes(a, 0), By("started", MStarted(1), 0)),
		Actions: all(By("short key", MCheckInRaw(K(0).Val[:31], enc), 0, 1), By("long key", MCheckInRaw(append(K(0).Val[:32:32], 1), enc), 0),
			By("no key", MCheckInRaw(nil, enc), 0), By("bad enc", MCheckInRaw(K(0).Val, bad), 0), By("short enc", MCheckInRaw(K(0).Val, enc[:32]), 0, 1),
			By("uncompressed enc", MCheckInRaw(K(0).Val, crypto.FromECDSAPub(&K(0).Enc.PublicKey)), 0), By("no enc", MCheckInRaw(K(0).Val, nil), 0),
			By("zero enc", MCheckInRaw(K(0).Val, make([]byte, 33)), 0),
			checkin(0), checkin(1), checkin(2), By("check in", MCheckIn(K(5).Val, K(5)), 5), []Action{EndBlock}),
	}).Run(r, "C08")
}
