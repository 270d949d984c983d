package verifapp

import (
	"testing"

	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"github.com/shutter-network/shutter/shuttermint/verifkit"
)

func val(b ...byte) []byte { return b }

func TestC07(t *testing.T) {
	r := verifkit.Start("dkg-messages")
	defer r.Finish()
	g3 := Genesis{Keypers: []int{0, 1, 2}, Threshold: 2, Validators: genesisVals(1)}
	a := CfgSpec{Index: 1, Start: 10, Threshold: 2, Keypers: []int{0, 1, 2}}
	b := CfgSpec{Index: 2, Start: 20, Threshold: 2, Keypers: []int{1, 2, 3}}
	x := func(n int) [][]byte {
		var r [][]byte
		for i := 0; i < n; i++ {
			r = append(r, []byte{byte(i + 1), 0xab})
		}
		return r
	}

	// evaluations, to closure
	ev := func(eon uint64, to [][]byte, n int) *shmsg.Message { return MEval(eon, to, x(n)) }
	(&Scenario{
		Name: "evaluations", Genesis: g3, Depth: r.Pick(5, 8), Max: r.Pick(60000, 1000000), Prefix: all(votes(a, 0, 1), votes(b, 0, 1)),
		Actions: all(
			By("eval 1 to k1", ev(1, Bytes(1), 1), 0, 1, 2, 3),
			By("eval 1 to k2", ev(1, Bytes(2), 1), 0, 1),
			By("eval 1 to k1 k2", ev(1, Bytes(1, 2), 2), 0, 3),
			By("eval 1 to k2 k1", ev(1, Bytes(2, 1), 2), 0),
			By("eval 1 to k0 k2", ev(1, Bytes(0, 2), 2), 1, 0),
			By("eval 1 to nobody", ev(1, nil, 0), 0, 3),
			By("eval 1 to k1 k1", ev(1, Bytes(1, 1), 2), 0),
			By("eval 1 to k1 k3", ev(1, Bytes(1, 3), 2), 0),
			By("eval 1 to k1 with two", ev(1, Bytes(1), 2), 0),
			By("eval 1 to k1 k2 with one", ev(1, Bytes(1, 2), 1), 0),
			By("eval 1 short", ev(1, [][]byte{K(1).Addr.Bytes()[1:]}, 1), 0),
			By("eval 1 long", ev(1, [][]byte{append(K(1).Addr.Bytes(), 0)}, 1), 0),
			By("eval 2 to k1", ev(2, Bytes(1), 1), 2, 3, 0),
			By("eval 2 to k3 k2", ev(2, Bytes(3, 2), 2), 1, 3),
			By("eval 0", ev(0, Bytes(1), 1), 0),
			By("eval 3", ev(3, Bytes(1), 1), 0, 2),
			By("eval big", ev(1<<63, Bytes(1), 1), 0, 2),
		),
	}).Run(r, "C07")

	// commitments, accusations and apologies
	(&Scenario{
		Name: "commit-accuse-apologise", Genesis: g3, Depth: r.Pick(4, 6), Max: r.Pick(60000, 1000000), Prefix: all(votes(a, 0, 1), votes(b, 0, 1)),
		Actions: all(
			By("commit 1", MCommitment(1, Gammas(1, 2)), 0, 1, 3),
			By("commit 1 again", MCommitment(1, Gammas(2, 1)), 0),
			By("commit 2", MCommitment(2, Gammas(3, 2)), 0, 1, 3),
			By("commit 3", MCommitment(3, Gammas(3, 2)), 1),
			By("commit malformed", MCommitment(1, [][]byte{{1, 2, 3}}), 0),
			By("accuse 1 k1", MAccuse(1, Bytes(1)), 0, 1, 2, 3),
			By("accuse 1 k1 k2", MAccuse(1, Bytes(1, 2)), 0),
			By("accuse 1 twice k1", MAccuse(1, Bytes(1, 1)), 0),
			By("accuse 1 nobody", MAccuse(1, nil), 0, 3),
			By("accuse 1 outsider", MAccuse(1, Bytes(1, 3)), 0),
			By("accuse 2 k3", MAccuse(2, Bytes(3)), 0, 1, 3),
			By("accuse 0", MAccuse(0, Bytes(1)), 0),
			By("accuse malformed", MAccuse(1, [][]byte{{1}}), 0),
			By("apologise 1 to k1", MApologise(1, Bytes(1), x(1)), 0, 1, 2, 3),
			By("apologise 1 to k1 k2", MApologise(1, Bytes(1, 2), x(2)), 0),
			By("apologise 1 to k1 twice", MApologise(1, Bytes(1, 1), x(2)), 0),
			By("apologise 1 to k1 with two", MApologise(1, Bytes(1), x(2)), 0),
			By("apologise 1 to k1 with none", MApologise(1, Bytes(1), nil), 0),
			By("apologise 1 to nobody", MApologise(1, nil, nil), 0, 3),
			By("apologise 1 to outsider", MApologise(1, Bytes(3), x(1)), 0),
			By("apologise 2 to k3", MApologise(2, Bytes(3), x(1)), 0, 1, 3),
			By("apologise 5", MApologise(5, Bytes(3), x(1)), 0, 1),
		),
	}).Run(r, "C07")

	// restarted eons of the same config, and eons starting in between
	(&Scenario{
		Name: "restart", Genesis: g3, Depth: r.Pick(6, 8), Max: r.Pick(60000, 1000000), Prefix: votes(a, 0, 1),
		Actions: all(By("eon vote 10", MEonVote(10), 0, 1), By("vote b", MConfigVote(b), 0, 1),
			By("commit 1", MCommitment(1, Gammas(1, 1)), 0, 3), By("commit 2", MCommitment(2, Gammas(1, 1)), 0, 3), By("commit 3", MCommitment(3, Gammas(1, 1)), 0, 3),
			By("eval 2 to k1", ev(2, Bytes(1), 1), 0, 3), By("eval 1 to k1", ev(1, Bytes(1), 1), 0),
			By("accuse 2 k1", MAccuse(2, Bytes(1)), 0, 3), By("apologise 2", MApologise(2, Bytes(1), x(1)), 0, 3), []Action{EndBlock}),
	}).Run(r, "C07")

	// decryption signatures while configs change
	sig := func(batch uint64, s byte, signers ...int) []Action {
		return By("sign "+itoa(batch), MDecSig(batch, []byte{s, s}), signers...)
	}
	(&Scenario{
		Name: "decryption-signatures", Genesis: g3, Depth: r.Pick(6, 8), Max: r.Pick(90000, 1500000),
		Prefix: votes(a, 0, 1),
		Actions: all(By("vote b", MConfigVote(b), 0, 1), sig(0, 1, 0, 3), sig(10, 1, 0, 1), sig(10, 2, 0), sig(19, 1, 0, 3), sig(20, 1, 0, 1, 2, 3), sig(25, 1, 0, 3),
			By("empty signature", MDecSig(30, nil), 1), []Action{EndBlock}),
	}).Run(r, "C07")

	// key shares
	(&Scenario{
		Name: "key-shares", Genesis: g3, Depth: r.Pick(3, 4), Max: r.Pick(60000, 1000000), Prefix: votes(a, 0, 1),
		Actions: all(By("share", MShare(1, 5, Share(1)), 0, 1), By("share again", MShare(1, 6, Share(2)), 0), By("share 9", MShare(9, ^uint64(0), Share(3)), 0),
			By("malformed share", MShare(1, 5, []byte{1, 2}), 0), By("commit", MCommitment(1, Gammas(1, 3)), 0)),
	}).Run(r, "C07")
}
