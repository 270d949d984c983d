"""The exploration jobs of every property; see check.py."""

APP = dict(module="shuttermint", pkg="verifapp", files=["verifapp"])


def app(name, test, quick, thorough, **kw):
    d = dict(APP, name=name, test=test, budget=(quick, thorough))
    d.update(kw)
    return d


def shl(name, test, quick, thorough, **kw):
    d = dict(module="shlib", pkg="verifshlib", files=["verifshlib"], name=name, test=test, budget=(quick, thorough))
    d.update(kw)
    return d


MC = "model_checking"
EX = "exploration"
def kpr(name, test, quick, thorough, **kw):
    d = dict(module="shuttermint", pkg="verifkeyper", files=["verifapp", "verifkeyper"], name=name, test=test, budget=(quick, thorough))
    d.update(kw)
    return d


def obs(name, test, quick, thorough, **kw):
    d = dict(module="shuttermint", pkg="verifobserve", files=["verifeth", "veriftm", "verifobserve"], name=name, test=test, budget=(quick, thorough))
    d.update(kw)
    return d


def cfg(name, test, quick, thorough, **kw):
    d = dict(module="shuttermint", pkg="verifconfig", files=["verifeth", "verifconfig"], name=name, test=test, budget=(quick, thorough))
    d.update(kw)
    return d


def fxr(name, test, quick, thorough, **kw):
    d = dict(module="shuttermint", pkg="veriffx", files=["verifeth", "veriffx"], name=name, test=test, budget=(quick, thorough),
             shim=["keyper/fx"], timeshim=["keyper/fx", "medley"])
    d.update(kw)
    return d


def dcd(name, test, quick, thorough, **kw):
    d = dict(module="shuttermint", pkg="verifdecide", files=["verifapp", "veriftm", "verifevm", "verifdecide"], name=name, test=test, budget=(quick, thorough), pairmemo=True)
    d.update(kw)
    return d


def ops(name, test, quick, thorough, **kw):
    d = dict(module="shuttermint", pkg="verifops", files=["verifapp", "verifevm", "verifops"], name=name, test=test, budget=(quick, thorough))
    d.update(kw)
    return d


REAL = "The deciding code is the real implementation, not a copy; bounds (depth, alphabet, participants) are in DESIGN.md and in the evidence. "
CHECKS = {
    "C01": dict(level=MC, technique="explicit-state exploration of all block/mempool/restart histories of two real application replicas, and of all map iteration orders",
                note=REAL + "Assumes tendermint hands both replicas the same blocks.",
                jobs=[app("replicas", "TestC01", 90, 600), app("map-order", "TestC01Order", 60, 600, maporder=["app"])]),
    "C02": dict(level=MC, technique="explicit-state exploration of all block histories, file operation failures and crash points of the real application on a modelled disk",
                note=REAL + "The disk is an in-memory stand-in that records every operation; its storage model is in DESIGN.md.",
                jobs=[dict(APP, pkg="verifpersist", files=["verifapp", "verifpersist"], name="crashes", test="TestC02", budget=(90, 700), shim=["app"], timeshim=["app"])]),
    "C03": dict(level=MC, technique="explicit-state exploration of all deliver/check/block/restart sequences on the real application against a reference model",
                note=REAL, jobs=[app("nonces", "TestC03", 60, 600)]),
    "C04": dict(level=MC, technique="explicit-state exploration of all transaction sequences on the real application, in step with a reference model",
                note=REAL, jobs=[app("config-voting", "TestC04", 60, 600)]),
    "C05": dict(level=MC, technique="explicit-state exploration of all transaction sequences on the real application, in step with a reference model",
                note=REAL, jobs=[app("config-start", "TestC05", 60, 600)]),
    "C06": dict(level=MC, technique="explicit-state exploration of all transaction sequences on the real application, in step with a reference model",
                note=REAL, jobs=[app("eon-start", "TestC06", 60, 600)]),
    "C07": dict(level=MC, technique="explicit-state exploration of all transaction sequences on the real application, in step with a reference model",
                note=REAL, jobs=[app("dkg-messages", "TestC07", 60, 600)]),
    "C08": dict(level=MC, technique="explicit-state exploration of all transaction sequences on the real application, in step with a reference model",
                note=REAL, jobs=[app("validators", "TestC08", 60, 600)]),
    "C09": dict(level=EX, technique="exhaustive enumeration of bounded mutations of transactions in explored application states",
                note=REAL + "Byte strings are enumerated up to the stated mutation bounds, not all byte strings.",
                jobs=[app("malformed-transactions", "TestC09", 90, 600), app("refused-in-histories", "TestC09Histories", 60, 600)]),
    "C10": dict(level=EX, technique="exhaustive enumeration of bounded message contents and of event mutations through the real application and decoder",
                note=REAL, jobs=[app("events", "TestC10", 60, 600)]),
    "C11": dict(level=EX, technique="exhaustive enumeration of bounded modifications of signed messages and of node failures while sending",
                note=REAL, jobs=[kpr("signatures", "TestC11", 60, 600), kpr("message-sender", "TestC11Sender", 60, 600)]),
    "C12": dict(level=MC, technique="exhaustive exploration of all bounded behaviours of misbehaving dealers against the real protocol state machines",
                note=REAL, jobs=[shl("puredkg", "TestC12", 90, 700)]),
    "C13": dict(level=MC, technique="explicit-state exploration of all schedules, delays, restarts and misbehaviours within deviation bounds of several real keypers over the real application",
                note=REAL + "The randomness of a keyper's step is fixed, so that a step has one outcome.", jobs=[dcd("key-generation", "TestC13", 200, 700)]),
    "C14": dict(level=EX, technique="exhaustive enumeration of share subsets and orders",
                note=REAL, jobs=[shl("key-combination", "TestC14", 60, 600), kpr("share-collection", "TestC14EpochKG", 60, 600)]),
    "C15": dict(level=EX, technique="exhaustive enumeration of message lengths and of bounded ciphertext modifications",
                note=REAL, jobs=[shl("encryption-roundtrip", "TestC15", 60, 600), shl("encryption-tampering", "TestC15Tamper", 60, 600)]),
    "C16": dict(level=EX, technique="exhaustive enumeration of bounded corruptions of every encoding against a reference validity check",
                note=REAL, jobs=[shl("encodings", "TestC16", 60, 600)]),
    "C17": dict(level=EX, technique="exhaustive enumeration of batch contents and list lengths",
                note=REAL, jobs=[shl("shuffle", "TestC17", 60, 600), kpr("batch-decryption", "TestC17Decrypt", 60, 600)]),
    "C18": dict(level=EX, technique="exhaustive enumeration of signer multisets, aggregation orders, key multisets and bit flips",
                note=REAL, jobs=[shl("bls", "TestC18", 60, 600)]),
    "C19": dict(level=MC, technique="explicit-state exploration of all step sequences of the real keyper decision code over both chains' histories, with restarts",
                note=REAL + "The views are built from scripted chains.", jobs=[dcd("shares", "TestC19", 90, 600)]),
    "C20": dict(level=MC, technique="explicit-state exploration of all step sequences of the real keyper decision code over both chains' histories, with restarts",
                note=REAL + "The views are built from scripted chains.", jobs=[dcd("executions", "TestC20", 120, 600)]),
    "C21": dict(level=MC, technique="explicit-state exploration of all step sequences of the real keyper decision code over all ways in which others execute, accuse and appeal",
                note=REAL + "The views are built from scripted chains.", jobs=[dcd("disputes", "TestC21", 180, 600)]),
    "C22": dict(level=MC, technique="explicit-state exploration of all sequences of signatures of every kind handed to the real keyper decision code",
                note=REAL + "The views are built from scripted chains.", jobs=[dcd("signatures", "TestC22", 120, 600)]),
    "C23": dict(level=MC, technique="stateless exploration of all crashes, node failures, lost answers and orders of completion within a deviation bound, at every file operation and call of whole running keypers, with all crash images of the files",
                note=REAL + "The nodes and the file system are stand-ins, time is simulated.",
                jobs=[dcd("keyper-restarts", "TestC23", 240, 780, files=["verifapp", "veriftm", "verifeth", "verifevm", "verifdecide"], shim=["keyper", "keyper/fx"], netshim=["keyper"],
                          pairmemo=False, go="go1.25.14", env={"GODEBUG": "asynctimerchan=0"}, confirm=True)]),
    "C24": dict(level=MC, technique="explicit-state exploration of all orders of call completions, failures, expiries, stops and restarts of the real action runner",
                note=REAL + "The nodes behind the runner, its waiting and its file are stand-ins whose every answer the exploration decides.",
                jobs=[fxr("runner", "TestC24", 60, 600, confirm=True), fxr("many-transactions", "TestC24Many", 60, 120, confirm=True), fxr("actions", "TestC24Actions", 60, 120, confirm=True), fxr("runner-race", "TestC24Race", 40, 120, race=True, confirm=True)]),
    "C25": dict(level=MC, technique="explicit-state exploration of all bounded event histories, synchronisation steps, filters and request failures through the real synchronisation code",
                note=REAL + "The tendermint node is a scripted stand-in behind the client interface.",
                jobs=[obs("histories", "TestC25", 60, 600), obs("pages", "TestC25Pages", 60, 600), obs("failures", "TestC25Failures", 60, 600), obs("filter", "TestC25Filter", 60, 600), obs("loop", "TestC25Loop", 90, 600, confirm=True), obs("node-conformance", "TestC25Node", 60, 60)]),
    "C26": dict(level=MC, technique="explicit-state exploration of all bounded chain histories, head observations and request failures through the real synchronisation code",
                note=REAL + "The ethereum node is a scripted stand-in behind the real client and contract bindings.", jobs=[obs("histories", "TestC26", 60, 600), obs("heads", "TestC26Heads", 60, 600), obs("failures", "TestC26Failures", 60, 600), obs("loop", "TestC26Loop", 90, 600, confirm=True)]),
    "C27": dict(level=EX, technique="exhaustive enumeration of bounded configs, config sequences and single-site corruptions of configuration files against independent references",
                note=REAL, jobs=[cfg("arithmetic", "TestC27", 30, 300), cfg("lookups", "TestC27Lookup", 60, 600), cfg("batch-config-json", "TestC27JSON", 60, 600), cfg("keyper-config-toml", "TestC27TOML", 60, 600)]),
    "C29": dict(level=MC, technique="explicit-state exploration of all orders of events at one keyper, and of all schedules, delays, restarts and wrong votes within deviation bounds of several real keypers over the real application",
                note=REAL, jobs=[dcd("one-keyper", "TestC29", 100, 300), dcd("network", "TestC29Network", 150, 600)]),
    "C30": dict(level=MC, technique="explicit-state exploration of all sequences of operator commands, request failures, deaths and reverted transactions within deviation bounds, each command a real process against the compiled contracts in the real virtual machine",
                note=REAL + "The contracts are the bytecode in binding.go.", jobs=[ops("operator-commands", "TestC30", 120, 600), ops("operator-failures", "TestC30Faults", 120, 600), ops("operator-story", "TestC30Story", 120, 600)]),
    "C31": dict(level=MC, technique="explicit-state exploration of all histories of several real keypers over the real application and the compiled contracts in the real virtual machine that differ from the undisturbed one in a bounded number of places, for every misbehaviour of one keyper",
                note=REAL + "The contracts are the bytecode in binding.go.", jobs=[dcd("end-to-end", "TestC31", 200, 700)]),
}
NOT_APPLICABLE = {
    "C28": "The contracts are Solidity sources and there is no solc (or other EVM compiler) in the sandbox, so the source in the tree cannot be executed, and a hand-written model could not be kept bound to it. The compiled bytecode in binding.go is only used as an environment by other checks.",
}
