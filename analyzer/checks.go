package main

// The registered checks: what decides each property, and on what it relies.

const valueFlow = "abstract interpretation of the SSA form (gated value flow, joins at merges, algebraic normal forms)"

var assumeEngine = []string{
	"the stand-in modules in stubs/ declare the same types as the absent dependencies (only type checking uses them)",
	"the models of math/big, encoding/binary, bytes, io, crypto/rand, crypto/sha256, x/crypto/hkdf and secp256k1.BitCurve in analyzer/models.go describe these libraries",
	"the analyzer and golang.org/x/tools/go/ssa are correct",
}
var assumeGroup = append([]string{"curve.Group obeys the group law and its encoding is self-delimiting (decided by C01, C02, C03, C05, C06)"}, assumeEngine...)
var assumeHash = append([]string{"pkg.HashToBigInt is a deterministic function of its argument with values below the order (decided by C09)"}, assumeGroup...)

func init() {
	checks["C01"] = checkDef{run: checkC01, technique: valueFlow, assumptions: assumeEngine,
		explain: "Every method of the group is interpreted from the constructor on, for operands classified by neutrality, equality and inverse relation, with arbitrary coordinates on the curve; the result is compared with the group law in a normal form of linear combinations of points. A step that can fail (nil dereference, type assertion, index) is an obligation of its own."}
	checks["C02"] = checkDef{run: checkC02, technique: valueFlow, assumptions: assumeEngine,
		explain: "ScalarMult, ScalarBaseMult and Neg are interpreted on arbitrary, negative, zero and multiple-of-order scalars. Every scalar that reaches the library must be provably a residue below the order, and the result must equal scalar times point modulo the order."}
	checks["C03"] = checkDef{run: checkC03, technique: valueFlow, assumptions: assumeEngine,
		explain: "Decode is interpreted on arbitrary bytes. On every alternative that reports success the returned coordinates must be provably on the curve and below the field characteristic, or the value must be the neutral element; on failure no point may be returned."}
	checks["C04"] = checkDef{run: func(p *Program, r *Rep) { checkC04(p, r); protocolRuns(p, r) }, technique: valueFlow + ", effect analysis", assumptions: assumeProto,
		explain: "Every operation on points, commitments, proofs and hashes is interpreted with its arguments, the factory and all package variables marked as owned by others; afterwards the content of each of these objects must be provably what it was, on every path, also when arguments coincide, and results must not be shared memory that later operations change. The protocol operations are run by committees of abstract parties, with the same obligation after each."}
	checks["C05"] = checkDef{run: checkC05, technique: valueFlow + ", encoder/decoder composition", assumptions: assumeEngine,
		explain: "For every type with an encoder and a decoder (discovered from the type-checked program) the bytes the encoder writes for an arbitrary value are handed, followed by arbitrary bytes, to the decoder through a reader that may split them anywhere; decoding must succeed, rebuild every component and leave exactly what followed."}
	checks["C06"] = checkDef{run: checkC06, technique: valueFlow + ", taint of lengths", assumptions: assumeEngine,
		explain: "Every decoder is interpreted on arbitrary bytes and a reader that may end or fail anywhere: no step may panic, every allocation must have a bound the sender does not control, and success must imply that every read was complete."}
	checks["C07"] = checkDef{run: checkC07, technique: valueFlow, assumptions: assumeGroup,
		explain: "The operations on commitments are interpreted for an arbitrary base and arbitrary values, randomizers and commitments, with all coincidences of receiver and arguments, and compared with their defining equations in the group."}
	checks["C08"] = checkDef{run: checkC08, technique: valueFlow + ", equational reasoning", assumptions: assumeHash,
		explain: "Completeness: the prover is interpreted on arbitrary witnesses and its proof handed to the verifier, whose verdict must be acceptance. Soundness of the equations: the verifier is interpreted on an arbitrary proof and statement; the condition of acceptance must imply both verification equations, with the challenge it computed."}
	checks["C09"] = checkDef{run: checkC09, technique: valueFlow + ", provenance of hash input", assumptions: assumeGroup,
		explain: "The bytes that reach the challenge hash are derived for prover and verifier; they must be a sequence of self-delimiting encodings that contains both components of every commitment of the statement and of the announcement, and be the same on both sides. The hash is interpreted on an arbitrary message: the result must be the residue modulo the order of at least 48 expanded bytes that absorb the whole message."}
	checks["C10"] = checkDef{run: checkC10, technique: valueFlow + ", provenance of randomness", assumptions: assumeHash,
		explain: "Each response of a proof must be masked by exactly one draw, with different draws for different responses, modulo the order; the announcement must be made of the same draws; each draw must read the system's randomness uniformly below the order, and success must imply that it succeeded. In the protocols, run by committees of abstract parties, each draw must read the system's randomness and be uniform below the order, shares must be separate draws, and the factors in the points a party sends must be linearly independent (a separate draw masks each)."}
	checks["C25"] = checkDef{run: checkC25, technique: valueFlow, assumptions: assumeHash,
		explain: "Every Verify method of the project (discovered from the type-checked program) is interpreted on an arbitrary proof and statement; the condition of rejection must be satisfiable and depend on both."}
}

var assumeSync = append([]string{
	"a connection delivers the written bytes in order, possibly in parts, or fails; dialing a party reaches that party",
	"no panic comes from failures of the node's own writes while connections are made",
}, assumeProto...)

func checkC10(p *Program, r *Rep) {
	if c := p.newEG(r); c != nil {
		for _, s := range sigmas() {
			s := s
			r.guard(s.name, func() { c.noncesOf(s) })
		}
	}
	protocolRuns(p, r)
}

var committeeFlow = valueFlow + ", a committee interpreted in lockstep (the terms one party sends are the terms its peers read)"
var assumeProto = append([]string{
	"a round hands every party's message for another party to that party's check function, in any order (decided by C18)",
	"Paillier encryption is homomorphic and Encrypt, HomoMult and HomoAdd succeed exactly on operands below the modulus, for keys of more than twice the length of the order plus two bits",
	"proofs of zkpok are complete and accept only their own statement (decided by C08, C09)",
	"no draw of randomness fails in a run in which everybody follows the protocol",
}, assumeHash...)

func init() {
	checks["C12"] = checkDef{run: protocolRuns, technique: committeeFlow, assumptions: assumeProto,
		explain: "Every protocol operation is run by a whole committee of abstract parties whose shares, draws and keys are unknowns; at each round the message terms are handed to the check functions of the peers. Each check must provably accept and leave no byte of the message unread."}
	checks["C15"] = checkDef{run: protocolRuns, technique: committeeFlow, assumptions: assumeProto,
		explain: "After every operation the values reachable from the results of all parties are compared: each party's recorded commitment must open with its share and randomizer, all parties must record the same commitments, linear combinations must use the same coefficients everywhere, published points must be those of the shares, labels and thresholds must be right, no part may be missing, every proof must be made with a witness of its statement."}
	checks["C24"] = checkDef{run: func(p *Program, r *Rep) { protocolRuns(p, r); checkWidths(p, r, arithPkg, tecdsaPkg) }, technique: committeeFlow + ", linear algebra over the scalar field", assumptions: assumeProto,
		explain: "After resharing, every set of threshold shares must interpolate (at the points of the parties) to the shared secret, as an identity in the unknown coefficients; Reveal and Exp must return the secret and its point for every set of parties whose messages arrive."}
	checks["C28"] = checkDef{run: honestRuns, technique: committeeFlow + ", polynomial identities over the scalar field", assumptions: assumeProto,
		explain: "The shares that Mult returns to the parties are terms over the unknown shares of the factors and all masks; their sum must be the product of the sums of the factors' shares, modulo the order."}
	checks["C30"] = checkDef{run: honestRuns, technique: committeeFlow, assumptions: assumeProto,
		explain: "CheckDH is run by a committee holding a generated key, on an unknown point and its multiple by the key: all parties must accept. Then on an arbitrary other point: the condition of acceptance must say that the sum of masks, one of every party, annuls the difference."}
	checks["C31"] = checkDef{run: signingRuns, technique: committeeFlow, assumptions: assumeProto,
		explain: "Init, Presign and Sign are run by a committee of abstract parties; the parts of the presignatures are found as the shared secrets in the store, and the numbers returned by Sign must satisfy r = H(kG) and s = (m rho + r eta)/tau for them, in all parties alike."}
	checks["C32"] = checkDef{run: func(p *Program, r *Rep) { checkC32(p, r); checkWidths(p, r, nodePkg) }, technique: valueFlow + ", one run per class of configurations", assumptions: append([]string{
		"the models of os, bufio, strings, strconv, fmt, flag, time and base64 in analyzer/cmdmodel.go describe these libraries",
	}, assumeEngine...),
		explain: "The main function of the node is interpreted with files and flags of each class; the calls of the network, the round server and the protocol it makes are compared with the files (number of the party, size, addresses in order, threshold, number of signatures), each step must depend on the success of those before it, and for configurations that are no good no server may be made."}
	failFlow := valueFlow + ", one party among arbitrary peers (messages are unknown bytes, rounds, draws and proofs may fail)"
	checks["C11"] = checkDef{run: func(p *Program, r *Rep) { protocolRuns(p, r); failRuns(p, r) }, technique: failFlow + ", linear algebra over what was verified", assumptions: assumeProto,
		explain: "Every operation of one party is interpreted while its peers send unknown bytes. The condition under which a message is accepted must imply that each proof decoded from it was verified under the party's factory, that what repeats an earlier message was compared with it, and that opened numbers are determined by earlier commitments. For resharing, the equations that success implies must bind the recorded commitments to the commitments of the secret."}
	checks["C13"] = checkDef{run: func(p *Program, r *Rep) { protocolRuns(p, r); failRuns(p, r) }, technique: committeeFlow + ", taint of secrets", assumptions: assumeProto,
		explain: "Every number in a message that is not inside a point, proof or ciphertext must be one that the operation may show; what goes in the clear to fewer than threshold parties must not determine the share; masks under another party's key must be much wider than what they hide; errors, logs and other output must not contain draws, private keys, decrypted values or private messages."}
	checks["C14"] = checkDef{run: func(p *Program, r *Rep) { protocolRuns(p, r); failRuns(p, r) }, technique: committeeFlow, assumptions: assumeProto,
		explain: "The committee meets at every round: all parties must reach each round, under every condition, and one party among arbitrary peers must not succeed without having run all of them."}
	checks["C16"] = checkDef{run: func(p *Program, r *Rep) { protocolRuns(p, r); failRuns(p, r) }, technique: failFlow, assumptions: assumeProto,
		explain: "The condition of success of each operation must imply success of each of its rounds; for Reveal, Exp and Sign, that the round named missing parties and at least threshold shares are there. Results and errors exclude each other. With every subset of messages delivered, Reveal and Exp succeed exactly when enough shares are there."}
	checks["C17"] = checkDef{run: func(p *Program, r *Rep) { signingRuns(p, r); failingSigners(p, r) }, technique: failFlow + ", provenance of values through the store", assumptions: assumeProto,
		explain: "At each round of Sign the draws on which the message depends are compared with those on which the presignatures left in the store depend, with everybody following the protocol and among arbitrary peers, at each round and at every exit. A failed Presign must leave the store as it was, a successful one must add exactly one whole presignature."}
	connFlow := valueFlow + ", one server among peers whose streams are what the project's own parties write, misplaced frames, or unknown bytes"
	checks["C18"] = checkDef{run: func(p *Program, r *Rep) { checkC18(p, r); checkWidths(p, r, syncPkg) }, technique: connFlow, assumptions: assumeSync,
		explain: "What every party writes in its handshakes and frames is derived from the source. A server is then interpreted with peers that write exactly that (every round must succeed and hand each party's message to the check function, whatever the order of connections), frames of other parties, other rounds or cut short (the round must fail without a check), strangers that connect, and unknown bytes over connections that may fail: success must imply one accepting check for every other party on the payload of a frame that the party's own sender would have written, and success of every read and write."}
	checks["C19"] = checkDef{run: func(p *Program, r *Rep) { checkC19(p, r); failRuns(p, r) }, technique: "happens-before analysis over the abstract interpretation (goroutine starts, WaitGroup counters, channels and locks, with the conditions under which they happen)", assumptions: assumeSync,
		explain: "Rounds, Start, Stop and the protocol operations are interpreted with every access to memory recorded with its goroutine and condition. Two accesses of different goroutines to the same place, one a write, must be ordered by starts, WaitGroups, channels or a common lock under every condition; counters must be zero at each Wait under every condition, goroutines must not keep locks, and all that a round or an operation started must have finished when it returns."}
	checks["C20"] = checkDef{run: func(p *Program, r *Rep) { syncRobust(p, r); failRuns(p, r) }, technique: failFlow + ", interval bounds of allocations", assumptions: assumeSync,
		explain: "Handshakes, frames and protocol messages are unknown bytes over connections that may fail anywhere. No step may panic under any condition, the length of every allocation must have a fixed bound, and a round must not succeed with an incomplete frame."}
	checks["C21"] = checkDef{run: func(p *Program, r *Rep) { checkC21(p, r); checkWidths(p, r, genPkg, nodePkg) }, technique: valueFlow + ", writer/reader composition", assumptions: append([]string{
		"the models of os, bufio, strings, strconv, fmt and base64 in analyzer/cmdmodel.go describe these libraries",
		"addresses have a host and a port without white space or '|' in them",
	}, assumeEngine...),
		explain: "The key generator is interpreted with unknown keys; the contents of the files it writes, as terms, are handed to the functions with which a node reads them (found by the types of their results), which must succeed and yield the generated numbers, keys and addresses in order. Files with private numbers must be made with modes for the owner only. The readers are then interpreted on malformed files of each kind, and on a key of arbitrary bytes, all of which must belong to its three numbers."}
	checks["C22"] = checkDef{run: checkC22, technique: committeeFlow + ", value analysis of moduli", assumptions: assumeProto,
		explain: "The group, the proofs, the hash and all operations of committees are interpreted; the modulus of each reduction, inversion and modular power and the bound of each draw that a run meets must be the order of the group (draws of non-zero scalars: one less). The scalars that reach the library and the challenge must be residues, and Order must return the order."}
	checks["C23"] = checkDef{run: checkC23, technique: connFlow + "; data flow of error values in the SSA form", assumptions: assumeSync,
		explain: "Encoders, decoders, proofs, rounds and every protocol operation are interpreted with streams, connections, draws, rounds and proofs that may fail; the condition under which the operation reports success must imply that each step that can fail, and each function of the project it called, succeeded. In every function of the project, commands included, each error that a call reports must be looked at on every way on which no other error is reported; exempt are Close, output of logs, and writers that never fail."}
	checks["CXX"] = checkDef{run: protocolRuns}
}

func init() { checks["CXY"] = checkDef{run: failRuns} }
