import json
P=[]
def add(id,title,statement,over,text,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":mech,"where":", ".join(files[:3])}]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

add("C01","Multi-party approximate (CKKS) evaluation computes the plaintext function",
"For any set of parties with independently generated keys and any program of encryptions, additions, subtractions, multiplications (ciphertext, plaintext or constant of any supported kind), rotations, conjugations, rescalings and level drops, the final ciphertext decrypts under the secret keys of exactly the involved parties to what the same program yields on the plaintext vectors, within the scheme's noise bound. The set of parties a ciphertext depends on is exactly the union over its operands. This holds however parties join, messages are delayed, duplicated, reordered or lost and retried, and nodes crash and restart; once faults stop, every requested computation completes.",
["programs","inputs","histories","fault_sequences","configurations"],
"all programs over all supported operations, all vectors incl. zero/negative/imaginary/large, all parameter sets (ring size, slot count, chain length, special-modulus count), 1..7 parties with arbitrary names, all delivery orders and crash points of the upload/evaluate/decrypt protocol",
"Tests only encrypt/decrypt and square-like multiply at two parameter sets, two fixed party counts, at the top level, with a single hand-written order; add, sub, rescale, constants, rotate, conjugate, hoisted and plaintext products are never executed and no composition, level or fault is sampled.",
["mkckks/evaluator.go","mkckks/encryptor.go","mkckks/decryptor.go","mkrlwe/keyswitch.go","mkrlwe/keyswitch_hoisted.go","mkrlwe/basis_extension.go","mkrlwe/keygen.go"],
"ciphertext = map party->ring element plus a common part; binary operations take the union of the parties; relinearisation, rotation and conjugation keys per party over a common reference string")

add("C02","Multi-party exact-integer (BFV) evaluation is exact",
"For any set of parties and any program of encryptions, additions, subtractions, multiplications, rotations and conjugations on integer vectors, decryption with the involved parties' secret keys gives exactly the program's result modulo the plaintext modulus as long as the predicted noise stays below the decryption threshold, and the actual noise never exceeds that prediction. The set of involved parties is the union over the operands. This holds under any join order, message delay, duplication, reordering, loss with retry, and crash/restart, and requested computations complete once faults stop.",
["programs","inputs","histories","fault_sequences","configurations"],
"all programs within the noise budget, all integer vectors incl. boundary values 0, +-1, +-t/2, all supported moduli sets and plaintext moduli, 1..7 parties, all protocol schedules",
"Tests run one add, one sub and one multiplication of fresh ciphertexts with 2 and 4 parties at two parameter sets; rotation, conjugation, sums of products, multiplicative depth, boundary values and fault schedules are never sampled.",
["mkbfv/evaluator.go","mkbfv/keyswitch.go","mkbfv/keyswitch_hoisted.go","mkbfv/basis_extension.go","mkbfv/keygen.go","mkbfv/encryptor.go","mkbfv/decryptor.go","mkrlwe/keyswitch.go"],
"tensoring in the extended modulus, quantisation by t/Q, two-part relinearisation keys, shared key-switcher")

add("C03","Joint decryption: any order of shares, all shares required, input intact",
"Combining every involved party's partial decryption, in any order, on any node, with any duplicated, delayed or retried share messages, gives the same message as one joint decryption with the whole key set; keys of uninvolved parties in the set make no difference. If any involved party's key is missing, decryption is refused rather than returning a message, and the ciphertext stays usable. Joint decryption never alters the ciphertext it is given, and a partially decrypted ciphertext depends on exactly the parties that have not yet contributed.",
["schedules","histories","fault_sequences","inputs"],
"all orders and subsets of contributions, all duplications/losses/restarts of the share-passing protocol, all levels, both schemes, extra and missing keys",
"Tests decrypt only with the complete key set in one call; no partial chain, no order, no missing or surplus key, no lower level followed by a higher one is tried.",
["mkrlwe/decryptor.go","mkckks/decryptor.go","mkbfv/decryptor.go"],
"in-place partial decryption folds one party's component into the common component and removes the party; joint decryption iterates over the key set")

add("C04","Results never depend on an object's past: reuse, refusals, aborts, map order",
"An evaluator, encryptor, decryptor, key generator or key set that has been used before, in any way, behaves as a newly created one: the same deterministic operation on the same inputs gives the same output, whatever operations at other levels, scales or party sets preceded it, including operations that were refused or were abandoned part-way by a crash or cancelled request. The outcome is also independent of the order in which a party collection happens to be iterated.",
["histories","crash_points","fault_sequences","schedules"],
"all histories of prior operations on the same object, all abort points inside an operation, all iteration orders of party collections",
"Tests build fresh contexts and run each operation once or twice on operands of the same level; stale scratch contents, truncated buffers or half-finished operations need a specific multi-step history or abort point, and iteration order is random and uncontrolled.",
["mkckks/evaluator.go","mkckks/decryptor.go","mkckks/encryptor.go","mkrlwe/keyswitch.go","mkrlwe/keyswitch_hoisted.go","mkrlwe/decryptor.go","mkrlwe/encryptor.go","mkrlwe/keygen.go","mkbfv/keyswitch.go","mkbfv/basis_extension.go","mkbfv/evaluator.go"],
"scratch polynomials, ciphertext and plaintext pools kept inside long-lived objects and rewritten by every operation",
[("scratch pools","buffers inside evaluator, key switcher, encryptor, decryptor and key generator that survive between operations")])

add("C05","Operations leave operands and keys untouched and results share no storage",
"Every operation that returns a new object leaves its operands, plaintexts, messages, hoisted forms, key material and common reference string bit-for-bit unchanged, and in-place operations change only their documented target. A returned object shares no mutable storage with any operand, key, earlier result or library-internal buffer, so changing one later, or reusing the library objects, never changes another.",
["programs","histories","inputs"],
"all operations, all operand combinations (same object twice, disjoint, overlapping and nested party sets, different levels and scales), followed by arbitrary further operations",
"Tests compare only the decrypted result of one operation; none re-reads an operand or an earlier result afterwards, so silent modification or aliasing surfaces only in longer histories.",
["mkckks/evaluator.go","mkckks/elements.go","mkrlwe/elements.go","mkrlwe/decryptor.go","mkrlwe/encryptor.go","mkrlwe/keys.go","mkbfv/evaluator.go","mkbfv/decryptor.go","mkbfv/elements.go","mkrlwe/keyswitch.go"],
"copy-on-create constructors versus in-place ring routines that write through shared coefficient slices")

add("C06","Threads with their own evaluators may share keys, parameters and ciphertexts",
"When several threads each use their own evaluator, encryptor, decryptor or key generator while sharing parameters, key sets, secret keys and read-only ciphertexts, every thread obtains exactly the results it would obtain running alone, under every interleaving. No such use modifies the shared objects.",
["schedules"],
"all interleavings at statement granularity of 2..4 threads running any operations of either scheme with shared read-only inputs",
"The tests are single-threaded; interference needs a preemption at a particular point inside an operation.",
["mkrlwe/keys.go","mkbfv/keys.go","mkckks/evaluator.go","mkbfv/evaluator.go","mkrlwe/keyswitch.go","mkrlwe/params.go"],
"per-object scratch space versus scratch reachable from shared key sets, parameters or package-level state")

add("C07","Key collections follow add/replace/delete histories; missing keys refuse cleanly",
"After any history of adding, re-adding, replacing and deleting keys of any kind for any party, lookups and evaluations use exactly the latest key present for that party and index, other parties' and indices' keys being unaffected. An operation that needs a key that is absent is refused with an error instead of returning a result, leaves its operands and key sets unchanged, and succeeds once the key is provided.",
["histories","fault_sequences"],
"all histories of add/replace/delete for secret, public, relinearisation, rotation and conjugation keys of both schemes, including late joins, duplicated and reordered key uploads and re-keying, interleaved with evaluations",
"Tests add each key exactly once and never delete, replace, duplicate or omit one.",
["mkrlwe/keys.go","mkbfv/keys.go","mkrlwe/keyswitch.go","mkckks/evaluator.go","mkbfv/evaluator.go"],
"maps from party (and rotation index) to key, with auxiliary per-party entries maintained beside them")

add("C08","Hoisted evaluation is equivalent to ordinary evaluation",
"A precomputed hoisted form of a ciphertext, reused any number of times, in any order, by any evaluator, together with any other hoisted or non-hoisted operands, levels and party sets, gives products and rotations that decrypt to the same values as the ordinary operations, with the same scale, level and parties. Reusing it never changes it or the ciphertext it came from.",
["histories","programs","inputs"],
"all reuse orders of hoisted forms across multiplications and rotations, operands at equal and different levels, equal/overlapping/disjoint party sets, squares, one or two hoisted operands, and all special-modulus counts",
"No test calls the hoisted rotation or a product of two different ciphertexts with explicit hoisted forms, at lower levels, or more than once per form.",
["mkrlwe/keyswitch_hoisted.go","mkckks/evaluator.go","mkbfv/keyswitch_hoisted.go"],
"digit decompositions computed once and consumed by several key-switching products")

add("C09","Rotation and conjugation are correct for every index, level and key availability",
"Rotating by any integer (negative, zero, beyond the slot count, huge) yields the cyclically shifted message and conjugation yields the conjugate (for integer vectors: swapped halves), at every level and scale and for every party set, whether a direct key for that index or only power-of-two keys are available; if the needed keys are unavailable it is refused and never silently wrong. Extending the common reference string with further indices, before or after other keys are generated, never affects existing keys or rotations, and keys may be requested by negative or positive equivalents of an index.",
["inputs","histories","programs","configurations"],
"all rotation indices, all mixtures of direct/power-of-two/missing keys per party, all histories of reference-string extension and key generation, all levels, both schemes",
"The rotation and conjugation tests in the suite are never invoked, and would only sample positive indices with every key present at the top level.",
["mkrlwe/keyswitch.go","mkrlwe/keyswitch_hoisted.go","mkrlwe/keygen.go","mkrlwe/params.go","mkckks/evaluator.go","mkbfv/evaluator.go"],
"index normalisation, per-index reference strings, decomposition of an index into powers of two, in-place automorphism on coefficient-domain elements")

add("C10","Generated keys satisfy their key equations with fresh, bounded, non-zero noise",
"Under any interleaving of key-generation requests for any parties on shared or restarted generators, every secret key has exactly the requested shape and every public, relinearisation, rotation and conjugation key is consistent with its secret key and the common reference string up to an error that is small (bounded, with the configured deviation) and not zero. Secret keys and errors are never repeated between keys, parties, generators, failed attempts or restarts, and all keys of all parties refer to the same common reference string.",
["histories","inputs","fault_sequences","configurations"],
"all sequences of generation calls on one or several generators, all parties and indices, crash/abort of a generation part-way followed by reuse, short reads from the entropy source, all parameter sets of both schemes",
"Tests generate one key of each kind per party with one fresh generator and check noise only loosely at two parameter sets; generator reuse, aborts, restarts, sparse/Gaussian secrets, conjugation and rotation keys are not checked.",
["mkrlwe/keygen.go","mkrlwe/params.go","mkbfv/keygen.go","mkrlwe/keys.go"],
"gadget encryptions of (products of) secrets under a common reference string; samplers and scratch polynomials owned by the generator")

add("C11","Recorded scale and level always describe the data",
"After any program of operations, the scale and level recorded in an approximate-number ciphertext are the ones the operations' definitions give, and interpreting the decrypted polynomial with the recorded scale gives the right values: rescaling divides value and recorded scale alike, stops before the target scale would be undershot and never goes below the last level, dropping levels keeps the value, and addition or subtraction aligns operands of different scale and level. A rescale with nothing to do returns the same value, and an impossible one reports an error.",
["programs","inputs","histories","configurations"],
"all programs mixing operands of different levels and scales, constants needing scaling or not (integers, fractions, complex, very large), multi-step rescales, thresholds, operations at the last level, in-place and new-object forms",
"Tests check decrypted values after at most one multiplication from the top level; rescale, level drop, constants and mixed-scale additions are never executed.",
["mkckks/evaluator.go","mkckks/elements.go","mkckks/utils.go","mkckks/decryptor.go","mkckks/encryptor.go"],
"scale and level carried beside the polynomial data and updated by each evaluator method")

add("C12","Two-party encrypted CNN inference equals plaintext inference",
"The convolution, first and second fully-connected layers over an image encrypted by one party and a model encrypted by another give, after joint decryption, the values of the corresponding plaintext layers (and the same predicted class), for any image and model, for any split of the work over evaluators, batches and worker crashes/restarts with retries. Inputs, hoisted inputs and model ciphertexts can be reused for further images without re-encryption.",
["inputs","histories","fault_sequences"],
"all images/kernels/weights/biases, repeated inferences with shared model ciphertexts, all crash points between and inside layers with retry",
"The package's own test does not compile at this commit and its data is missing, so nothing exercises it.",
["cnn/cnn.go","mkckks/evaluator.go","mkrlwe/keyswitch_hoisted.go","mkrlwe/keyswitch.go"],
"packing of channels/rows into slots, rotate-and-sum trees, hoisted rotations by fixed indices")

add("C13","Encryptions are decryptable, fresh, minimally noisy and at the requested level",
"Every encryption, of any message or prepared plaintext at any level and scale, by any encryptor under any party's public key, carries exactly that message with an error that is bounded and non-zero, involves exactly that party, and is at the level and scale asked for. Repeated encryptions, on reused, fresh, restarted or crashed-and-retried encryptors and under different keys, never reuse randomness. Encoding state left by earlier messages never leaks into later ones.",
["histories","inputs","fault_sequences","configurations"],
"all histories of encryptions on shared encryptors incl. aborted ones, all messages (zero, maximal, shorter/longer-lived vectors), target ciphertexts at all levels incl. non-empty targets, both schemes, all parameter sets",
"Tests encrypt one random message per party at the top level and check a loose error bound; freshness, reuse after abort, lower levels and boundary messages are not sampled.",
["mkrlwe/encryptor.go","mkckks/encryptor.go","mkbfv/encryptor.go"],
"public-key encryption with ternary mask and two Gaussian errors drawn from the encryptor's own generator; pooled plaintext and mask buffers")

add("N01","RNS basis extension and digit decomposition are arithmetically exact",
"Extending a polynomial from one modulus basis to another, dividing by the special modulus and splitting into digits return the mathematically defined residues for every input polynomial and every pair of bases.",
["inputs","configurations"],
"all residue vectors and all modulus bases",
"Tests sample random polynomials at two parameter sets.",
["mkrlwe/basis_extension.go","mkbfv/basis_extension.go"],
"floating-point-corrected fast basis conversion; per-digit precomputed constants")

add("N02","Ciphertexts and public keys reveal nothing without all involved secret keys",
"No efficient adversary holding public keys, evaluation keys and ciphertexts, and any proper subset of the involved secret keys, learns anything about encrypted messages.",
["inputs"],
"all efficient adversaries",
"Computational security cannot be observed by running the code.",
["mkrlwe/keygen.go","mkrlwe/encryptor.go","mkrlwe/params.go"],
"ring learning with errors assumption with the chosen parameters")

add("N03","Party-identifier sets obey set algebra",
"Union, intersection, membership, insertion, removal and copying of party-identifier sets behave as mathematical sets, and the reserved identifier is never admitted.",
["inputs"],
"all pairs of identifier sets",
"The suite has no test of the identifier-set type.",
["mkrlwe/idset.go"],
"map-backed set")
open("/verif/properties.jsonl","w").write("".join(json.dumps(p)+"\n" for p in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P:
    jsonschema.validate(p,s); assert len(p["title"])<=80,(p["id"],len(p["title"]))
