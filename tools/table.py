HOOKS = {"guard": "--cfg zkp_verif (RUSTFLAGS)",
         "enable": "shadow/build.sh sets RUSTFLAGS='--cfg zkp_verif' for the harness builds",
         "source_commits": ["5a5a5f83eaa7393c415aa210911ac06068de74f8"]}

# ------------------------------------------------------------------- KZG
prop("K01", "KZG commitments equal the polynomial evaluated at the secret",
     "Committing to any polynomial, given as polynomial or as coefficient vector, yields the group generator multiplied by "
     "the polynomial's value at the set-up secret; a single value commits to that multiple of the generator. "
     "Polynomials beyond the set-up's capacity are refused rather than silently truncated.",
     ["inputs"], "all coefficient vectors of 0 to 130 coefficients (zero, short, trailing zeros, full capacity, over capacity) and all secrets",
     "Tests commit to a few fixed coefficient lists; special coefficients (zero tail, zero polynomial) and all other values are never tried.",
     ["kzg/src/scheme.rs", "kzg/src/commitment.rs"],
     [("commit / commit_vector / commit_para", "kzg/src/scheme.rs"), ("evaluate_in_s", "kzg/src/scheme.rs")],
     ["the commitment's group element"])
prop("K02", "KZG commitments are homomorphic and aggregate by powers",
     "Adding, subtracting, negating and scaling commitments gives the commitment of the correspondingly combined polynomial. "
     "Aggregating commitments with a challenge gives the combination by successive powers of the challenge.",
     ["inputs"], "all polynomials of up to 6 coefficients, all scalars, lists of 0 to 100 commitments",
     "Tests check one scalar multiple and one aggregation with fixed coefficients.",
     ["kzg/src/scheme.rs"],
     [("Add/Sub/Mul/Neg of commitments", "kzg/src/scheme.rs"), ("aggregate_commitments", "kzg/src/scheme.rs")])
prop("K03", "Honest KZG openings carry the right value and verify",
     "Opening any committed polynomial at any point succeeds, carries the polynomial's value at that point, and verifies against its commitment. "
     "The sum of openings of two polynomials at one point is an opening of the sum of their commitments.",
     ["inputs"], "all polynomials of up to 66 coefficients including zero and constants, all points including zero and roots",
     "Tests open one polynomial at one point; zero and constant polynomials and roots are not tried.",
     ["kzg/src/scheme.rs", "kzg/src/opening.rs"],
     [("open / open_vector", "kzg/src/scheme.rs"), ("verify", "kzg/src/scheme.rs"), ("sum of openings", "kzg/src/opening.rs")])
prop("K04", "KZG verification rejects every wrong opening",
     "Whenever an opening is accepted for a commitment and a point, the claimed value is the committed polynomial's value at that point. "
     "Changing the value, the witness, the commitment or the point of a valid opening makes it rejected unless the claim stays true.",
     ["inputs"], "all algebraic adversaries choosing commitment, witness, value and point; honest polynomials of 1 to 35 coefficients",
     "Soundness quantifies over all forgeries; no finite set of bad openings settles it.",
     ["kzg/src/scheme.rs"], [("verify", "kzg/src/scheme.rs")])
prop("K05", "KZG batch verification accepts exactly when every opening verifies",
     "A batch of openings is accepted if each opening verifies on its own, and rejected if any of them does not, "
     "including when several errors are chosen to cancel.",
     ["inputs"], "all honest batches of 0 to 33 openings; batches of 1 to 17 with adversarial changes of value, witness, commitment or point, singly and in pairs",
     "The existing test only accepts one valid batch; no invalid batch is ever tried.",
     ["kzg/src/scheme.rs"], [("batch_verify", "kzg/src/scheme.rs")])
prop("K06", "The set-up consists of consistent powers of one fresh secret",
     "A set-up holds the successive powers of one secret in the first group, starting with the generator, and the generator and the secret multiple in the second group. "
     "Generated set-ups use a fresh secret each time and fit a circuit of the requested size.",
     ["inputs"], "all secrets and the sizes listed up to 260",
     "Tests only use the set-up indirectly.",
     ["kzg/src/srs.rs"], [("Srs::new / new_from_secret", "kzg/src/srs.rs")])

prop("K07", "KZG answers belong to one set-up and do not depend on its use",
     "Openings, commitments and batches made under one set-up are rejected under another secret, except those of constants which need no secret. "
     "Set-ups of one secret agree whatever their sizes, and every call gives the same result in any order and number of calls.",
     ["inputs", "histories"], "all secrets, polynomials, points and changes of values; polynomials of 1 to 3 coefficients, set-ups of sizes 1 to 9 (points: to 300), four rounds of interleaved calls, a history of 70 polynomials and openings",
     "Tests use one set-up each and never repeat or mix calls.",
     ["kzg/src/scheme.rs", "kzg/src/srs.rs"],
     [("commit / open / verify / batch_verify", "kzg/src/scheme.rs"), ("Srs::new_from_secret", "kzg/src/srs.rs")])

# ----------------------------------------------------------------- PLONK
prop("P01", "PLONK proofs of satisfied circuits are made and accepted",
     "For every circuit and every assignment that satisfies its gates and copy constraints, compiling and proving complete without failure "
     "and the verifier accepts the proof for the same circuit, set-up and public inputs.",
     ["inputs"], "all satisfying field assignments and public inputs of the listed circuits of 1 to 5 gates (addition, multiplication, constant, shared wires); of 5 to 20 gates with one symbolic row",
     "Tests prove two fixed small-number circuits; other wirings, zero values, and one-gate circuits are never tried.",
     ["plonk/src/circuit.rs", "plonk/src/prover.rs", "plonk/src/verifier.rs", "plonk/src/constraint.rs", "plonk/src/slice_polynomial.rs"],
     [("generate_proof", "plonk/src/prover.rs"), ("verify", "plonk/src/verifier.rs"), ("compile", "plonk/src/circuit.rs"),
      ("SlicePoly", "plonk/src/slice_polynomial.rs")])
prop("P02", "PLONK proves nothing but satisfied circuits",
     "The prover yields a proof exactly when the assignment satisfies every gate and every copy constraint; for any other assignment it refuses. "
     "Whatever proof it yields is accepted by the verifier.",
     ["inputs"], "all assignments of every wire position independently (so gates and copies can each fail) in the listed circuits",
     "Tests try one broken copy constraint; violations that cancel or hit a particular gate or wire are not covered.",
     ["plonk/src/prover.rs", "plonk/src/constraint.rs", "plonk/src/circuit.rs"],
     [("compute_quotient_polynomial", "plonk/src/prover.rs"), ("compute_first_second_third_round / permutation accumulator", "plonk/src/prover.rs")])
prop("P03", "The PLONK verifier accepts exactly the PLONK equations",
     "For any circuit key and any proof elements, the verifier accepts if and only if the batched opening equations of the PLONK protocol hold at the transcript's challenges "
     "and the supplied last challenge equals the transcript's.",
     ["inputs"], "all verifier keys and public inputs of domain size 1 to 32, all proof elements chosen algebraically",
     "Tests run the verifier on honest proofs only; which equation it enforces on other proofs is untested.",
     ["plonk/src/verifier.rs", "plonk/src/challenge.rs"],
     [("verify, linearisation and batch check", "plonk/src/verifier.rs"), ("ChallengeGenerator", "plonk/src/challenge.rs")])
prop("P04", "PLONK proofs cannot be altered or moved to another statement",
     "A valid proof with any element (or two elements together) changed is rejected, whatever the new values. "
     "It is rejected as well for other public inputs, another circuit constant, or a circuit whose selectors, permutation or cosets differ.",
     ["inputs"], "all values of changes to each proof element, pairs of elements, public inputs, and each circuit polynomial",
     "Tests never alter a proof; soundness ranges over all alterations including ones that cancel between elements.",
     ["plonk/src/verifier.rs", "plonk/src/challenge.rs", "plonk/src/prover.rs"],
     [("verify", "plonk/src/verifier.rs"), ("ChallengeGenerator::feed / generate_challenges", "plonk/src/challenge.rs")])
prop("P05", "PLONK challenges come from one transcript under the chosen hash",
     "Prover and verifier derive the same challenges from the public inputs and the commitments in protocol order with the hash function the caller selects; "
     "a proof made under one hash is not accepted under another.",
     ["inputs", "configurations"], "all commitments (symbolic assignments and masks), SHA-256 and SHA-512",
     "Tests use a single hash for both sides and never look at the challenges.",
     ["plonk/src/challenge.rs", "plonk/src/prover.rs", "plonk/src/verifier.rs"],
     [("ChallengeGenerator", "plonk/src/challenge.rs"), ("generate_proof<T>", "plonk/src/prover.rs"), ("verify<T>", "plonk/src/verifier.rs")])
prop("P06", "PLONK proofs hide the witness with fresh masks",
     "Every proof masks each wire polynomial and the permutation accumulator with fresh randomness of its own, "
     "with enough freedom that the opened values do not determine the witness; two proofs of one statement share none of their commitments and opened values.",
     ["inputs"], "all witnesses and all outcomes of the prover's randomness for a two-gate circuit",
     "Hiding concerns the distribution over all randomness; a test comparing two runs cannot see a mask that is reused or too small.",
     ["plonk/src/prover.rs", "plonk/src/slice_polynomial.rs"],
     [("blinding of wire polynomials and accumulator", "plonk/src/prover.rs"), ("quotient slices", "plonk/src/slice_polynomial.rs")])
prop("P07", "Circuit compilation preserves gates and wiring",
     "Compiling a circuit yields selector values equal to the gates in order (padded with inert rows up to a power of two), wire values at their rows, "
     "and a permutation connecting exactly the positions declared equal, with distinct position labels.",
     ["inputs", "configurations"], "all wire values and public inputs, circuits of 1 to 40 gates (and of 150, one row symbolic) with long and short copy cycles",
     "Tests compile two circuits and compare a few coefficients.",
     ["plonk/src/circuit.rs", "plonk/src/constraint.rs", "plonk/src/compiled_circuit.rs"],
     [("Circuit::compile", "plonk/src/circuit.rs"), ("CopyConstraints", "plonk/src/constraint.rs")])
prop("P08", "Prover and verifier read an equation as the same circuit",
     "For every equation text, the circuit built with witness values and the circuit key built without them have the same gates, permutation, public inputs and size, "
     "so a proof for the text is accepted by someone who only knows the text.",
     ["inputs"], "all witness values for the listed equations (sums, products, powers, constants, signs, both sides) and 96 made-up ones; thorough: 2401 equations a*b+c=d and 364 sums of three small terms",
     "Tests compare the two compilers on two equations.",
     ["plonk/src/parser.rs", "plonk/src/common_preprocessed_input/cpi_parser.rs", "plonk/src/common_preprocessed_input/cpi_circuit.rs"],
     [("Parser::parse", "plonk/src/parser.rs"), ("CPIGenerator::compute_common_preprocessed_input", "plonk/src/common_preprocessed_input/cpi_parser.rs")])
prop("P09", "A parsed equation's circuit means that equation",
     "With the values supplied for the variables the parsed circuit is satisfied exactly when the equation holds. "
     "Any satisfying assignment of its constraints uses one value per variable, the written constants, and makes the two sides equal; equations with unknown variables are refused.",
     ["inputs"], "all witness values and all adversarial wire assignments of the listed equations and 96 made-up ones, 364 sums of three small terms, about 950 equations solved for y; thorough: 2401 equations a*b+c=d",
     "Tests check one parsed circuit's structure; whether constants, signs and repeated variables are really tied is not visible on honest values.",
     ["plonk/src/parser.rs", "plonk/src/circuit.rs"],
     [("Parser::parse / gen_circuit", "plonk/src/parser.rs"), ("Position bookkeeping", "plonk/src/parser.rs")])
prop("P10", "Equivalent spellings of an equation give the same circuit",
     "Spaces, letter case and powers written out as products do not change the circuit an equation compiles to, and witness names match regardless of case. "
     "Malformed texts (no or several equals signs, powers that are not numbers) are refused.",
     ["inputs"], "all witness values for the listed pairs of spellings and 192 made-up ones",
     "Tests check expansion of one power expression as text.",
     ["plonk/src/parser.rs"], [("Parser::parse_string", "plonk/src/parser.rs"), ("Parser::add_witness", "plonk/src/parser.rs")])

prop("P11", "Parsing, proving and verifying leave no trace",
     "A parser that has read other texts reads a text as a new parser does, and a witness has the value given last under any spelling of its name. "
     "Compiling, preprocessing, proving and verifying can be repeated and interleaved with other circuits, also after failures, with the same results and verdicts.",
     ["inputs", "histories"], "all witness values; the listed texts read up to three times in turns, values replaced before and between parses, 40 texts in between; proofs of two circuits in turns, 16 proofs in between",
     "Every test uses a fresh parser and circuit once.",
     ["plonk/src/parser.rs", "plonk/src/common_preprocessed_input/cpi_parser.rs", "plonk/src/prover.rs", "plonk/src/verifier.rs"],
     [("Parser::add_witness / parse", "plonk/src/parser.rs"), ("compute_common_preprocessed_input", "plonk/src/common_preprocessed_input/cpi_parser.rs"),
      ("generate_proof", "plonk/src/prover.rs")])

# ------------------------------------------------------------------- FRI
prop("F01", "Honest FRI proofs are made and accepted",
     "For every polynomial, blowup factor and number of queries, proving completes without failure and the verifier accepts the proof under the same hash; "
     "under another hash it does not.",
     ["inputs", "configurations"], "all coefficient vectors of the lengths listed up to 64 (generic ones of 70, 129, 256) incl. zero, constant and folding-to-zero ones (those up to 33), blowups 1 to 16, 0 to 70 queries",
     "Tests prove two fixed polynomials; special coefficients (zero, constants, ones that cancel when folded) are never tried.",
     ["fri/src/prover.rs", "fri/src/verifier.rs", "fri/src/fri_layer.rs"],
     [("generate_proof", "fri/src/prover.rs"), ("verify", "fri/src/verifier.rs"), ("FriLayer::from_poly", "fri/src/fri_layer.rs")])
prop("F02", "FRI proofs hold the folded polynomials' values at the queries",
     "An honest proof answers as many queries as asked for, and in every layer opens the folded polynomial's values at the position the transcript dictates and at its mirror position. "
     "Folding goes on until the polynomial is a constant, which the proof states.",
     ["inputs", "configurations"], "all coefficient vectors of up to 64 coefficients, sizes as listed in the scenarios, against an independent definition of folding and of the evaluation domain",
     "Tests only look at whether the final verdict is right, not at what was opened where.",
     ["fri/src/prover.rs", "fri/src/fri_layer.rs"],
     [("folding_phase / fold_polynomial", "fri/src/prover.rs"), ("query_phase", "fri/src/prover.rs"), ("FriLayer::from_poly", "fri/src/fri_layer.rs")])
prop("F03", "Altered or incomplete FRI proofs are rejected",
     "Changing any opened value, authentication path, position, layer root, the constant or the coset of an honest proof makes it rejected, also when several are changed together. "
     "So does leaving out, repeating or exchanging queries, layers or openings.",
     ["inputs"], "all values of each altered element and pairs of elements, every layer and query of proofs of 4 and 16 coefficients with 2 and 5 queries",
     "Tests never alter a proof; soundness ranges over all alterations.",
     ["fri/src/verifier.rs"], [("verify", "fri/src/verifier.rs"), ("verify_merkle_proof", "fri/src/merkle_tree.rs")])
prop("F04", "The FRI verifier accepts only low-degree committed values",
     "For layers committed by an adversary, the verifier accepts exactly when every queried pair of values folds, with the transcript's challenge, to the next layer and finally to the stated constant. "
     "Committed values that are not of the claimed degree, or openings that come from another tree, are rejected.",
     ["inputs"], "all values of all committed layers (not necessarily polynomials of low degree) chosen by the adversary and all claimed values beside them, first layers of 2 to 16 values",
     "Soundness quantifies over all committed values; tests only ever commit honest ones.",
     ["fri/src/verifier.rs", "fri/src/merkle_tree.rs"],
     [("verify", "fri/src/verifier.rs"), ("verify_merkle_proof", "fri/src/merkle_tree.rs")],
     hook="fri::verif_hooks: access to the Merkle tree and construction of its proofs")
prop("F05", "Merkle proofs show exactly the committed leaves",
     "For a tree of any size each leaf has a proof that is accepted against the root. "
     "A proof with another leaf value, path, or position is rejected, and trees over different leaves have different roots.",
     ["inputs"], "all leaf values of trees with the listed numbers of leaves up to 100 (also sizes that are not powers of two), all altered leaves, paths and positions",
     "Tests use one tree and one altered leaf; odd sizes, positions and equal leaves are not tried.",
     ["fri/src/merkle_tree.rs"],
     [("MerkleTree::new / generate_proof", "fri/src/merkle_tree.rs"), ("verify_merkle_proof", "fri/src/merkle_tree.rs")],
     hook="fri::verif_hooks: access to the Merkle tree and construction of its proofs")
prop("F06", "FRI challenges depend on every message in order",
     "A transcript's challenge is a function of all messages so far and changes when any message, their order or their number changes. "
     "Successive challenges and the elements of a list differ, positions are derived from the same stream, and no challenge is given twice without new input.",
     ["inputs", "histories"], "all message values; sequences of 1 to 20 messages with challenges drawn in between",
     "Tests compare two fixed sequences; dependence on every message at every point of a history is not covered.",
     ["fri/src/fiat_shamir/transcript.rs", "fri/src/hasher.rs"],
     [("Transcript::digest / generate_a_challenge / generate_challenges / generate_challenge_list_usize", "fri/src/fiat_shamir/transcript.rs"), ("hash / hash_slice", "fri/src/hasher.rs")])

prop("F07", "FRI proofs are determined by the polynomial and bind it",
     "The same polynomial and parameters get the same proof every time, zero coefficients at the end change nothing, and verdicts do not depend on earlier calls. "
     "Polynomials that differ in any coefficient have different first layer roots.",
     ["inputs", "histories"], "all coefficient vectors of length 1 to 8 and all changes of each coefficient, blowups 1 to 4; histories of up to 60 proofs",
     "Tests never compare two proofs.",
     ["fri/src/prover.rs", "fri/src/fri_layer.rs", "fri/src/merkle_tree.rs", "fri/src/verifier.rs"],
     [("generate_proof", "fri/src/prover.rs"), ("FriLayer::from_poly", "fri/src/fri_layer.rs"), ("MerkleTree::new", "fri/src/merkle_tree.rs"), ("verify", "fri/src/verifier.rs")])

# ------------------------------------------------------------------ NOVA
prop("N01", "Relaxed R1CS satisfaction is decided exactly",
     "A committed pair is accepted exactly when every constraint holds with the error vector and scalar, and the commitments are those of its witness and errors; pairs of other sizes are refused. "
     "Fresh and trivial pairs are what their definitions say, and the trivial pair satisfies every system.",
     ["inputs"], "all matrices, witnesses, public values, scalars, errors and changes of them for 1 to 4 constraints with 1 to 4 witness values and 1 to 3 public values, and 9 constraints with 10 witness values",
     "Tests check one satisfied pair of one fixed system; nothing unsatisfied is ever tried.",
     ["nova/src/r1cs/mod.rs", "nova/src/utils.rs"],
     [("is_r1cs_satisfied", "nova/src/r1cs/mod.rs"), ("FWitness::new / commit / create_trivial_pair", "nova/src/r1cs/mod.rs")])
prop("N02", "Folding two satisfied pairs gives a satisfied pair",
     "For every constraint system and any two satisfying committed relaxed pairs (including folded and trivial ones), the folded pair satisfies the system, "
     "is the stated combination with the challenge, and the verifier computes the same folded instance.",
     ["inputs"], "all matrices and all satisfying relaxed pairs for 1 to 4 constraints, 1 to 4 witness values, 1 to 3 public values, and 9 constraints with 10 witness values",
     "Tests fold two strict pairs of one fixed system; relaxed pairs (u not 1, nonzero errors) and other shapes are not tried.",
     ["nova/src/nifs/mod.rs", "nova/src/nifs/nifs_prover.rs", "nova/src/nifs/nifs_verifier.rs"],
     [("compute_t / fold_witness / fold_instance", "nova/src/nifs/mod.rs"), ("NIFS::prover", "nova/src/nifs/nifs_prover.rs"), ("NIFS::verifier", "nova/src/nifs/nifs_verifier.rs")])
prop("N03", "Folding never repairs an unsatisfied pair",
     "If either of two pairs violates a constraint or its commitments, the folded pair is not satisfied, whatever cross term is committed before the challenge is known.",
     ["inputs"], "all violations of each constraint or commitment in both pairs and all cross terms (1, 2 or 9 constraints)",
     "Knowledge soundness ranges over all violations and adversarial cross terms, including ones meant to cancel; tests fold only satisfied pairs.",
     ["nova/src/nifs/mod.rs", "nova/src/nifs/nifs_prover.rs", "nova/src/r1cs/mod.rs"],
     [("fold_witness / fold_instance", "nova/src/nifs/mod.rs"), ("is_r1cs_satisfied", "nova/src/r1cs/mod.rs")])
prop("N04", "Folding proofs are accepted when honest and rejected when altered",
     "An honest folding proof is accepted for the folded instance the verifier computes. "
     "It is rejected when its challenge, opening point, openings, cross-term commitment, either instance or the folded commitments are changed, and accepted openings carry the committed vectors' values.",
     ["inputs"], "all changes of every element, singly and value with witness together; an algebraic adversary without witness",
     "Tests verify honest proofs and three fixed wrong ones.",
     ["nova/src/nifs/nifs_prover.rs", "nova/src/nifs/nifs_verifier.rs"],
     [("NIFS::prove", "nova/src/nifs/nifs_prover.rs"), ("NIFS::verify / verify_challenge / verify_opening", "nova/src/nifs/nifs_verifier.rs")])
prop("N05", "Folding challenges bind both instances and the cross term",
     "Prover and verifier derive the folding challenge from all parts of both instances and the cross-term commitment, and the opening point from the folded commitments and everything before. "
     "A change to any of them, or exchanging the instances, changes the challenge, and no other challenge is accepted.",
     ["inputs", "histories"], "all values of every part of both instances (up to 3 public values each)",
     "That a challenge ignores one input is invisible to runs in which prover and verifier agree.",
     ["nova/src/nifs/nifs_prover.rs", "nova/src/nifs/nifs_verifier.rs", "nova/src/transcript.rs"],
     [("NIFS::prover", "nova/src/nifs/nifs_prover.rs"), ("verify_challenge / verify_opening", "nova/src/nifs/nifs_verifier.rs"), ("Transcript::feed_instance", "nova/src/transcript.rs")])
prop("N06", "The augmented circuit advances only from what it hashed",
     "A step applies the step function to the state, folds the given instances, and yields the hash of the next counter, initial state, next state and folded instance. "
     "It refuses, without effect, whenever the public hash, running instance, error commitment, scalar, counter or states do not fit together or an input is missing.",
     ["inputs", "histories"], "all states, counters, instances and witnesses; changes of each of them with all values",
     "Tests run one honest chain and a few fixed wrong values.",
     ["nova/src/circuit.rs"],
     [("AugmentedCircuit::run / next_step / new", "nova/src/circuit.rs")])
prop("N07", "IVC proofs are accepted for exactly their own computation",
     "After every step of an honest computation the proof is accepted and the running pair satisfies the system. "
     "A proof is rejected for another state, start, number of steps or hash, when any part of it is altered, missing or taken from another step, and when a step violated the constraints.",
     ["inputs", "histories"], "all inputs of chains of 1 to 6 steps (9 in the thorough tier); all changes of every part of the proofs after one and two steps",
     "Tests run one chain of four fixed inputs; soundness ranges over all alterations at every step.",
     ["nova/src/ivc/ivc_prover.rs", "nova/src/ivc/ivc_verifier.rs", "nova/src/circuit.rs"],
     [("IVC::prove", "nova/src/ivc/ivc_prover.rs"), ("IVC::verify", "nova/src/ivc/ivc_verifier.rs"), ("AugmentedCircuit::run", "nova/src/circuit.rs")],
     note="One listed known finding: a step that violates the constraints is still accepted. ")
prop("N08", "The public hash binds the whole state of the computation",
     "The hash put into public values is a function of the counter, both states and every part of the running instance, and changes when any of them changes, is exchanged with another or is left out.",
     ["inputs"], "all values of every input, two independent sets of inputs, lists of 0 to 8 public values",
     "Tests compute the hash only for values both sides agree on; an input that is left out is invisible.",
     ["nova/src/circuit.rs"], [("AugmentedCircuit::hash_io", "nova/src/circuit.rs")])
prop("N09", "Nova transcript challenges depend on every message in order",
     "A challenge is a function of all commitments, numbers and instances fed so far under the chosen hash and changes when any of them, their order, kind or number changes. "
     "Challenges drawn together or in succession differ, and none is given without new input.",
     ["inputs", "histories"], "all message values; the listed sequences of commitments and numbers of length 1 to 9, with challenges drawn in between",
     "Tests compare a few fixed sequences.",
     ["nova/src/transcript.rs"],
     [("Transcript::feed / feed_scalar_num / feed_instance / generate_challenges", "nova/src/transcript.rs")])
prop("N10", "Repeated and failed Nova operations change nothing",
     "Folding, proving, verifying and running a step give the same result every time, also after refused attempts, and leave their inputs alone. "
     "Of several runs before advancing the last one counts, and the circuit advances exactly once per run.",
     ["inputs", "histories"], "all instances, witnesses and changes; two to four repetitions, refused attempts in between, chains of 1 to 3 steps, 20 foldings in a row",
     "Tests do every operation once.",
     ["nova/src/circuit.rs", "nova/src/nifs/nifs_prover.rs", "nova/src/nifs/nifs_verifier.rs", "nova/src/ivc/ivc_prover.rs", "nova/src/ivc/ivc_verifier.rs"],
     [("AugmentedCircuit::run / next_step", "nova/src/circuit.rs"), ("NIFS::prover / prove", "nova/src/nifs/nifs_prover.rs"),
      ("IVC::prove", "nova/src/ivc/ivc_prover.rs"), ("IVC::verify", "nova/src/ivc/ivc_verifier.rs")])
prop("N11", "Nova's vector and matrix helpers compute what they name",
     "Matrix-vector, entrywise and scalar products, sums and differences have the mathematical entries for all field values; vectors are equal exactly when all their entries are. "
     "Sums and differences of vectors of different lengths are refused, and numbers become field elements without truncation.",
     ["inputs"], "all entries of vectors of length 0 to 33 and matrices up to 17 by 18; every single changed entry",
     "Tests use the helpers only inside larger computations with small fixed numbers.",
     ["nova/src/utils.rs"],
     [("matrix_vector_product / hadamard_product / vector_elem_product", "nova/src/utils.rs"), ("vec_add / vec_sub / vec_equal", "nova/src/utils.rs"),
      ("to_f_matrix / to_f_vec", "nova/src/utils.rs")])
