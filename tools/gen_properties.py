import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,hook=None,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
HK="private modules and private proof fields must be reachable (cfg qesa_verif)"
prop("Q01","Honest quadratic-system proofs always verify",
 "For every system of quadratic equations w^T*M_i*w = 0 (one or more square matrices), every witness w whose first entry is one and which satisfies all of them, every power-of-two reference-string size and every initial transcript, the proof made by the zero-knowledge quadratic-equation prover is accepted by its verifier when given the same statement. This holds for all but a negligible fraction of prover coins and challenges, and proving never aborts on such input.",
 ["inputs","configurations"],"all satisfying (system, witness) pairs, sizes n=4,8,16,.., numbers of equations, prover coins and challenge values",
 "The tests run three random systems (n=4 with random rows, n=8 with two equal matrices); no other size, equation count, zero/repeated entry, or challenge pattern is reached.",
 ["src/qesa_zk.rs","src/ipa/qesa_inner.rs","src/ipa/alm_zk.rs","src/ipa/no_zk.rs","src/matrix.rs","src/math_utils.rs"],
 [("prover/verifier pair","src/ipa/qesa_inner.rs create/verify"),("batching of matrices","src/matrix.rs block_matrix_batch"),("rotation rows that cancel the blinding","src/ipa/qesa_inner.rs compute_gamma_prime")],
 ["return value of the verifier on an honest proof"],HK)
prop("Q02","No proof is accepted for a quadratic system its witness does not satisfy",
 "If the prover's vector violates at least one equation of the system, whichever equation it is and however many there are (also when the violations of several equations cancel in their sum), or if its first entry is not one, the proof it produces is rejected for all but a negligible fraction of challenges. In particular no prover, however it lets its messages depend on the challenges it has seen, gets a proof accepted for a system that nothing satisfies.",
 ["inputs","configurations"],"all vectors and systems with a non-zero residual in any subset of equations, any number of equations including more than the reference-string size, all challenge values",
 "There is no negative test at all: nothing in the suite ever expects the quadratic-equation verifier to return false.",
 ["src/ipa/qesa_inner.rs","src/matrix.rs","src/ipa/alm_zk.rs","src/ipa/no_zk.rs"],
 [("random linear combination of all equations","src/matrix.rs block_matrix_batch"),("rescaling of the first generator to force w0=1","src/ipa/qesa_inner.rs verify step 4/5"),("t recomputed by the verifier","src/ipa/qesa_inner.rs verify step 8")],
 ["return value of the verifier"],HK)
prop("Q03","A quadratic-system proof is bound to its contents, statement and context",
 "Changing any element of an accepted quadratic-equation proof (any commitment, any round message, any final scalar, singly or in pairs), or verifying it against a different system, different generators or a transcript with a different history, makes the verifier reject for all but a negligible fraction of challenges.",
 ["inputs","fault_sequences"],"all single and pairwise modifications of proof elements in any direction, all single-entry changes to the matrices, all generator changes, and differing transcript prefixes",
 "No test modifies a proof, a statement or a transcript before verifying.",
 ["src/ipa/qesa_inner.rs","src/ipa/alm_zk.rs","src/ipa/no_zk.rs","src/qesa_zk.rs"],
 [("verification equation","src/ipa/no_zk.rs verify"),("absorption of proof elements","src/ipa/*.rs append_message calls")],
 ["return value of the verifier on modified proof/statement"],HK)
prop("K01","Honest copy proofs always verify for every commitment layout",
 "For every family of Pedersen vector commitments opened to messages under index sets (any sizes, overlapping or disjoint, any number of commitments) for which a mapping exists, and every system of equations satisfied by the resulting witness, the copy proof made from the openings is accepted by the copy verifier given those commitments and that mapping.",
 ["inputs","configurations"],"all layouts (index sets, witness size, n), messages, blinding values, extra equations, coins and challenges",
 "Two fixed layouts ({1,2} and {1,2},{1,2,3}) with an empty base system are tested; no gaps, singletons, high indices, longer witnesses, or base equations.",
 ["src/copy/copy.rs","src/copy/mapping.rs"],
 [("aggregation of messages into reserved witness slots","src/copy/copy.rs create step 8"),("copy equations added on both sides","src/copy/copy.rs create step 9, verify step 3"),("slot assignment","src/copy/mapping.rs compute_mapping")],
 ["return value of the copy verifier"],HK)
prop("K02","Copy proofs bind the witness to exactly the committed messages",
 "A copy proof whose witness carries, in any mapped slot, a value different from the message in the corresponding commitment (even when several differences cancel), or which uses a different blinding value (also when another commitment holds more than its messages), violates a base equation, or is verified against different, reordered or additional commitments, another mapping or another base system, or after changing any proof element, is rejected for all but a negligible fraction of challenges.",
 ["inputs","configurations","fault_sequences"],"all layouts, all single and pairwise discrepancies between openings and commitments, permutations of commitments, changes of mapping, base system and proof elements, all challenge values",
 "There is no negative copy test: a verifier that ignored the commitments altogether would pass the suite.",
 ["src/copy/copy.rs","src/copy/mapping.rs"],
 [("challenge-weighted sum of commitments replaces the first inner commitment","src/copy/copy.rs verify step 2/4"),("copy equations","src/copy/copy.rs verify step 3")],
 ["return value of the copy verifier"],HK)
prop("K03","Every message gets its own free witness slot and correct provenance",
 "A computed mapping gives each message, in commitment order, a distinct slot that lies after the user's witness, before the two blinding positions and outside all indices used by commitments, together with the index and the commitment it came from, and reports the last slot used and the set of used indices. When no such assignment exists, or a commitment uses a position reserved for the constant one (the first) or for the blinding (the last two), the mapping is refused instead of returned.",
 ["inputs","configurations"],"all n, witness sizes and families of index sets",
 "One random test with n=18, witness size 1 and indices in [2,15) checks ids and the last slot only (and fails at random); never distinctness, range or disjointness.",
 ["src/copy/mapping.rs"],
 [("filter of used indices and bounds","src/copy/mapping.rs compute_mapping available_positions"),("ids assigned in commitment order","src/copy/mapping.rs compute_mapping loops")],
 ["fields of the returned mapping, refusal by panic"],HK)
prop("K04","Vector commitments are the exact linear map they claim to be",
 "Committing to messages under an index set gives exactly the sum of each message times the generator at its index (in increasing index order) plus the blinding value times the designated blinding generator, with no generator used twice and no message dropped, for both commitment functions.",
 ["inputs","configurations"],"all index subsets, message vectors (including zero and repeated values) and blinding values, all vector lengths",
 "One linearity test with a single message exists; index sets are exercised only through the copy tests and never compared with a reference.",
 ["src/copy/mapping.rs","src/lmpa/simple_zk.rs"],
 [("index to generator selection","src/copy/mapping.rs commit"),("pedersen_commit","src/lmpa/simple_zk.rs")],
 ["the returned group element"],HK)
prop("I01","Honest inner-product proofs always verify",
 "For every pair of vectors of equal power-of-two length, every challenge outcome and every initial transcript, the plain inner-product prover and the almost-zero-knowledge prover (length at least two) produce a proof their verifier accepts for the honest commitment and inner product; zero vectors, unit vectors and equal vectors are no exception, and the almost-zero-knowledge prover fails for at most a negligible fraction of its coins.",
 ["inputs","configurations"],"all vector pairs, lengths 1,2,4,8,.., coins and challenges",
 "Each prover has one test with n=4 and random vectors.",
 ["src/ipa/no_zk.rs","src/ipa/alm_zk.rs","src/ipa/gramschmidt.rs"],
 [("recursive halving on both sides","src/ipa/no_zk.rs create/verify"),("masking that keeps the inner product","src/ipa/alm_zk.rs create")],
 ["return value of the verifier"],HK)
prop("I02","Inner-product verifiers reject false claims and modified proofs",
 "For a commitment and claimed inner product that do not match (wrong claim, commitment not opened by the vectors, wrong generator, wrong length), or after changing any element of an accepted proof, both inner-product verifiers reject for all but a negligible fraction of challenges, whatever a bounded adversarial prover sends.",
 ["inputs","fault_sequences"],"all false (commitment, claim) pairs, all adversarial messages within the bound, all challenge values",
 "No test expects rejection.",
 ["src/ipa/no_zk.rs","src/ipa/alm_zk.rs"],
 [("final check against folded generators","src/ipa/no_zk.rs verify"),("claim folded in with a challenge-scaled generator","src/ipa/no_zk.rs verify alpha"),("commitment recombination","src/ipa/alm_zk.rs verify")],
 ["return value of the verifier"],HK)
prop("L01","Honest linear-map pre-image proofs always verify",
 "For every matrix of group elements with a power-of-two number of columns and any number of rows, and every pre-image vector, the two-way-splitting pre-image prover, with and without zero knowledge, produces a proof accepted for the true image, for every challenge outcome and initial transcript.",
 ["inputs","configurations"],"all matrices (rows 1..), vectors (including zero), lengths 1,2,4,8,.., coins and challenges",
 "Tests use n in {2,4,8} and m in {1,2,4} once each with random values.",
 ["src/lmpa/no_zk.rs","src/lmpa/simple_zk.rs","src/matrix.rs"],
 [("create/verify folding","src/lmpa/no_zk.rs"),("blinded witness and image","src/lmpa/simple_zk.rs create/verify")],
 ["return value of the verifier"],HK)
prop("L02","Two-way pre-image verifiers reject a wrong image in any row",
 "If the claimed image differs from the matrix times the prover's vector in any row (or in several rows so that the differences cancel), if the matrix differs, or if any element of an accepted proof is changed, the two-way-splitting verifiers, with and without zero knowledge, reject for all but a negligible fraction of challenges, whatever a bounded adversarial prover sends.",
 ["inputs","fault_sequences"],"all rows and directions of error, all adversarial messages within the bound, all challenge values",
 "No test expects rejection; a verifier that looks only at one row passes the suite.",
 ["src/lmpa/no_zk.rs","src/lmpa/simple_zk.rs"],
 [("final comparison","src/lmpa/no_zk.rs NoZK::verify"),("t folding","src/lmpa/no_zk.rs NoZK::verify"),("t blinded with beta","src/lmpa/simple_zk.rs verify")],
 ["return value of the verifier"],HK)
prop("L03","Honest k-ary pre-image proofs always verify",
 "For every splitting factor k of at least two, every number of columns n that k divides down to less than k, any number of rows and every pre-image vector, the k-ary pre-image prover, with and without zero knowledge, produces a proof accepted for the true image, for every challenge outcome and initial transcript.",
 ["inputs","configurations"],"all k, depths, remainders r with n=r*k^d, rows, vectors, coins and challenges",
 "Only k=5, n=125, m=4 with random values is tested, once per variant.",
 ["src/lmpa/no_zk.rs","src/lmpa/simple_zk.rs","src/matrix.rs"],
 [("k-ary folding","src/lmpa/no_zk.rs create_lmpa_noZK/verify_lmpa_noZK"),("blinding","src/lmpa/simple_zk.rs create_general/verify_general")],
 ["return value of the verifier"],HK)
prop("L04","k-ary pre-image verifiers reject a wrong image, matrix or proof",
 "If the claimed image differs from the matrix times the prover's vector in any row, if the matrix differs from the prover's, or if any element of an accepted proof is changed (including any value the proof carries that the verifier could compute itself), the k-ary verifiers, with and without zero knowledge, reject for all but a negligible fraction of challenges.",
 ["inputs","fault_sequences"],"all rows and directions of error, all proof elements and rounds, all challenge values",
 "No test expects rejection; a verifier that never looks at the claimed image passes the suite.",
 ["src/lmpa/no_zk.rs","src/lmpa/simple_zk.rs"],
 [("t and A recomputed by the verifier","src/lmpa/no_zk.rs verify_lmpa_noZK"),("blinded image","src/lmpa/simple_zk.rs verify_general")],
 ["return value of the verifier"],HK)
prop("Z01","Zero-knowledge pre-image proofs reveal nothing about which pre-image is held",
 "For any fixed challenges, the distribution of the proof made by either zero-knowledge pre-image prover, over its own coins, is identical for every two vectors that have the same image under the matrix, and every coin is drawn freshly and independently for each proof.",
 ["inputs","schedules"],"all matrices, all pairs of vectors with equal image, all challenge values, all coin outcomes",
 "The tests check acceptance only; a prover that sent the vector in the clear passes them.",
 ["src/lmpa/simple_zk.rs"],
 [("uniform blinding vector r of full length","src/lmpa/simple_zk.rs create/create_general"),("only the blinded vector reaches the inner prover","src/lmpa/simple_zk.rs")],
 ["distribution of the proof object over all coin outcomes"],HK)
prop("Z02","Inner-product, quadratic and copy proofs are blinded by fresh independent coins",
 "In almost-zero-knowledge inner-product, quadratic-equation and copy proofs every commitment to witness data (jointly, where the protocol sends a pair) and every revealed scalar (jointly) is uniformly distributed over the prover's coins for generic fixed challenges, whatever the witness, and the number of independent coins that influence a proof never falls below what the protocol prescribes for its length.",
 ["inputs","configurations"],"all witnesses in the bound, all coin outcomes, all generic challenge values",
 "The tests check acceptance only; constant, reused or missing blinding passes them.",
 ["src/ipa/alm_zk.rs","src/ipa/qesa_inner.rs","src/qesa_zk.rs","src/copy/copy.rs","src/ipa/gramschmidt.rs"],
 [("two blinding entries and their rotation","src/qesa_zk.rs, src/copy/copy.rs, src/ipa/qesa_inner.rs"),("masks r' and r''","src/ipa/alm_zk.rs create")],
 ["distribution of proof elements over all coin outcomes"],HK)
prop("Z03","Masking vectors are orthogonal where required and otherwise uniform",
 "The sampled masking vector is orthogonal to the given vector (or to both given vectors) and is the orthogonal projection of a sample in which positions 0, 1, every pair (2^k, 2^k+1) up to half the length, and the last two are independent and uniform, for every power-of-two length; vectors that are already orthogonal, or zero, are handled like any other.",
 ["inputs","configurations"],"all given vectors in the bound, lengths 2,4,8,16,.., all coin outcomes",
 "Three tests check orthogonality for one random length-4 vector each; neither distribution nor other lengths are reached.",
 ["src/ipa/gramschmidt.rs"],
 [("sample positions","src/ipa/gramschmidt.rs sample_m_n_plus"),("projection","src/ipa/gramschmidt.rs orth")],
 ["returned vector"],HK)
prop("F01","Every prover message is fixed before the challenge that follows it",
 "In every protocol of the library each group element the prover sends influences the very next challenge drawn, the two sides draw the same challenges in the same order, every challenge drawn influences acceptance, is uniform over the full scalar field, and depends on the whole preceding transcript including what the caller put there.",
 ["inputs","histories","configurations"],"all protocols, sizes, rounds and proof elements; all byte positions of the challenge output",
 "Consistent omission of a message on both sides leaves honest proofs valid, so acceptance tests cannot see it.",
 ["src/ipa/no_zk.rs","src/ipa/alm_zk.rs","src/ipa/qesa_inner.rs","src/copy/copy.rs","src/lmpa/no_zk.rs","src/lmpa/simple_zk.rs","src/transcript.rs"],
 [("append_message before challenge_scalar","all create/verify functions"),("wide reduction of 64 bytes","src/transcript.rs challenge_scalar")],
 ["sequence of transcript states at which challenges are drawn"],HK)
prop("F02","Proofs compose on a shared transcript, in order and only in order",
 "After an honest proof is created and verified the prover's and verifier's transcripts are in the same state, so any sequence of proofs of any of the protocols made on one transcript verifies in the same order on one transcript; with a proof omitted, repeated, swapped or from another session, a later verification rejects. Creating or verifying one proof never affects another: verifying twice gives the same answer and equal inputs, coins and transcripts give equal proofs.",
 ["histories"],"all sequences of up to three prove/verify operations over all protocols, and all single omissions, duplications and swaps",
 "Every test uses one fresh transcript per proof and one operation.",
 ["src/qesa_zk.rs","src/ipa/no_zk.rs","src/ipa/alm_zk.rs","src/ipa/qesa_inner.rs","src/copy/copy.rs","src/lmpa/no_zk.rs","src/lmpa/simple_zk.rs"],
 [("mirrored transcript operations","all create/verify pairs")],
 ["verifier results and a final challenge drawn from both transcripts"],HK)
prop("F03","Challenges are bound to the statement being proved",
 "In the quadratic-equation, copy and pre-image protocols the first challenge depends on every part of the public statement (generators, equations, commitments and their mapping, matrix and claimed image), so a statement cannot be chosen after the challenges are known.",
 ["inputs","configurations"],"every component of the public statement of every entry-point protocol",
 "Tests never derive a statement from a challenge; an unbound statement passes them all.",
 ["src/ipa/qesa_inner.rs","src/copy/copy.rs","src/lmpa/no_zk.rs","src/lmpa/simple_zk.rs"],
 [("absorption of the statement","start of create/verify of each protocol")],
 ["the first challenge drawn by prover and verifier"],HK)
prop("T01","Verification of any malformed proof ends in rejection, not in an abort",
 "For every well-formed statement and every proof object of the right type, including ones with undecodable point encodings, missing, surplus or wrongly sized round messages, every verifier of the library returns accept or reject without panicking, and rejects those malformations.",
 ["inputs","fault_sequences"],"all positions of an undecodable point, all numbers of left and right round messages and row counts within the bound",
 "Tests only verify honest proofs.",
 ["src/ipa/no_zk.rs","src/ipa/alm_zk.rs","src/ipa/qesa_inner.rs","src/copy/copy.rs","src/lmpa/no_zk.rs","src/lmpa/simple_zk.rs"],
 [("decompress and length handling","verify functions")],
 ["verifier result or panic"],HK)
prop("T02","Proving and verifying disclose nothing outside the proof",
 "Creating or verifying a proof with any protocol writes nothing to standard output or standard error, whether the proof is accepted or rejected, so neither the witness nor the prover's coins leave the process by that route.",
 ["inputs","configurations"],"all protocols, sizes and accept/reject outcomes within the bound",
 "The test runner captures output and never looks at it.",
 ["src/lmpa/no_zk.rs","src/lmpa/simple_zk.rs","src/ipa/qesa_inner.rs","src/copy/copy.rs"],
 [("absence of printing in library code","all non-test functions")],
 ["bytes written to file descriptors 1 and 2"],HK)
prop("M01","Matrix and vector operations equal their textbook definitions",
 "The matrix and vector operations (scaling, matrix-vector product, sum, difference, transpose, column splitting, batching of matrices by challenges, powers of a challenge, inner product), over scalars, over group elements and in their generic forms, return exactly the textbook result for every shape and every entry, and batching uses every matrix.",
 ["inputs","configurations"],"all shapes up to a bound including non-square and single-row/column, all entries",
 "One test checks powers of two; the rest is reached only through random proof tests with square or fixed shapes.",
 ["src/matrix.rs","src/math_utils.rs"],
 [("matrix functions","src/matrix.rs"),("inner_product, vandemonde_challenge","src/math_utils.rs")],
 ["returned matrices and vectors"],HK)
prop("S01","Proofs are as short as promised, whatever the witness",
 "A proof holds no more elements than its protocol promises - two group elements per halving and two scalars for inner products and what is built on them, two per halving and row and one scalar for the two-way pre-image proof, 2k-1 per row and splitting (and the reduced system) for the k-ary one - and its form depends on the public sizes only: not on the witness (zeros and repetitions included), the equations, the commitments and their layout, the generators, the coins or the challenges.",
 ["inputs","configurations"],"all sizes within the bound, all splitting factors, all witness patterns (all vectors over small fields), numbers and kinds of equations, layouts, degenerate generators, all challenge values",
 "No test looks at the size of a proof; all of them use random witnesses, for which a proof whose form follows the witness looks normal.",
 ["src/ipa/no_zk.rs","src/ipa/alm_zk.rs","src/ipa/qesa_inner.rs","src/copy/copy.rs","src/lmpa/no_zk.rs","src/lmpa/simple_zk.rs"],
 [("rounds of the reduction","create functions of src/ipa/no_zk.rs and src/lmpa/no_zk.rs")],
 ["the numbers of elements and the nesting of the proof returned"],HK)
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
print(len(P))
