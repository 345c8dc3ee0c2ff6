A = "src/komm/_algebra/"
B = "src/komm/_error_control_block/"
D = "src/komm/_error_control_decoders/"
U = "src/komm/_util/"
K = "src/komm/_error_control_convolutional/"
F = "src/komm/_finite_state_machine/"
L = "src/komm/_lossless_coding/"

PROPS = [
 dict(id="C01", title="Binary polynomials form a Euclidean domain with consistent views",
  statement="Binary polynomials obey the laws of the polynomial ring over GF(2): addition, multiplication and powers are ring operations, division with remainder is exact with a remainder of smaller degree, and gcd, extended gcd and lcm are what those names say. The integer, coefficient-vector and exponent-list views of a polynomial describe the same polynomial, and evaluation at an integer, field element, polynomial or fraction is a ring homomorphism. Division by zero is refused and equality and hashing depend only on the polynomial.",
  forall="every pair or triple of polynomials, every exponent and evaluation point",
  why="The tests check a dozen hand-picked polynomials; a wrong carry, shift or degree shows only for particular operand pairs.",
  files=[A+"BinaryPolynomial.py", A+"ring.py", A+"domain.py", A+"Integers.py"],
  mech=[("packed integer arithmetic", A+"BinaryPolynomial.py"), ("Euclidean algorithms", A+"domain.py"), ("powers and Horner evaluation", A+"ring.py")]),
 dict(id="C02", title="Irreducibility and primitivity tests are exact",
  statement="A binary polynomial is reported irreducible exactly when it has no factor of smaller positive degree, and primitive exactly when it is irreducible and its root generates the whole multiplicative group.",
  forall="every binary polynomial of each degree in the bounds",
  why="The tests list a few known polynomials of each kind; a misjudged polynomial elsewhere silently yields a ring that is not a field.",
  files=[A+"BinaryPolynomial.py"],
  mech=[("Rabin's test", A+"BinaryPolynomial.py:is_irreducible"), ("order of the root", A+"BinaryPolynomial.py:is_primitive")]),
 dict(id="C03", title="Finite bifields are fields, with right inverses, logs and conjugates",
  statement="The elements of a finite bifield obey the field axioms and agree with polynomial arithmetic modulo the modulus; the inverse, logarithm, conjugates and minimal polynomial of an element satisfy their definitions. A modulus that is not irreducible of the stated degree is refused, and elements of different fields never compare equal or mix.",
  forall="every field in the bounds, every modulus, every element, pair or triple", over=["inputs", "configurations"],
  why="Tests tabulate a few small fields; an error tied to one modulus or one operand pair passes them.",
  files=[A+"FiniteBifield.py", A+"BinaryPolynomial.py"],
  mech=[("reduction modulo the modulus", A+"FiniteBifield.py"), ("inverse by extended gcd", A+"FiniteBifield.py")]),
 dict(id="C04", title="Fractions of binary polynomials form a field in lowest terms",
  statement="Fractions of binary polynomials are kept in lowest terms, compare equal exactly when they are equal as rational functions, and obey the field axioms. A zero denominator and division by zero are refused.",
  forall="every pair or triple of fractions in the bounds",
  why="Tests check a handful of fractions; a missing reduction or a swapped cross term shows only for particular common factors.",
  files=[A+"BinaryPolynomialFraction.py", A+"domain.py"],
  mech=[("reduction on construction", A+"BinaryPolynomialFraction.py")]),
 dict(id="C05", title="Bit vectors and integers convert to each other exactly",
  statement="Converting an integer to a bit vector of given width and back, or a bit vector to an integer and back, gives the original value in either bit order, elementwise along the last axis for arrays.",
  forall="every integer and bit vector up to the stated widths, in both bit orders",
  why="Tests use a few numbers; errors in high bits, order or axis handling need other widths and shapes.",
  files=[U+"bit_operations.py"],
  mech=[("weights and shifts", U+"bit_operations.py")]),
 dict(id="C06", title="Linear block codes: encoding, checking and inverse encoding agree",
  statement="For a block code given by any full-rank generator or check matrix, or by a parity submatrix and information set, encoding is multiplication by the generator matrix, codewords are exactly the words of zero syndrome, and inverse encoding returns the message of every codeword and refuses every other word. Batched inputs act row by row and block by block, partial blocks are refused, and the message of a systematic code appears at its information set.",
  forall="every full-rank matrix of the stated shapes, every information set, every message and word", over=["inputs", "configurations"],
  why="Tests fix a few matrices; the null-space, pseudo-inverse and permutation steps can fail only for other pivots or information sets.",
  files=[B+"base.py", B+"BlockCode.py", B+"SystematicBlockCode.py", U+"matrices.py", U+"decorators.py"],
  mech=[("elimination over GF(2)", U+"matrices.py"), ("information set permutation", B+"SystematicBlockCode.py"), ("blockwise mapping", U+"decorators.py")]),
 dict(id="C07", title="Each family of block codes is the code its name promises",
  statement="Hamming, simplex, Golay, repetition, single parity-check, Cordaro-Wagner, Reed-Muller, polar and lexicographic codes have the stated length, dimension and defining structure (column sets, constant weight, duality, parity, nesting, monomials, polar transform with frozen zeros), and their encoders, checkers and inverse encoders agree.",
  forall="every member of the families within the bounds, every message and word", over=["inputs", "configurations"],
  why="Tests compare a few small members with tables; structure must hold for every message of every member.",
  files=[B+"HammingCode.py", B+"SimplexCode.py", B+"GolayCode.py", B+"RepetitionCode.py", B+"SingleParityCheckCode.py", B+"CordaroWagnerCode.py", B+"ReedMullerCode.py", B+"PolarCode.py", B+"Lexicode.py", B+"SlepianArray.py"],
  mech=[("construction of the matrices", B+"HammingCode.py, ReedMullerCode.py, PolarCode.py"), ("Reed partitions", B+"ReedMullerCode.py"), ("fast polar transform", B+"PolarCode.py")]),
 dict(id="C08", title="Distances, weight distributions, coset leaders and radii are true",
  statement="The minimum distance of a block code is a lower bound on the weight of every nonzero codeword and is attained, the weight distributions count codewords and coset leaders exactly, every coset leader has least weight in its coset, and the packing and covering radii follow from them.",
  forall="every code in the bounds, every codeword and word; every full-rank generator matrix of the small shapes", over=["inputs", "configurations"],
  why="Tests compare stored numbers for known codes; a shortcut formula or search order error shows only on other codes.",
  files=[B+"base.py", B+"BlockCode.py", B+"util.py", B+"SlepianArray.py"],
  mech=[("exhaustive enumeration and caching", B+"BlockCode.py"), ("coset leader search", B+"BlockCode.py"), ("closed forms of the families", B+"HammingCode.py")]),
 dict(id="C09", title="Cyclic and BCH codes are ideals with the promised roots and distance",
  statement="A cyclic code consists exactly of the multiples of its generator polynomial, is closed under cyclic shifts, and its encoders, systematic or not, syndromes and inverse encoders agree with polynomial arithmetic; a polynomial not dividing X^n+1 is refused. BCH codes accept exactly the Bose distances, have minimum distance at least the designed one, and their field syndromes vanish exactly on codewords.",
  forall="every generator polynomial and length in the bounds, every message and word; every designed distance", over=["inputs", "configurations"],
  why="Tests use a few textbook codes; remainder and alignment errors depend on length, polynomial and message.",
  files=[B+"CyclicCode.py", B+"BCHCode.py", A+"BinaryPolynomial.py"],
  mech=[("polynomial encoders", B+"CyclicCode.py"), ("Bose distance and syndromes", B+"BCHCode.py")]),
 dict(id="C10", title="Hard-decision block decoders correct every pattern within the radius",
  statement="The syndrome-table, exhaustive, Reed and Berlekamp decoders recover the message from every codeword corrupted in at most half the minimum distance positions; the first two always choose a nearest codeword. Decoding acts word by word on batches, refuses partial words and leaves its input unchanged.",
  forall="every message and every error pattern of the codes in the bounds",
  why="Tests decode a few words per code; a wrong leader, tie or partition shows for particular patterns only.",
  files=[D+"SyndromeTableDecoder.py", D+"ExhaustiveSearchDecoder.py", D+"ReedDecoder.py", D+"BerlekampDecoder.py"],
  mech=[("coset leader table", D+"SyndromeTableDecoder.py"), ("majority vote on partitions", D+"ReedDecoder.py"), ("key equation and root search", D+"BerlekampDecoder.py")]),
 dict(id="C11", title="Soft-decision block decoders are maximum likelihood or noise-free exact",
  statement="The soft exhaustive and Wagner decoders return a message whose codeword correlates best with the received samples; they and the soft Reed decoder are exact on samples whose signs spell a codeword, whatever the magnitudes, and correct the guaranteed number of equal or weakest-magnitude errors.",
  forall="every real sample vector in range, every message of the codes in the bounds",
  why="Tests use a few sample vectors; ties, orderings and magnitude patterns are unbounded.",
  files=[D+"ExhaustiveSearchDecoder.py", D+"WagnerDecoder.py", D+"ReedDecoder.py"],
  mech=[("correlation metric", D+"ExhaustiveSearchDecoder.py"), ("flip the least reliable", D+"WagnerDecoder.py"), ("weighted votes", D+"ReedDecoder.py")],
  note="Real arithmetic stands in for floating point."),
 dict(id="C12", title="The successive-cancellation decoder of polar codes is exact without noise",
  statement="On samples whose signs spell a codeword of a polar code, whatever their magnitudes, the successive-cancellation decoder returns its message, and its soft outputs have the signs of the message bits. For any samples, each bit is decided from the belief given the bits decided before it, frozen ones being zero. The box-plus combination is commutative, odd, has the product of the signs and is no larger than either argument. Decoding acts word by word on batches and refuses partial words.",
  forall="every message and every vector of sample magnitudes in range, for every frozen set in the bounds", over=["inputs", "configurations"],
  why="Tests decode one sample vector of one code; index and sign errors in the recursion depend on the frozen set, the message and the magnitudes.",
  files=[D+"SCDecoder.py", B+"PolarCode.py", U+"special_functions.py"],
  mech=[("decoding tree traversal", D+"SCDecoder.py"), ("box-plus", U+"special_functions.py:boxplus")],
  note="Real arithmetic stands in for floating point; log(1+exp) is represented by bounds on its value and slope."),
 dict(id="C13", title="Convolutional encoders compute u(D) G(D), from any state and in any chunks",
  statement="Encoding from the zero state is the product of the input with the transfer matrix as power series, for feedforward, feedback, low-rate and high-rate encoders. Encoding from a state obeys the stated state-space matrices, is linear, and can be cut and resumed from the final state; the finite-state machine produces the same outputs and states. Generator matrix entries, constraint lengths, memory order and degree are those of the polynomials; a state of another length is refused.",
  forall="every tuple of polynomials up to the stated degrees, every input sequence and initial state", over=["inputs", "configurations", "histories"],
  why="Tests encode a few sequences with textbook codes; feedback taps, register alignment and chunk boundaries fail for particular polynomials and states.",
  files=[K+"base.py", K+"ConvolutionalCode.py", K+"LowRateConvolutionalCode.py", K+"HighRateConvolutionalCode.py"],
  mech=[("state-space realisations", K+"ConvolutionalCode.py:state_space_representation"), ("state update", K+"base.py:encode_with_state"), ("machine tables", K+"base.py:finite_state_machine")]),
 dict(id="C14", title="Terminated convolutional codes start and end as their mode says",
  statement="A directly truncated codeword is the first output blocks of the encoder; a zero-terminated codeword starts with them and drives the encoder to the zero state; a tail-biting codeword starts and ends in the same state and, without feedback, is the cyclic convolution. Length and dimension are as stated, and as block codes their generator and check matrices, syndromes, inverse encoding and blockwise mapping agree.",
  forall="every tuple of polynomials up to the stated degrees for which the termination exists, every message and word", over=["inputs", "configurations"],
  why="Tests list generator matrices of a few encoders; tail computation and initial states depend on the polynomials and the number of blocks.",
  files=[K+"TerminatedConvolutionalCode.py", K+"base.py", U+"matrices.py"],
  mech=[("tail projector", K+"TerminatedConvolutionalCode.py:ZeroTermination"), ("zero-state multiplier", K+"TerminatedConvolutionalCode.py:TailBiting")]),
 dict(id="C15", title="Viterbi decoding is maximum likelihood, and streaming ignores chunk boundaries",
  statement="The Viterbi decoder of a truncated or zero-terminated code returns a message whose codeword is nearest to the received bits, or correlates best with the received samples, word by word on batches. Every decision of the streaming decoder lies on a path of least metric from the initial state, however the input is cut into chunks, and without noise it returns the input delayed by the traceback length.",
  forall="every received word or sample vector, every initial state and chunking of the encoders in the bounds", over=["inputs", "histories"],
  why="Tests decode a few words; survivors, ties and traceback boundaries differ for every received word.",
  files=[D+"ViterbiDecoder.py", K+"ViterbiStreamDecoder.py", K+"TerminatedConvolutionalCode.py", F+"MealyMachine.py"],
  mech=[("add-compare-select and backtracking", F+"MealyMachine.py:viterbi"), ("path memory", F+"MealyMachine.py:viterbi_streaming")],
  note="Finding listed: with unequal constraint lengths the zero tail is not unique and the decoder searches more paths than the code has words."),
 dict(id="C16", title="State machines, free distance and catastrophicity follow the state diagram",
  statement="Mealy and Moore machines output along the transitions taken and report the final state; edge tables label exactly the existing transitions; the Viterbi algorithm returns for every final state the least path metric and an input sequence attaining it. The free distance of a non-catastrophic encoder is the least weight of a nonzero output returning to the zero state, and an encoder is reported catastrophic exactly when a cycle of zero outputs has a nonzero input.",
  forall="every machine of the stated size, every input sequence and edge metric; every encoder with polynomials up to the stated degrees", over=["inputs", "configurations", "histories"],
  why="Tests use two machines and tabulated codes; parallel transitions, ties and rank-deficient or common-factor encoders are missed.",
  files=[F+"MealyMachine.py", F+"MooreMachine.py", K+"base.py", U+"matrices.py"],
  mech=[("trellis search", F+"MealyMachine.py:viterbi"), ("weight-ordered search", K+"base.py:free_distance"), ("invariant factors", U+"matrices.py:invariant_factors")]),
dict(id="C17", title="Labelings are bijections with the documented rows, and refuse anything else",
  statement="A labeling of m bits converts every index in [0, 2^m) to the documented bits (natural binary, reflected Gray, products of those) and back, elementwise over arrays of any shape; indices and symbols out of range and incomplete words are refused; a general labeling is accepted exactly when its rows list every word once; Gray neighbours differ in one bit; marginalised L-values are the log ratios of the summed metrics.",
  forall="every index, word and metric of labelings up to 12 bits; every matrix up to 4x2", over=["inputs", "configurations"],
  why="Tests convert a handful of indices; wrap-around of bad indices, bit order and batch reshaping go unseen.",
  files=["src/komm/_labelings/"],
  mech=[("bit conversions", "src/komm/_labelings/NaturalLabeling.py:indices_to_bits"), ("Gray code", "src/komm/_labelings/ReflectedLabeling.py:indices_to_bits"), ("marginalisation", "src/komm/_labelings/base.py:marginalize")]),
dict(id="C18", title="Constellations: documented symbols, nearest-symbol decisions, exact statistics",
  statement="Every constellation has the documented symbols in the documented order; closest_indices returns, for any received points, an index at least distance, also in batches, and closest_symbols the symbol; mean, mean energy and minimum distance are those of the symbols for any priors; posteriors are positive and ordered by distance and prior; incomplete points and malformed priors are refused.",
  forall="every received point in twice the span of the constellation, every prior, for the listed constellations; every real matrix up to 3x3", over=["inputs", "configurations"],
  why="The closed-form decisions (rounding, angle, clipping) go wrong only near boundaries or off the grid, which sampled points miss.",
  files=["src/komm/_constellations/"],
  mech=[("rounding decisions", "src/komm/_constellations/PAMConstellation.py:closest_indices"), ("angular decisions", "src/komm/_constellations/PSKConstellation.py:closest_indices"), ("distance decisions", "src/komm/_constellations/base.py:closest_indices")]),
dict(id="C19", title="Word codes and integer codes are lossless and classified exactly",
  statement="A fixed-to-variable or variable-to-fixed code maps blocks and words as its mapping says, reports prefix-freeness, unique decodability, unique encodability and covering exactly, and decode undoes encode whenever the code allows it; malformed mappings, unknown symbols, incomplete blocks and invalid words are refused. Unary and Fibonacci codes are the textbook words, concatenate and decode to the integers encoded. Canonical codes exist exactly when the Kraft sum allows, with the lengths asked for, in order.",
  forall="every choice of words of the stated lengths, every message, every received sequence", over=["inputs", "configurations"],
  why="Tests use a few dictionaries; dangling suffixes, incomplete tails and odd mappings depend on the exact words and messages.",
  files=[L+"FixedToVariableCode.py", L+"VariableToFixedCode.py", L+"util.py", "src/komm/_integer_coding/"],
  mech=[("Sardinas-Patterson", L+"util.py:is_uniquely_parsable"), ("parsing", L+"util.py:parse_prefix_free"), ("Fibonacci words", "src/komm/_integer_coding/FibonacciCode.py")]),
dict(id="C20", title="Huffman, Shannon, Fano and Tunstall codes keep their defining promises",
  statement="For any probabilities, a Huffman code is a complete prefix-free code of least mean length (and least variance with the high policy), with the bit assignment documented; Shannon word lengths are the rounded-up self-information; Fano splits each group as evenly as possible; a Tunstall code is the full tree of maximal size obtained by extending only most probable words. Anything that is not a distribution is refused.",
  forall="every probability mass function on the stated number of symbols, including ties and zeros", over=["inputs"],
  why="Tests use a few textbook sources; ties, zero probabilities, skewed sources and particular block sizes take other branches.",
  files=[L+"HuffmanCode.py", L+"ShannonCode.py", L+"FanoCode.py", L+"TunstallCode.py", L+"util.py"],
  mech=[("Huffman queue", L+"HuffmanCode.py"), ("Fano split", L+"FanoCode.py"), ("Tunstall queue", L+"TunstallCode.py")],
  note="Probabilities are exact reals; rounding is outside the model."),
dict(id="C21", title="Lempel-Ziv codes are lossless and parse as documented",
  statement="For LZ77, LZSS, LZ78 and LZW, decode(encode(x)) is x for every source; LZ77/LZSS tokens are valid longest matches in the window for any initial search buffer, LZ78 phrases are new extensions of earlier ones, LZW emits the textbook phrase numbers; token lists survive the conversion to target symbols with the documented field widths; symbols outside the alphabet and bad parameters are refused.",
  forall="every source sequence and search buffer of the stated lengths, every token list", over=["inputs", "histories"],
  why="Tests use a few example strings; overlaps, the just-added LZW phrase, final incomplete phrases and field widths depend on the sequence.",
  files=[L+"LempelZiv77Code.py", L+"LempelZivSSCode.py", L+"LempelZiv78Code.py", L+"LempelZivWelchCode.py", L+"util.py"],
  mech=[("longest match search", L+"LempelZiv77Code.py:source_to_tokens"), ("dictionary growth", L+"LempelZivWelchCode.py:decode"), ("field widths", L+"LempelZiv78Code.py:target_to_tokens")]),
dict(id="C22", title="Quantizers map every input to its cell and its level",
  statement="A scalar quantizer is accepted exactly when thresholds separate increasing levels; digitize gives the index of the cell the input lies in and quantize the level of that index, elementwise. Uniform quantizers have equally spaced levels, thresholds half way, the stated offset (zero a level for mid-tread, half way between levels for mid-riser) and map to a nearest level; the mean squared error is the integral it stands for; bad parameters are refused.",
  forall="every set of levels, thresholds, step, offset and input", over=["inputs", "configurations"],
  why="Tests quantize a few numbers with a few quantizers; inputs on or beyond the outer thresholds and odd level counts are missed.",
  files=["src/komm/_quantization/"],
  mech=[("threshold search", "src/komm/_quantization/ScalarQuantizer.py:digitize"), ("uniform levels", "src/komm/_quantization/UniformQuantizer.py"), ("trapezoid rule", "src/komm/_quantization/base.py")],
  note="Real arithmetic stands in for floating point; Lloyd-Max iteration is not covered."),
dict(id="C23", title="Channels and sources turn random draws into outputs as documented",
  statement="Whatever the random generator draws, each binary channel flips, erases or decays exactly the symbols its probability says; a discrete memoryless channel draws each output from the row of its input and a source or Markov chain each symbol from its distribution or the row of the current state, until absorption where asked; Gaussian noise has the stated power, split evenly for complex input. Shapes are kept, inputs left alone, transition matrices as documented, and anything that is not a probability, distribution or power is refused.",
  forall="every parameter, input array and sequence of draws", over=["inputs", "schedules"],
  why="Tests check a fixed seed or statistics within tolerance; strict or loose comparisons, swapped rows and wrong noise splits hide in them.",
  files=["src/komm/_channels/", "src/komm/_sources/", U+"validators.py"],
  mech=[("bit channels", "src/komm/_channels/BinarySymmetricChannel.py:transmit"), ("row lookup", "src/komm/_channels/DiscreteMemorylessChannel.py:transmit"), ("noise split", "src/komm/_channels/GaussianChannel.py:transmit"), ("state walk", "src/komm/_sources/MarkovChain.py:simulate")],
  note="The generator is replaced by one whose draws are symbolic."),
dict(id="C24", title="Markov chain classification and absorption figures follow the chain",
  statement="Accessibility, communicating classes, transient, recurrent and absorbing states, irreducibility, periods, aperiodicity, regularity and the index of primitivity are those of the transition graph; the stationary distribution is a distribution kept by a step; mean visits, mean time and absorption probabilities satisfy the first-step equations; figures of absorbing or irreducible chains are refused for other chains, and what is returned does not give access to the chain's state.",
  forall="every transition matrix on up to 3 states and on the listed larger graphs", over=["inputs", "configurations"],
  why="Tests use textbook chains; periodic, reducible and partly absorbing chains each take other branches.",
  files=["src/komm/_sources/MarkovChain.py"],
  mech=[("reachability", "src/komm/_sources/MarkovChain.py:accessible_states_from"), ("periods", "src/komm/_sources/MarkovChain.py:period"), ("fundamental matrix", "src/komm/_sources/MarkovChain.py:mean_number_of_visits")]),
dict(id="C25", title="Sequences and their autocorrelations are what their definitions say",
  statement="Bit and polar views of a binary sequence correspond; autocorrelation and cyclic autocorrelation of any real, complex or binary sequence equal their definitions at every shift, positive, negative or beyond the length, and normalized are divided by the energy. LFSR sequences start with the start state and obey the feedback recurrence, maximum-length sequences have two-valued cyclic autocorrelation from any nonzero state, Walsh-Hadamard sequences are orthogonal rows in the stated ordering, Barker sequences have off-peak values of at most one; bad parameters are refused.",
  forall="every sequence up to the stated lengths, every shift, feedback polynomial, start state and index", over=["inputs", "configurations"],
  why="Tests list a few sequences; shifts beyond the length, complex conjugation and odd start states are not sampled.",
  files=["src/komm/_sequences_binary/", "src/komm/_sequences_complex/ComplexSequence.py", U+"sequences.py"],
  mech=[("correlation sums", U+"sequences.py:autocorrelation"), ("shift register", "src/komm/_sequences_binary/sequences.py:lfsr_sequence"), ("row orderings", "src/komm/_sequences_binary/WalshHadamardSequence.py")]),
dict(id="C26", title="Resampling, convolution and blockwise maps act along the right axis",
  statement="Compression keeps every M-th sample from the offset, expansion inserts zeros around samples at the offset, and compressing what was expanded gives the array back, along any axis of any array; convolve convolves every line along the axis in the mode asked for, in either argument order; blockwise and vectorized functions apply to each block or line and refuse lengths that do not divide; bad factors, offsets and pairs of matrices are refused.",
  forall="every array of the stated shapes, factor, offset, axis and mode", over=["inputs", "configurations"],
  why="Tests use small literal arrays on the last axis; other axes, offsets and lengths that do not divide slip through.",
  files=[U+"signal_processing.py", U+"decorators.py"],
  mech=[("strided indexing", U+"signal_processing.py:sampling_rate_expand"), ("line-wise convolution", U+"signal_processing.py:convolve"), ("block reshaping", U+"decorators.py:blockwise")]),
dict(id="C27", title="Pulse waveforms, spectra, energies and taps are consistent",
  statement="Rectangular and Manchester pulses have the documented waveform, the autocorrelation that is its overlap with its shift and the spectrum that is its Fourier transform; sinc, raised-cosine and Beaulieu pulses satisfy the Nyquist criterion in time and in frequency for every rolloff and vanish outside their band; the energy is the autocorrelation at zero, the energy spectral density the squared spectrum, a root pulse squares to its pulse; a Gaussian pulse has half its power at the half-power bandwidth; taps sample the waveform; bad widths, rolloffs and bandwidths are refused.",
  forall="every time, frequency, width, rolloff and bandwidth in the stated ranges", over=["inputs", "configurations"],
  why="Tests check a few values and numerical integrals with tolerances; band edges, boundary instants and particular rolloffs are missed.",
  files=["src/komm/_pulses/"],
  mech=[("indicator and triangle", "src/komm/_pulses/util.py:rect"), ("band selection", "src/komm/_pulses/RaisedCosinePulse.py:spectrum"), ("tap instants", "src/komm/_pulses/base.py:taps")],
  note="Transcendental functions are uninterpreted with the identities listed in the evidence; the raised-cosine, Beaulieu and Gaussian spectra are not shown to be transforms of their waveforms, and the root-Beaulieu waveform (numerical quadrature) is not covered."),
dict(id="C28", title="Information measures and binary-channel capacities match their definitions",
  statement="Entropy, relative entropy and mutual information in any accepted base equal their defining sums for every distribution, zeros included, and are the documented closed forms (with capacities) for the binary symmetric, erasure and Z channels; the inverse binary entropy inverts to its tolerance; boxplus is the log-likelihood ratio of a sum of two bits for any shapes; what is not a distribution, a transition matrix or a valid base is refused.",
  forall="every distribution and transition matrix of the stated sizes, every base listed, every pair of log-likelihood ratios", over=["inputs"],
  why="Tests compare a few distributions with tabulated values; zero probabilities, unusual bases and deterministic channels take other branches.",
  files=[U+"information_theory.py", U+"special_functions.py", "src/komm/_channels/", U+"validators.py"],
  mech=[("sums over the support", U+"information_theory.py"), ("bisection", U+"information_theory.py"), ("stable boxplus", U+"special_functions.py"), ("closed forms", "src/komm/_channels/BinarySymmetricChannel.py:mutual_information")],
  note="Logarithms are uninterpreted with the identities listed in the evidence; numerical capacities (Arimoto-Blahut) are N07."),
dict(id="C29", title="Forward-backward and BCJR outputs are the exact posteriors and L-values",
  statement="For every finite-state machine, metric, observed sequence and accepted prior and boundary distributions, forward_backward returns the posterior of every input symbol, equal to the sum over all paths and normalised; and for every terminated trellis code and received vector of L-values the BCJR decoder returns the exact log-ratio of the summed likelihoods of the codewords whose message bit is 0 and 1, block by block, whose sign is the hard decision.",
  forall="every real metric of every output at every step, priors and boundary distributions symbolic where accepted, over a set of small machines and codes", over=["inputs"],
  why="Tests compare a few received sequences with reference values; priors, boundary distributions, machines with parallel or missing transitions and states that cannot be reached take other terms of the recursion.",
  files=["src/komm/_finite_state_machine/MealyMachine.py", "src/komm/_error_control_decoders/BCJRDecoder.py"],
  mech=[("forward-backward recursion", "src/komm/_finite_state_machine/MealyMachine.py:forward_backward"), ("L-values to metrics and back", "src/komm/_error_control_decoders/BCJRDecoder.py")],
  note="Exponentials are exact: sums of exponentials of pairwise different monomials, compared as polynomials over positive unknowns (symex/gexp.py). Floating-point overflow and rounding are outside."),
dict(id="C30", title="Constellation posteriors and bit marginals are the exact Bayes quotients",
  statement="For every constellation, received point, noise power and prior, posteriors returns the normalised Gaussian likelihoods times priors, symbol by symbol; for every labeling and vector of positive symbol metrics, marginalize returns the log of the ratio of the sums over the symbols whose bit is 0 and 1; and one after the other they give the exact soft demodulation.",
  forall="every received point and every vector of positive metrics, over the listed constellations, labelings, noise powers and priors", over=["inputs"],
  why="Tests check a handful of points of a few constellations.",
  files=["src/komm/_constellations/", "src/komm/_labelings/"], mech=[("posteriors", "src/komm/_constellations/"), ("marginalize", "src/komm/_labelings/base.py:marginalize")],
  note="Exponentials are exact, as in C29; constellations, noise powers and priors are concrete."),
]

NA = [
dict(id="N03", title="Special functions have their stated values",
  statement="gaussian_q, gaussian_q_inv and marcum_q equal the integrals they stand for, with the documented accuracy, and are inverse where stated.",
  forall="every real argument", why="Tests compare a table of values.",
  files=[U+"special_functions.py"], mech=[("wrappers and series", U+"special_functions.py")],
  reason="Thin wrappers over math.erfc and statistics.NormalDist (compiled, or a table of rational approximations) and a truncated series of exponentials and gamma functions: what they must equal is an integral no solver theory expresses, so only numerical comparison at points would be possible."),
dict(id="N04", title="Lloyd-Max and uniform optimal quantizers converge to a local optimum",
  statement="The Lloyd-Max design returns levels that are centroids of their cells and thresholds half way between levels, up to the stated convergence tolerance, for any input distribution.",
  forall="every input density and range", why="Tests design a few quantizers for standard densities.",
  files=["src/komm/_quantization/"], mech=[("Lloyd-Max iteration", "src/komm/_quantization/")],
  reason="The number of iterations depends on floating-point convergence and the input is an arbitrary Python callable integrated over thousands of grid points; no finite unrolling decides it. The quantizers it produces obey C22."),
dict(id="N05", title="Smooth pulses and their spectra are Fourier transform pairs",
  statement="For every time and frequency, the spectrum of a raised-cosine, root-raised-cosine, Beaulieu, root-Beaulieu or Gaussian pulse is the Fourier transform of its waveform.",
  forall="every rolloff, bandwidth, time and frequency", why="Tests integrate numerically at a few frequencies.",
  files=["src/komm/_pulses/"], mech=[("closed forms", "src/komm/_pulses/RaisedCosinePulse.py"), ("quadrature", "src/komm/_pulses/")],
  reason="Relating the two closed forms needs integration over the whole real line of products of trigonometric functions, which no SMT theory expresses; the root-Beaulieu waveform is scipy quadrature. C27 decides Nyquist, band, energy and square relations instead."),
dict(id="N06", title="Zadoff-Chu sequences and the discrete Fourier transform",
  statement="Zadoff-Chu sequences have constant amplitude and zero cyclic autocorrelation off the peak for every coprime root, and fourier_transform of a signal approximates its integral.",
  forall="every length, root and signal", why="Tests check a few lengths and signals.",
  files=["src/komm/_sequences_complex/", U+"signal_processing.py"], mech=[("chirp phases", "src/komm/_sequences_complex/"), ("FFT", U+"signal_processing.py")],
  reason="Values are roots of unity of arbitrary order (algebraic numbers of high degree) or FFTs in compiled numpy; with real arithmetic they can only be evaluated numerically, which would be enumeration of concrete runs. The correlation sums themselves are C25."),
dict(id="N07", title="Numerical channel capacity converges to the true capacity",
  statement="Arimoto-Blahut returns, within its tolerance, the capacity of every discrete memoryless channel, and the Z-channel formula equals it.",
  forall="every transition matrix", why="Tests check channels with known capacity.",
  files=["src/komm/_channels/", U+"information_theory.py"], mech=[("Arimoto-Blahut iteration", "src/komm/_channels/")],
  reason="An iteration of exponentials of sums of logarithms whose length depends on convergence; maximality over all input distributions is a transcendental optimisation no available solver decides. The closed forms of the symmetric and erasure channels are C28."),
]
