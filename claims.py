"""What each check claims (used by check.py for the evidence and by mkmanifest.py for MANIFEST.json)."""
ENGINE = ['pyvc engine (path exploration by re-execution, proxies, instrumentation of loops)', 'z3 5.3 / cvc5 1.4', 'CPython 3.12 executing the real code']
A_INT = 'Python ints are exact mathematical integers (they are); no machine-integer wrap-around in numpy scalars holding extents'
A_FLT = 'double division and ceil/floor of integers are exact (true for extents below 2**53)'
A_NP = 'numpy functions on symbolic elements and on arrays of symbolic shape act as documented (element by element, broadcasting, result type)'
A_LIST = 'the list variables a loop of symbolic length appends to are not aliased'
TECH = 'contract-based deductive verification of the real code (pre/postconditions, loop rule, SMT)'
TECHB = TECH + ' with labelled bounded stand-ins'
BASE = dict(trusted=ENGINE, assumptions=[A_INT, A_FLT], rule='', explanation='', level='proof', note='', technique=TECHB)


def C(**k):
    d = dict(BASE)
    d.update(k)
    return d


CLAIMS = {
    'C01': C(assumptions=[A_INT, A_FLT, A_NP, A_LIST],
             rule='random models of elementwise operators, broadcastable and incompatible operand shapes; each distinct operator/shape combination counted once',
             explanation='operand shapes are symbolic sequences of any length; the broadcast rule is the postcondition of the helper and of every operator',
             note='Proof for all ranks and extents with 1-3 operands (4-5 operand Sum/Min/Max at listed ranks, labelled bounded); a bounded run of the loading pipeline accompanies it.'),
    'C02': C(rule='random convolutions/poolings of 1-3 spatial dims with random subsets of attributes; each distinct configuration counted once',
             explanation='every extent, kernel, stride, dilation, padding, group is a symbolic integer; 1-3 spatial dims and attribute presence are enumerated completely',
             note='Proof over all extents and attribute values for 1-3 spatial dimensions (the whole claim); a bounded run of the full loading pipeline accompanies it.'),
    'C03': C(assumptions=[A_INT, A_FLT, A_NP, A_LIST],
             rule='random nodes per operator family against shapes of ONNX definitions and the reference evaluator; distinct configurations counted',
             explanation='axes, permutations, operand forms and ranks are enumerated completely up to the stated rank; every extent and operand value is a symbolic integer',
             note='Proof over all extents and operand values per enumerated rank (up to 5, thorough 6), axis set and operand form: those contracts are labelled with their rank bound; '
                  'operators whose inference does not depend on the rank are proved for every rank. A bounded run against the reference definitions accompanies it.'),
    'C04': C(assumptions=[A_INT, A_FLT, A_NP, A_LIST],
             rule='random nodes per operator family against the definitions; distinct configurations counted',
             explanation='batch shapes are symbolic sequences of any length, every other extent a symbolic integer; flags, outputs, biases and dtypes enumerated; Einsum over a list of equations',
             note='Proof for every batch rank and all extents (matrix products, Gemm, recurrent, normalisation, quantise, attention); Einsum over listed equations and ellipsis ranks 0-2 '
                  '(labelled bounded). A bounded run of the loading pipeline with random equations accompanies it.'),
    'C05': C(level='other',
             assumptions=[A_INT, A_LIST, 'floating-point elements are exact real numbers (the bounded run judges rounding)', 'numpy functions on tracked arrays put at every index the element their documentation says',
                          'exp, log, erf, power and the other transcendental functions are uninterpreted; sums, maxima and positions of maxima over an axis of symbolic extent are uninterpreted functions of the row',
                          'every contract is labelled with its listed ranks: extents and elements are symbolic'],
             rule='random nodes and programs against the ONNX reference evaluator and brute-force definitions; distinct cases counted',
             explanation='the real value_infer runs on arrays of symbolic extents and symbolic elements; the element at an arbitrary index of the result must equal the ONNX definition for all elements, '
                         'operands must be left as they were, forms that are not computed must raise; whole value runs over every wiring of small graphs',
             note='Deductive per listed rank (0-4), axis and form, for all extents and all element values (as reals or integers): pointwise, data movement, indexing, folding, selection, convolution and '
                  'pooling with listed kernels; graphs of 2-4 nodes in every wiring. Rounding, float16 and larger ranks by a bounded run against the ONNX reference evaluator.'),
    'C06': C(assumptions=[A_INT, A_FLT, A_NP, A_LIST, 'math.log2 of a positive int has the exact integer part'],
             rule='random nodes against the cost formulas; distinct configurations counted',
             explanation='the cost reported by every operator is compared with its formula as one integer identity over symbolic extents, for every rank where the operator is rank-independent',
             note='Proof over all extents: elementwise, matrix products, convolution, pooling, recurrent, normalisation, attention with cache, MoE, GDN and MLA layers; layout and reduction operators '
                  'per enumerated rank (labelled bounded). A bounded run accompanies it.'),
    'C07': C(level='other', assumptions=[A_INT, 'the figures of one node are those its cost function returns (C06)', 'every entry is labelled bounded: operands per node and sizes of graphs are enumerated'],
             rule='random graphs, exclusion sets and call histories, tables read back; distinct graphs counted',
             explanation='invariant of the loop over the covered nodes: from any totals so far, a node with any figures adds exactly its figures (any number of nodes); whole graphs with '
                         'symbolic figures and extents for every wiring, exclusion set and call history of the listed sizes; every row, share and total of the printed table',
             note='The summation is proved for any number of nodes, any figures and extents (nodes of up to 4 operands); exclusions, histories, deduplication, printed rows, shares and totals for every wiring of 2-3 nodes '
                  '(labelled bounded). Tables of random models in a bounded run.'),
    'C08': C(level='other', assumptions=['every entry is labelled bounded: sizes of graphs are enumerated'],
             rule='random graphs in random file order and edit histories; distinct graphs counted',
             explanation='contracts on loading, ordering and editing, discharged for every wiring, choice of graph outputs and file order of the listed sizes (wiring and order are symbolic and split by the verifier); '
                         'random larger graphs and edit histories in a bounded run',
             note='Every wiring and file order of graphs of 2-4 (thorough 5) nodes and every history of up to two listed edits, all labelled bounded; plus a bounded run over random larger graphs.'),
    'C09': C(level='other', assumptions=['every entry is labelled bounded: sizes of graphs are enumerated', 'values after extraction are judged by the ONNX reference evaluator in the bounded run'],
             rule='random graphs and edits, rewritten node lists and evaluation of extracted models; distinct cases counted',
             explanation='contracts on skipping, removing, fusing, extracting and renaming: node lists, boundaries, graph inputs and outputs and relations after the edit, discharged for every wiring of the listed sizes; '
                         'random larger graphs, and evaluation of extracted models and compute graphs, in a bounded run',
             note='Every wiring of graphs of 2-4 (thorough 5) nodes, every edit position and group, all labelled bounded; plus a bounded run over random larger graphs that evaluates the edited models.'),
    'C12': C(assumptions=['floating-point arithmetic of quantize is treated as exact real arithmetic (the bounded run judges float32/float16 with a rounding allowance)',
                          'numpy min/max of a non-empty region is a bound of its elements and one of them', 'numpy.ndindex enumerates every index once',
                          'the protobuf encoder is replaced by a no-op in the symbolic graph contracts (it is judged by the bounded run and by C11)', A_LIST],
             rule='random weights, granularities, block sizes and bit widths, random graphs; distinct cases counted',
             explanation='codes, scales and zero points of an arbitrary element are compared with the real-number definition for symbolic shape, bit width and block size; '
                         'graph_quantize is checked against the contracts of quantize and pack_4bits',
             note='Proof over all matrix shapes, weights (as reals), bit widths from 2, block sizes and modes; the graph rewriting over listed small graphs with weights of any shape (labelled bounded).'),
    'C18': C(level='other', assumptions=['value computations of the folded operators are those of ONNX (C05)', 'every entry is labelled bounded: sizes of graphs are enumerated'],
             rule='random models with random parts constant, folded, saved and evaluated with onnx.reference; distinct models counted',
             explanation='contracts on loading with folding and on the folded file, discharged for every wiring, choice of graph outputs and file order of the listed sizes (wiring and order are symbolic and split by '
                         'the verifier): remaining nodes, constants and their values, inputs, outputs, relations, neighbours; nested graphs; every attribute form of a Constant node',
             note='Every wiring and file order of graphs of 2-4 nodes with constants of listed values, all labelled bounded; a bounded run folds random larger models and compares what they compute.'),
    'C17': C(assumptions=['float32/float64 ratios are treated as exact real numbers', 'numpy reshape / comparison / sum count the equal elements of contiguous blocks as documented', A_INT],
             rule='random block-sparse arrays and models with several weights; distinct zero patterns counted',
             explanation='the number of all-zero blocks of a given extent is an uninterpreted function of the array; the reported fraction must be that number over the number of blocks, for symbolic extents',
             note='Element fractions proved for every extent and type; the doubling search is unrolled: extents whose power-of-two factor is below 8 (quick) or 32 (thorough), labelled bounded. '
                  'A bounded run over loaded models and their printed tables accompanies it.'),
    'C13': C(assumptions=[A_INT, A_LIST, 'strings and array contents are opaque byte strings (no NUL inside strings); float32 packing of a real is its own field',
                          'numpy tobytes yields the elements in C order'],
             rule='random graphs with every attribute and constant kind, regressed engines and memory plans, decoded by an independent reader; distinct graphs counted',
             explanation='number of nodes, connections, attributes, list values, constants, variables, extents and blocks symbolic; the bytes that reach the file equal the format written down independently',
             note='Proof for any number of nodes, connections, attributes, values and constants, one contract per attribute kind and element type (kinds not mixed within one graph). '
                  'That the format decodes uniquely follows from its counts and terminators; the bounded run decodes real files to the last byte.'),
    'C10': C(assumptions=[A_INT, 'the liveness list per executed node (which activations are stored while it runs) is judged on listed and random graphs',
                          'tensors have distinct names'],
             rule='random graphs, sizes, alignments and edited graphs; distinct cases counted',
             explanation='invariant of the placement loop: from any block list of up to the stated number of blocks (any sizes, any free/dead/alive pattern) that satisfies it, one more '
                         'executed node keeps it; plus whole plans of every lifetime pattern of small graphs with symbolic sizes; memory size of a tensor for every type and rank',
             note='Memory size proved for every shape and type. The placement loop is proved by its invariant for any number of executed nodes, any sizes, up to 4 (thorough 5) blocks at a time '
                  '(labelled bounded); whole plans for every lifetime pattern of up to 3 (thorough 4) nodes. A bounded run over random and edited graphs accompanies it.'),
    'C14': C(assumptions=[A_INT, 'float64 quotients of extents are exact real numbers (extents below 2**53)', 'shape inference gives every tensor its true shape (C03, C05); shape_regress is checked against that contract',
                          'Python round / ceil / floor follow their definitions'],
             rule='random models with dimension variables and run-time shape computations at sampled assignments; distinct models counted',
             explanation='fitting proved exact for every slope, offset, range and value; an expression that meets the three samples is proved exact on the whole range for listed pairs of slopes; '
                         'shape_regress on listed dataflows with symbolic offsets, ranges and assignments',
             note='Proof over all offsets, ranges and assignments; slopes symbolic for direct fits and enumerated for derived ones, dataflows of up to three tensors enumerated (labelled bounded). '
                  'A bounded run of random dynamic models through real shape inference accompanies it.'),
    'C15': C(assumptions=['floating-point arithmetic treated as exact real arithmetic', 'a convolution is linear in its weight and bias (ONNX definition), so scaling both is scaling its output',
                          'encoding a constant as a protobuf keeps its value (C11)'],
             rule='random graphs and pattern descriptions, convolution / normalisation models evaluated with onnx.reference; distinct cases counted',
             explanation='conditions on symbolic attribute values; search results judged against the description on every wiring of small graphs; folded weights and biases proved for all element values',
             note='Pattern search is proved sound, disjoint and complete for the listed descriptions on every wiring of graphs of up to four nodes (labelled bounded); folding for all weights, statistics and '
                  'epsilon at listed weight shapes and graph shapes. A bounded run of random graphs, descriptions and models accompanies it.'),
    'C11': C(assumptions=[A_INT, 'a protobuf message returns the fields it was given; onnx.helper.make_tensor stores values in the field of their type and infers attribute kinds from Python values',
                          'numpy fromiter / frombuffer / reshape / tobytes follow their documentation (row-major order); rounding conversions are uninterpreted functions',
                          'stored integers lie in the range of their element type; strings do not end in NUL'],
             rule='random tensors, declarations, operators and models saved and loaded again with protobuf; distinct cases counted',
             explanation='loading and saving of constants with symbolic extents and elements, every element type and storage field; declared extents; attribute values of every operator; '
                         'whole graphs for every wiring of the listed sizes',
             note='Constants proved for every shape of any rank (saving: ranks 0-4) and all values; declarations and attributes for all numbers, list lengths 0-3; graphs on every wiring of 2-4 nodes (labelled bounded). '
                  'A bounded run of random tensors and models, nested graphs included, accompanies it.'),
    'C16': C(assumptions=[A_INT, 'figures of the device and bit widths are treated as exact real numbers', 'the rotation tables are known by their shape in the symbolic reading (values judged by the bounded run)',
                          'protobuf forms of tensors are left out of the symbolic reading (C11)', 'the cost table of fused layers is the documented one (C02)'],
             rule='random configurations of every architecture, build histories, caches, decoding steps, devices, vision towers, saved files and all presets; distinct cases counted',
             explanation='nodes, constants, shapes, attributes, KV figures and per-node costs of the built graph equal the reference for symbolic sizes; the loop over the layers is cut (any number of layers); '
                         'estimates proved for arbitrary node figures and device figures',
             note='Proved for all sizes, lengths and contexts, one contract per architecture and configuration style; structure and KV figures for any number of layers, costs at 1-2 layers (labelled bounded), '
                  'histories of three builds, estimates of 1-3 nodes of every class. A bounded run of random configurations, presets and saved files accompanies it.'),
}
NOT_APPLICABLE = {}
