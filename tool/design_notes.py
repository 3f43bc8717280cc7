"""how each property is decided (text of DESIGN.md, section 2)"""
NOTES = {
"P01": """Session over constructors, Resize, Reshape, Shadow, move and Deserialize; after each the reported
dimensions and element count are compared with the prescribed ones, and every accessor's address term with the layout
polynomial (canonical form, hence for all shapes and coordinates). Oracle: the layout in the statement. Cost < 1 s.""",
"P02": """Ownership typestate over effect summaries: for every operation sequence up to three calls (construct, resize,
shadow, map, move, load, destroy) each allocation or mapping is matched with exactly one release of the same kind, with the
mapping's own address and length; buffers referred to are never released. Exceptional exits included.""",
"P03": """The sequence of stream writes of Serialize and the sequence of reads of every loading mode are extracted as
ordered effect lists (offset, width, destination term) and replayed against each other (`streams.py`): the terms stored in
the fields must be the terms written. Covers header-only and mapped loading for all shapes.""",
"P04": """Order of parameters in GetParameters, SerializeParameters, DeserializeParameters and in the optimiser's state:
partial evaluation over network skeletons of up to five layers with up to three parameters, several insertion orders and all partial-load limits;
the effect order is compared with the definition 'layers in topological insertion order, parameters in layer order'.""",
"P05": """Effect summaries of the tensor operations against `specs/tensor.cpp` for all shapes and indices; refusals
compared as guards.""",
"P06": """For 14 layer types (`layercases.py`): guard under which CreateOutputs / Connect accept, as a function of
all dimensions and settings, compared with the definition's guard (identity testing of the two predicates, with points
concentrated on near-miss shapes), and the shape terms of what is created. Null tensors and wrong counts are enumerated.""",
"P07": """Effect summary of FeedForward (after constructor, CreateOutputs, Connect; TensorMath inlined down to element
loops) against `specs/layers.cpp`. What has to agree is the memory transformer: every element of the outputs, and nothing else.""",
"P08": """As P07 for FeedForward followed by BackPropagate against the chain-rule definitions in `specs/layers.cpp`.
Reaches what gradient tests cannot: non-square maps, groups, strides, padding, every element, parameter gradients overwritten rather than accumulated.""",
"P09": """As P07/P08 for the error layer, in the serial and in the OpenMP configuration.""",
"P10": """GEMM, GEMV, IM2COL, COL2IM, SETSAMPLE, SMS, DOWN, UP, ADD, SUM in the reference build against textbook loops
(`specs/math.cpp`); in the BLAS build the call site's arguments against the same definition given the standard's meaning of cblas_sgemm/sgemv.""",
"P14": """The scenarios of P07, P08, P10, P21 and P23 run on the OpenMP configuration; for every loop under a worksharing directive the access sets
of two different iterations are compared (terms of the locations over the iteration variable, concretised at many points), together with the variables declared outside the directive and not private or reduced.""",
"P15": """Partial evaluation of NetGraph over graph skeletons (fixed ones and generated ones) with layers that only record calls: create/connect/forward/backward
order, once-ness, gradient tensors and accumulation layers, backprop flags. Oracle: `graphs.py`, an independent definition on the skeleton.""",
"P16": """Partial evaluation of Trainer::Train/Epoch over settings skeletons with symbolic gradients, weights and rates: the final term of each
parameter element is compared with the term of the documented rule (all optimisation methods, L1/L2, momentum, QuickProp's first step, local rates).""",
"P17": """Same machinery as P16, observing modes, order of passes, losses and statistics submitted.""",
"P23": """Confusion matrix and binary statistics layers: composition of forward passes, resets and switches; the term submitted for each statistic is compared with its definition over the counts.""",
"P24": """State machine of the statistics aggregator: generated call histories are folded through the summaries of its methods and compared with a small model; trainer and layer statistics and the CSV sink are compared as terms.""",
"P30": """IsComplete folded over graph skeletons and every single defect planted at every place in them, against the definition in the statement.""",
"P19": """Texts are abstract (`texts.py`): literal pieces and numerals of unknown value and unknown length, positions are polynomials over
those lengths, so find/substr/compare/conversion fold for all numbers at once. Parsing functions: generated lists of settings. Descriptors: the pattern the code
matches with is turned into an automaton and compared with the documented language (`regexlang.py`, shortest differing text as witness). Construction: the
object a descriptor yields is compared member by member with one constructed directly from the same symbolic settings.""",
"P20": """Generated network descriptions (plain, pooled, patch, stacks, priors and upscaling, manual fields, settings) with unknown numerals; AddLayers is folded
over each and nodes, connections, settings, receptive field and training settings compared with a model written from the format's documentation (`rules/p20.py`).""",
"P21": """The data set is constructed on two abstract streams whose counts, sizes and pixels are unknown functions; what a sample call writes is compared with
`specs/data.cpp` (image_sample, common_size) at drawn points.""",
"P31": """As P21 with symbolic patch and image sizes; the image a sample falls into is assumed and the code's own search is evaluated under that assumption.
The numbering is decided in addition for every sample of small concrete data sets.""",
"P33": """Histories of feed-forward calls and mode switches on an abstract data set: each sample call, shuffle and random number is a recorded symbol. The fed order is
checked against 'permutation of the training set per epoch, new shuffle each', test order and the final contents of the outputs element by element (`rules/p33.py`).""",
"P32": """Generated descriptions (any order of parts, comments, odd class names, unknown words and weights) are folded through CreateFromConfiguration; class
information, members, opened, mapped and read files are compared with the data set constructed directly from the same settings (`rules/p32.py`).""",
"P34": """Files are abstract (named, with tensors of unknown size and contents); loading and copying are folded over them, what a copy writes is compared with
`specs/data.cpp` (stream_sample, copy_image, copy_class) at drawn points, sequences of copies are composed, and released memory may neither be the target's nor kept by the stream.""",
"P22": """Effect summaries of Colorize for one to six classes and all number styles (ties, all negative) against `specs/data.cpp` (colorized).""",
"P27": """The compressor is folded over sequences of unknown numbers whose bytes are classified (marker X, marker Y, other) and whose runs have given lengths; the byte sequence it writes
(bytes of unknown numbers stay terms `byte(d, i)`) is handed to the decompressor, and what comes back has to be the same terms. All 81 marker patterns of a single number, pairs, every
run length around the limits of the format (all of 1..269 in the thorough tier) and sampled sequences; writes are bounded by the buffers. Bytes compared with any third constant make the answer undecided.""",
"P26": """The conversions are folded with the calls to libpng and libjpeg replaced by a model of what those document (typestate of the handles, rows of unknown samples, scanline counters); each element of the
tensor and each sample handed to the library has to be a function of exactly one sample or element, which is evaluated at every 8 bit level (at selected 16 bit levels). Failure cases are folded one by one; open files, library
objects and buffers are counted at the end of each. Names are literal texts with every ending.""",
"P29": """parseCommand is folded for every command text (literal words, unknown digits) with both numbers of networks and with files that open or do not; the calls it makes on networks, trainers,
statistics and files are recorded together with the state at that moment (recording or not, view on or off, epoch, which parameters are shared) and compared with the documented sequence.""",
"P18": """main of the tool is folded with literal arguments for every size of a set that covers all residues modulo eight; pixels are unknown, the factory, data set and net are objects that record what they are
handed. At the moment the net is evaluated every element of its input and of the spatial prior is compared with its definition, and every element of the picture that is written with that of the colourised output; every write into
a buffer is compared with the buffer's size.""",
"P28": """main of both tools is folded with literal arguments over lists of zero to several pairs; pixels of pictures are unknown, those of labels are the colours of the classes, their neighbours in each channel, and others. What is serialised is
recorded at that moment: order and file, shape, and every element compared with its definition. Labels and pictures of one to four maps, equal and different sizes, every file failure and argument count one by one.""",
"P25": """main of the tool is folded with literal arguments for both kinds of training. Factories, data sets, graphs, layers, trainers and the aggregator are objects that record what they are constructed with and which calls they get in which state
(typestate: layers before initialisation before weights, parameters and trainers after initialisation, nothing that registers statistics after their set-up). At the first command everything the commands work on is compared with the definition;
scripts and typed lines are streams of known lines, with and without a final newline.""",
"P35": """main of both tools is folded with literal arguments over streams of one to five tensors of unknown contents (positions and end-of-file of every stream are modelled); every tensor that is written is compared element by element
with the one that was read. Opening the file for writing before its tensors were read, reading past the end and head-only reads that are written are found as such.""",
}
