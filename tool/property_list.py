NET = "src/net/"
TXT = "partial evaluation of the typed AST over texts with unknown numerals (string domain with symbolic lengths)"
P("P01", "Tensor elements live at their documented, distinct addresses",
  "Element (x, y, map, sample) of a tensor is stored at position ((sample*maps+map)*height+y)*width+x, whichever accessor is used. "
  "The reported element count is samples*width*height*maps after every construction, resize, reshape, shadow, move or load, and a reshape succeeds exactly when the element count is unchanged.",
  ["inputs", "histories"], "all shapes, coordinates and sequences of shape-changing calls",
  "Tests touch a handful of shapes through layers; they never compare accessors for all coordinates nor follow the shape fields through every operation.",
  ["include/cn24/util/Tensor.h", "src/util/Tensor.cpp"],
  [("Offset / data_ptr / data_ptr_const / operator[] / operator()", "include/cn24/util/Tensor.h"), ("Resize, Reshape, Shadow, move constructor", "src/util/Tensor.cpp")])
P("P02", "Tensor memory is released exactly once, by its owner, in the right way",
  "Whatever sequence of construction, resize, shadowing, moving, mapping and destruction a tensor goes through, each buffer is released exactly once and by the mechanism that obtained it (heap or file mapping, with the mapping's own address and length). "
  "A tensor that only refers to another tensor's buffer never releases it, and moving transfers every bit of ownership state.",
  ["histories"], "all sequences of tensor operations",
  "Leaks, double releases and releases through the wrong mechanism stay invisible to the value-based tests; no test maps files, moves or shadows tensors explicitly.",
  ["src/util/Tensor.cpp", "include/cn24/util/Tensor.h", "src/util/CompressedTensor.cpp"],
  [("Tensor::DeleteIfPossible, Resize, Shadow, move constructor, Deserialize", "src/util/Tensor.cpp"), ("CompressedTensor::DeleteIfPossible, Resize", "src/util/CompressedTensor.cpp")], tech=PATH)
P("P03", "Binary tensor files are read back exactly as they were written",
  "Reading a serialized tensor or compressed tensor consumes the same sequence of fields, in the same order, width and meaning, as writing produced. "
  "Header-only reading yields the same dimensions and leaves the stream right behind the payload, and the payload has exactly the size the header implies.",
  ["inputs"], "all tensor shapes, contents and loading modes",
  "No existing test serializes anything; agreement between writer and readers has to hold for every shape and for each loading mode.",
  ["src/util/Tensor.cpp", "src/util/CompressedTensor.cpp"],
  [("Tensor::Serialize / Deserialize", "src/util/Tensor.cpp"), ("CompressedTensor::Serialize / Deserialize", "src/util/CompressedTensor.cpp")])
P("P04", "Model parameters are saved, loaded and optimised in one consistent order",
  "Saving a network writes every parameter of every layer once, and loading reads them back into the same parameters in the same order; a partial load stops after the requested layer. "
  "The optimiser's per-parameter state is matched to parameters in that same order.",
  ["programs", "histories"], "all networks, all numbers of parameters per layer, all partial-load limits",
  "No test saves or loads a model or trains; the agreement is between separately written loops over layers and parameters.",
  ["src/net/NetGraph.cpp", "src/net/Trainer.cpp"],
  [("GetParameters / SerializeParameters / DeserializeParameters", "src/net/NetGraph.cpp"), ("Trainer constructor, Epoch, ApplyGradients", "src/net/Trainer.cpp")])
P("P05", "Tensor copies, clears, transposes and maxima compute what they promise",
  "Copying a map or sample reproduces every source value at the same coordinates, pads a larger target with zeros, leaves the rest of the target alone and refuses impossible requests; clearing, transposing and copy construction have their exact element-wise meaning. "
  "Each maximum query returns the position of the (first) largest value.",
  ["inputs"], "all shapes, sample/map indices and contents",
  "No test calls these operations directly; they are used by data sets and tools outside the tested code.",
  ["src/util/Tensor.cpp"], [("CopySample, CopyMap, Clear, Transpose, Maximum, AbsMaximum, PixelMaximum", "src/util/Tensor.cpp")])
P("P06", "Layers announce the right output shapes and refuse mismatched tensors",
  "For every input shape a layer accepts, it creates outputs whose shape is the one its definition prescribes for its configuration. "
  "Inputs or outputs whose number or shape contradicts that definition are refused instead of being connected.",
  ["inputs", "configurations"], "all layer types, configurations and input/output shapes",
  "The layer tests use one 9x6x3x2 shape and correct outputs only; wrong shapes are never offered to a layer.",
  ["src/net/"], [("CreateOutputs / Connect of every layer", "src/net/*.cpp")])
P("P07", "Each layer's forward pass computes exactly its mathematical definition",
  "Pooling, convolution, resizing, scaling, summation, concatenation, gradient accumulation, spatial prior, normalisation and activation layers produce, for every output element, the value their definition prescribes from inputs and parameters, in both training and testing mode. "
  "Inputs and parameters are left unchanged.",
  ["inputs", "configurations"], "all shapes, kernel/region/stride/padding/group settings and contents",
  "The tests check gradients for consistency on one small shape, never forward values, and skip concatenation, sum, upscale, down-sampling, prior and normalisation layers.",
  ["src/net/", "src/math/TensorMath.cpp"], [("FeedForward of every layer", "src/net/*.cpp"), ("IM2COL, GEMM, SMS, UP, DOWN, ADD", "src/math/TensorMath.cpp")],
  note="Static comparison of effect summaries over exact arithmetic: canonical form first, identity testing of the extracted terms where forms differ. Rounding is outside.")
P("P08", "Each layer's backward pass is the adjoint of its forward pass",
  "After a forward pass, back-propagation assigns to every input element the chain-rule gradient of the layer's definition, and to every parameter element the sum over all samples and positions of its chain-rule gradient, overwriting whatever was there. "
  "Output gradients and parameters are left unchanged. The softmax layer, which is given the gradient of its loss with respect to its own input, passes it on.",
  ["inputs", "configurations"], "all shapes, settings, contents and output gradients",
  "Gradient tests sample random points at a single shape with a tolerance and cover a minority of the layer types.",
  ["src/net/", "src/math/TensorMath.cpp"], [("BackPropagate of every layer", "src/net/*.cpp"), ("COL2IM, GEMM, GEMV, SMS", "src/math/TensorMath.cpp")],
  note="Static comparison of effect summaries over exact arithmetic: canonical form first, identity testing of the extracted terms where forms differ. Rounding is outside.")
P("P09", "The error layer computes the weighted squared error and its exact gradient",
  "After a forward pass the error layer's input gradient holds, for every element, prediction minus label times the weight of its position, weight indices following the weight tensor's own shape; only the gradient towards the prediction is written. "
  "The reported loss is the sum over all elements of half the weighted squared difference.",
  ["inputs"], "all shapes, contents, weights and loss-weighting factors",
  "The tests never run the error layer.",
  ["src/net/ErrorLayer.cpp", "include/cn24/net/LossFunctionLayer.h"], [("FeedForward, BackPropagate, CalculateLossFunction", "src/net/ErrorLayer.cpp")])
P("P10", "Linear algebra and unfolding routines equal their definitions in every build",
  "Matrix product, matrix-vector product, window unfolding and folding, scaling, sample/map exchange, sum and fill write exactly the values of their textbook definition to exactly the elements of their target, for every transposition flag, leading dimension, increment, sample offset and factor. "
  "With BLAS enabled the library call receives exactly the operands the reference code would use, and operands that do not fit together are refused.",
  ["inputs", "configurations"], "all operand shapes, flags and contents; builds with and without BLAS",
  "Tests use these routines through a few layers at one shape, with one combination of flags and in one build.",
  ["src/math/TensorMath.cpp"], [("GEMM, GEMV, IM2COL, COL2IM, SMS, DOWN, UP, ADD, SETSAMPLE", "src/math/TensorMath.cpp")])
P("P23", "Reported recognition statistics equal their definitions",
  "After any sequence of forward passes, resets and switching collection on or off, the confusion matrix layer submits overall recognition rate, average recognition rate and average intersection over union, and the binary statistics layer submits F1, precision, recall, false positive and negative rate and accuracy at the threshold of best F1, exactly as defined over the weighted pixels of the passes collected since the last reset. "
  "Pixels outside those passes do not count, and rates that are undefined are not submitted; nothing is submitted before any pixel was counted.",
  ["inputs", "histories"], "all predictions, labels, weights, class counts, thresholds and sequences of passes, resets and switches",
  "The tests never run the statistics layers.",
  ["src/net/ConfusionMatrixLayer.cpp", "src/net/BinaryStatLayer.cpp"],
  [("FeedForward, UpdateAll, Reset, Connect", "src/net/ConfusionMatrixLayer.cpp"), ("FeedForward, UpdateAll, Reset, BinaryStatLayer", "src/net/BinaryStatLayer.cpp")])
P("P14", "Parallel loops give the same result for every thread count and schedule",
  "In the OpenMP build, the iterations of every loop that a worksharing directive distributes are independent of each other: no iteration reads or writes a memory location, or a variable shared between the threads, that a different iteration writes, so the result is the one of the serial loop whatever the number of threads and the schedule. "
  "Variables that carry a value within an iteration are private to it, and accumulations over iterations are declared as reductions.",
  ["inputs", "schedules"], "all thread counts, schedules, tensor sizes, layer parameters and values of the tensor operations and layers with OpenMP directives",
  "The tests are built without OpenMP, and a race shows only under some schedules.",
  ["src/math/TensorMath.cpp", "src/net/LocalResponseNormalizationLayer.cpp", "src/net/AdvancedMaxPoolingLayer.cpp", "src/net/MaxPoolingLayer.cpp", "src/net/ConcatenationLayer.cpp", "src/net/SpatialPriorLayer.cpp", "src/net/BinaryStatLayer.cpp", "src/net/ResizeLayer.cpp", "src/net/GradientAccumulationLayer.cpp"],
  [("IM2COL, COL2IM, ADD, SMS, DOWN, UP", "src/math/TensorMath.cpp"), ("FeedForward, BackPropagate", "src/net/LocalResponseNormalizationLayer.cpp"), ("FeedForward", "src/net/BinaryStatLayer.cpp")])
P("P15", "A network runs its layers in dependency order, each exactly once",
  "Initialising a graph creates and connects every layer once, after the layers it reads from and with the tensors of its connections in order; refusing layers and wrong output counts end in an exception. "
  "A forward pass runs each layer once after all its sources, a backward pass runs each once after all consumers it receives gradients from and tells it whether any of its own sources needs gradients; input nodes receive none. "
  "A layer whose output has several gradient-carrying consumers gets the sum of their gradients through a gradient accumulation layer; weight initialisation, aggregate loss and switching of statistics reach exactly the layers concerned.",
  ["inputs", "histories"], "all acyclic graphs, insertion orders, connection lists with and without gradients, repeated and partial passes",
  "The tests build linear graphs of at most a few layers, never fan-out, shuffled insertion or partial passes.",
  ["src/net/NetGraph.cpp", "include/cn24/net/NetGraph.h", "include/cn24/net/NetGraphNode.h"],
  [("AddNode, Initialize, InitializeNode, FeedForward, BackPropagate, InitializeWeights, AggregateLoss, SetStatLayersEnabled", "src/net/NetGraph.cpp")],
  tech=PE, note="Partial evaluation of the graph code over bounded shapes (fixed and generated, up to nine nodes) with an abstract layer interface; not a proof for all shapes.")
P("P16", "Training changes every parameter exactly by the configured optimisation rule",
  "Each iteration adds up the gradients of all its batches for every parameter element and then moves that element once: the gradient is averaged over batches and pixels, scaled with the loss sampling probability, extended by L1 and L2 regularisation and multiplied with the layer's learning rate; gradient descent subtracts annealed learning rate times that plus momentum times the previous step, QuickProp takes its documented step. "
  "The learning rate is annealed by the number of iterations since epoch zero; previous steps and gradients belong to the same element of the same parameter and are forgotten on a reset.",
  ["inputs", "configurations", "histories"], "all parameter contents, gradients, settings and sequences of epochs, resets and epoch changes",
  "No test trains a network; the rule has to hold for every parameter, iteration and setting.",
  ["src/net/Trainer.cpp", "include/cn24/net/Trainer.h"],
  [("Trainer, Epoch, ApplyGradients", "src/net/Trainer.cpp"), ("Reset, SetEpoch, CalculateLR", "include/cn24/net/Trainer.h")], tech=PE,
  note="Partial evaluation of the trainer over bounded networks and iteration counts; resulting parameter values compared with the rule by identity testing. Rounding is outside.")
P("P17", "Training and testing keep modes, passes and reported losses straight",
  "An epoch runs the configured number of iterations (or the training set's size) times its ratio, each of the configured batches being fed forward, measured and backpropagated once with network and training layers in training mode; a test covers the test set (times its ratio) with forward passes in testing mode only, changes no parameter and leaves training layers in training mode. "
  "The aggregate loss submitted per iteration is the sum over all loss layers and batches divided by the sampled pixels; statistics layers follow the setting during training, are enabled afterwards and submit once per epoch or test; epoch, iteration and weight counters and snapshots advance exactly as training does. Networks that cannot be trained are refused.",
  ["configurations", "histories"], "all settings, numbers of loss, statistics and training layers, data set sizes and sequences of training and testing",
  "No test constructs a trainer.",
  ["src/net/Trainer.cpp"], [("Trainer, Train, Test, Epoch", "src/net/Trainer.cpp")], tech=PE,
  note="Partial evaluation of the trainer over bounded networks, settings and data set sizes with abstract layers.")
P("P30", "The completeness check accepts exactly the networks that can run",
  "A network whose nodes all have a layer, a name and connections to existing outputs of nodes of the same network, which has at least one input and one output and no node that is both, is reported complete, whether or not it was initialised already. "
  "A network with any single one of those defects, anywhere in it, is reported incomplete instead of crashing or being accepted.",
  ["inputs"], "all acyclic networks and every single defect at every node and connection",
  "No test asks whether a network is complete; the answer depends on every node and connection.",
  ["src/net/NetGraph.cpp"], [("IsComplete", "src/net/NetGraph.cpp")], tech=PE,
  note="Partial evaluation of the check over bounded networks with each defect planted at every place.")
P("P24", "Statistics reach the sinks exactly as recorded",
  "In every history of start, stop, update, snapshot, report and reset calls, a report hands every sink all statistics, in order of registration, each computed from exactly the updates made while recording since the last reset, together with the recorded time, iterations, weights, epoch and mode; updates outside recording, unknown statistics and calls not allowed in the current state have no effect. "
  "The trainer's and the statistics layers' values have their documented meaning (average per iteration, percentage, rate per second, last value) and are missing when nothing was measured. "
  "The CSV file has one header and one complete flushed line per report with the same columns, and nothing is written when it cannot be opened.",
  ["histories"], "all histories of calls, numbers of statistics and sinks, and update values",
  "The tests never use statistics or sinks.",
  ["src/util/StatAggregator.cpp", "src/util/CSVStatSink.cpp", "src/net/Trainer.cpp", "src/net/ConfusionMatrixLayer.cpp", "src/net/BinaryStatLayer.cpp"],
  [("RegisterStat, Initialize, Update, Generate, Reset, StartRecording, StopRecording, Snapshot, SetCurrentExperiment", "src/util/StatAggregator.cpp"), ("SetCurrentExperiment, Process", "src/util/CSVStatSink.cpp"), ("InitializeStats", "src/net/Trainer.cpp")],
  tech=PE, note="Partial evaluation of generated bounded histories with abstract statistics and sinks, compared with a model of the documented protocol.")
P("P19", "Configuration strings reach exactly the settings they name",
  "From a list of key=value settings each reader takes exactly the value given for its key, whatever the order and the other settings, and leaves its target alone when the key is missing. "
  "Accepted layer descriptors are exactly type, type() and type(key=value key=value ...); type, configuration and seed injection work on exactly those parts. "
  "A layer constructed from a descriptor equals one constructed directly with the same settings (defaults where a key is missing), remembers its configuration, and unknown or malformed descriptors yield no layer.",
  ["inputs", "configurations"], "all layer types, keys, orders and numbers",
  "The tests check a dozen literal descriptors and never compare the settings of constructed layers.",
  ["src/net/LayerFactory.cpp", "src/util/ConfigParsing.cpp", "src/net/"],
  [("IsValidDescriptor, ExtractConfiguration, ExtractLayerType, InjectSeed, ConstructLayer", "src/net/LayerFactory.cpp"), ("Parse*IfPossible", "src/util/ConfigParsing.cpp"), ("constructors taking a configuration string", "src/net/*.cpp")],
  tech=TXT, note="Partial evaluation over texts with a generated skeleton and unknown numerals; the descriptor language is decided for all texts by comparing automata.")
P("P20", "A network description creates exactly the network it describes",
  "For every network description the factory creates exactly the described layers with the described settings and defaults, in order, each connected to the outputs the description (with its stacks a and b, spatial priors and upscaling) names, with output layers and loss layers where described. "
  "The receptive field and patch size follow from the layers (or the manual line), layers with random weights get distinct seeds drawn from the factory's seed, and the training settings are those of the description.",
  ["inputs", "programs", "configurations"], "all descriptions: layer sequences, settings, orders of keys, numbers of classes, patch and fully convolutional mode",
  "The tests never parse a network description.",
  ["src/factory/ConfigurableFactory.cpp"],
  [("ConfigurableFactory, AddLayers, InitOptimalSettings", "src/factory/ConfigurableFactory.cpp")],
  tech=TXT, note="Partial evaluation over generated descriptions of up to twelve lines in which every number is unknown, compared with an independent model.")
P("P21", "A data set of whole images hands out what its streams contain",
  "For every pair of tensor streams, sample i is image 2i and label 2i+1 of its own stream, a stream with an odd number of tensors is refused, and a sample that does not exist is refused. "
  "The common size is the largest image of both streams rounded up to a multiple of 64; every image pixel carries its relative position and its localised error times the weight of its label class, padding carries zero position and weight.",
  ["inputs"], "all numbers of tensors, image sizes, contents, class weights, error functions and sample numbers",
  "No test constructs this data set.",
  ["src/util/TensorStreamDataset.cpp"], [("TensorStreamDataset, GetTrainingSample, GetTestingSample, GetWidth, GetHeight, GetTrainingSamples", "src/util/TensorStreamDataset.cpp")],
  note="Streams are abstract: their sizes and contents are unknown functions.")
P("P31", "A data set of patches hands out every patch of every image once",
  "For every pair of streams of images and labels, the samples are exactly the patches of all images of that stream, each once, in order: data are the patch, the label is that of its centre pixel, position and localised error are those of the patch, and the weight that of its class. "
  "The numbers of samples and the sizes reported follow, and a sample that does not exist is refused.",
  ["inputs"], "all image and patch sizes (patches no larger than images), contents, weights and sample numbers",
  "No test constructs this data set; testing samples depend on the training images before them.",
  ["src/util/TensorStreamPatchDataset.cpp"], [("TensorStreamPatchDataset, GetTrainingSample, GetTestingSample, GetTrainingSamples, GetTestingSamples", "src/util/TensorStreamPatchDataset.cpp")],
  note="Image and patch sizes are symbolic for up to three images; in addition every sample of small concrete data sets.")
P("P33", "Training sees every sample once per epoch, testing all of them in order",
  "The data set input layer feeds every training sample exactly once per epoch, in a new random order each epoch, across batch borders and undisturbed by tests in between; entering testing mode feeds the testing samples from the first one in order and gives whatever fills the last batch no weight. "
  "With whole images, in training only, each 12 x 12 block keeps its weights exactly if its own random number is within the sampling probability. Outputs have the sizes the data set needs, nothing else is changed, and a sample that cannot be loaded ends the program.",
  ["inputs", "histories", "configurations"], "all numbers of samples, batch sizes, image sizes, probabilities and sequences of training and testing",
  "No test constructs this layer.",
  ["src/net/DatasetInputLayer.cpp"], [("DatasetInputLayer, FeedForward, SetTestingMode, CreateOutputs, Connect", "src/net/DatasetInputLayer.cpp")], tech=PE,
  note="Partial evaluation of bounded histories on an abstract data set; random numbers and shuffles are unknown.")
P("P32", "A data set description yields the data set it describes",
  "For every description, in any order of its parts and with comments and blank lines between them, the data set has exactly the class names, colours and weights (one where no weights are given), the localised error function and the training and testing files it names, each file mapped from itself unless forbidden, "
  "and loads only what the caller selected. Invalid colours, missing class information and files that cannot be opened are refused.",
  ["inputs", "configurations"], "all descriptions: orders, class numbers, names, colours, weights, files and load selections",
  "No test reads a data set description.",
  ["src/util/TensorStreamDataset.cpp", "src/util/TensorStreamPatchDataset.cpp"],
  [("CreateFromConfiguration", "src/util/TensorStreamDataset.cpp"), ("CreateFromConfiguration", "src/util/TensorStreamPatchDataset.cpp")], tech=TXT,
  note="Partial evaluation over generated descriptions with unknown names, weights and files; the result is compared member by member with one constructed directly.")
P("P34", "A tensor stream hands out the tensors of its files",
  "Loading a file tells compressed tensors, plain tensors and lists of images apart by their documented marks; the number and sizes of tensors are those in the file. "
  "Copying a sample gives exactly its values, padded with zeros up to the size of the target, in whatever order samples are copied; a sample that does not exist or does not fit is refused and nothing outside the target sample is written. "
  "Label images become the distance from the class colour (one class) or one map per class with a one where the pixel has its colour.",
  ["inputs", "histories"], "all files, numbers and sizes of tensors, images, colours, targets and orders of copying",
  "The tests write no file of tensors and load no list of images.",
  ["src/util/TensorStream.cpp", "src/util/FloatTensorStream.cpp", "src/util/CompressedTensorStream.cpp", "src/util/ListTensorStream.cpp"],
  [("FromFile", "src/util/TensorStream.cpp"), ("LoadFile, CopySample", "src/util/FloatTensorStream.cpp"), ("LoadFile, CopySample", "src/util/CompressedTensorStream.cpp"), ("LoadFiles, CopySample", "src/util/ListTensorStream.cpp")],
  note="Files are abstract: sizes and contents are unknown, the decompression is a function of the contents (decided elsewhere).")
P("P27", "Compressing a tensor and decompressing it gives the same tensor",
  "For every tensor, whatever bit patterns its numbers have (also where they look like the format's own markers) and however long its runs of equal numbers are, compressing and decompressing returns the same shape and the same numbers (a negative zero equal to its neighbours may become a zero), never writing outside the buffers, "
  "into its own or into given memory. Streams in the documented format (doubled markers, packed runs of up to 255 numbers) written by other versions are unpacked as well.",
  ["inputs"], "all tensors: values, bytes equal to markers in every combination, run lengths and sequences of runs",
  "The test compresses a few random and constant tensors; a marker byte inside a float and a run of exactly the maximal length never occur in them.",
  ["src/util/CompressedTensor.cpp"], [("CompressData, DecompressData, Compress, Decompress", "src/util/CompressedTensor.cpp")], tech=PE,
  note="Partial evaluation with the bytes of every number unknown; each byte is one of the markers or neither. Run lengths are enumerated, sequences of several runs sampled.")
P("P25", "The training tool sets up nets, data and trainers and then runs the commands",
  "For fully convolutional training one net is fed from the whole data set in the configured batch size. For patchwise training the training net is fed with training patches of the net's receptive field, and a separate testing net, built for testing, fed with whole test images one by one, has the same parameters and gradients. "
  "Every output has statistics over output, labels and weights (binary ones for one class, a confusion matrix with the class names otherwise); nets are initialised, weights drawn and the statistics with both sinks set up before the first command; the trainers have the configured settings. The lines of the script, or those typed, run in order until quit or the end. "
  "A gradient check runs no command and tests the net on the first samples in tensors of the right shape. Missing arguments and files, incomplete nets and missing samples end the tool before any command.",
  ["inputs", "configurations"], "both kinds of training, numbers of classes, scripts, typed commands and gradient check; settings unknown",
  "No test runs the tool.",
  ["tools/trainNetwork.cpp"], [("main", "tools/trainNetwork.cpp"), ("addStatLayers", "tools/trainNetwork.cpp")], tech=PE,
  note="Factories, data sets, graphs, trainers and statistics are abstract objects that record the calls and the state these meet.")
P("P26", "Image files become tensors pixel by pixel and are written back alike",
  "Reading a PNG (8 or 16 bits, one to four channels) or JPEG file gives a tensor of the image's size in which every element is its pixel's sample as a share of the largest sample; writing a tensor of three maps gives an image of its size with the matching levels, so that an image read and written keeps its pixels. "
  "The ending of its name decides the format of a file (png, jpg, jpeg, Tensor). What cannot be opened, read or represented (palettes, other depths, wrong numbers of maps) is refused, the tensor stays as it was, and buffers, files and library objects are released exactly once on every path.",
  ["inputs", "configurations"], "all pixels, sizes, channel numbers, bit depths, file names and failures",
  "No test reads or writes an image.",
  ["src/util/PNGUtil.cpp", "src/util/JPGUtil.cpp", "src/util/Tensor.cpp"],
  [("LoadFromStream, WriteToStream", "src/util/PNGUtil.cpp"), ("LoadFromFile, WriteToFile", "src/util/JPGUtil.cpp"), ("LoadFromFile, WriteToFile", "src/util/Tensor.cpp")], tech=PE,
  note="Partial evaluation for a set of image sizes with arbitrary samples; libpng and libjpeg are abstract (calls, their order and what they are handed are checked).")
P("P18", "The classification tool feeds the picture and writes its segmentation",
  "For every picture the net is fed the picture's pixels padded with zeros to multiples of eight and, as spatial prior, each pixel's coordinates as a share of the picture's width and height (zero in the padding), in tensors that are never written outside their bounds. "
  "The net is built from its file for the data set's classes, not for training; it is initialised, then given the parameters of the file, then evaluated once as in testing; the picture of its output, cropped to the size of the original, is what is written. Files that cannot be opened, incomplete nets and missing arguments end the tool without a picture.",
  ["inputs", "configurations"], "all pictures and sizes, file failures",
  "No test runs the tool.",
  ["tools/classifyImage.cpp"], [("main", "tools/classifyImage.cpp")], tech=PE,
  note="Partial evaluation for enumerated sizes (two pixels and more) with arbitrary pixels; net, factory and data set are abstract.")
P("P28", "Lists of pictures and label pictures become tensor streams by class colours",
  "For each pair of lines, in order, the image's tensor is written and then a label tensor of the same size. With several classes a pixel has one in the map of each class whose colour it shows and zero elsewhere; with one class, 1 - 2d where d is the distance to the class's colour as a share of the largest distance; grey labels count as three equal channels; where the labels are the colours themselves these are copied. "
  "Pairs of different size are left out without shifting the rest; the compressed stream starts with its magic number. Missing arguments, files that cannot be opened and labels with an unsupported number of channels end the tool without a tensor for them.",
  ["inputs", "configurations"], "all pixels, colours and sizes, zero to several pairs, one to several classes, both tools",
  "No test runs the tools.",
  ["tools/makeTensorStream.cpp", "tools/makeCompressedTensorStream.cpp"], [("main", "tools/makeTensorStream.cpp"), ("main", "tools/makeCompressedTensorStream.cpp")], tech=PE,
  note="Pictures and the data set are abstract objects of unknown contents; files are modelled by name.")
P("P29", "The training tool's commands do exactly what they stand for",
  "train, test, load, save, set epoch, set experiment, reset, graph, tstat, help and quit each lead to their calls once, on the right network and trainer, with the numbers and names given in any order, and to nothing else. Statistics are recorded during training and testing only, are written before they are cleared, and are cleared after. "
  "Testing takes place in the current training epoch; a separate testing network has the parameters of the training network again after every load and reset; views are switched off afterwards. Missing names, files that cannot be opened and unknown commands change nothing and do not end the tool.",
  ["inputs", "history", "configurations"], "all commands with their parameters (numbers unknown), file failures, one or two networks",
  "No test runs the tool.",
  ["tools/trainNetwork.cpp"], [("parseCommand", "tools/trainNetwork.cpp")], tech=PE,
  note="Networks, trainers and statistics are abstract objects that record the calls and the state these meet; commands are texts with unknown digits.")
P("P35", "Tools that copy tensor streams keep every tensor, in order",
  "The compression tool writes the magic number and then every tensor of the stream it reads, compressed, in order, whatever its size and however well it compresses. The stream tool leaves the first n tensors in a stream that has more, unchanged and in order, having read them before it overwrites the file, and leaves any other stream alone. Missing arguments and files that cannot be opened end the tools without a tensor.",
  ["inputs", "configurations"], "streams of one to several tensors of any contents, all counts to keep",
  "No test runs the tools.",
  ["tools/compressTensorStream.cpp", "tools/tensorStreamTool.cpp"], [("main", "tools/compressTensorStream.cpp"), ("main", "tools/tensorStreamTool.cpp")], tech=PE,
  note="Reading, writing and compressing single tensors is decided in P03 and P27; an empty input stream is left out.")
P("P22", "The picture of an output shows the colour of the strongest class",
  "For every output tensor, each pixel of the colourised picture has the colour of the class whose output is largest (also if all outputs are negative); with a single class it has that class's colour scaled by the output. The picture has three maps of the output's size.",
  ["inputs", "configurations"], "all outputs, sizes, numbers of classes and colours",
  "No test colourises an output.",
  ["src/util/Colorize.cpp"], [("Dataset::Colorize", "src/util/Colorize.cpp")])
