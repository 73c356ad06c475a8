def define(prop, S, G, L, T, BOUNDED):
    prop("C01", "Every convolution algorithm computes the ONNX convolution",
         "For every 2-D convolution the generator accepts (group 1, square strides and dilations, any kernel size, explicit or 'same'/'valid' "
         "padding, with or without bias and following activation), the generated C code and the Python reference both compute the ONNX Conv "
         "result, whichever selectable algorithm (6loops, im2col/im2row GEMM nn/nt/tn/tt, indirect GEMM, direct_block, specialised 1x1 and "
         "Winograd kernels) is used.",
         ["inputs", "configurations", "programs"],
         "all channel counts, image sizes, kernels, strides, dilations, pads, weights, biases, inputs, and all registered Conv2D implementations",
         "tests run a few random shapes per algorithm with stride 1 and compare the C program to the Python reference, so errors common to "
         "both, or confined to other geometry/algorithm combinations, pass",
         [L + "convolution/", T + "layers/Conv/", S + "importers/ONNX_importer/create_layer.py", S + "ir/layer.py"],
         [("per-algorithm templates", T + "layers/Conv/*.tpl"), ("padding arithmetic", S + "ir/layer.py"), ("python reference", L + "convolution/Conv2D.py")],
         "exploration", BOUNDED + ": every combination of algorithm and geometry in the stated grids, on all unit impulses",
         "exhaustive over the stated parameter grids; the impulse inputs determine the affine map completely; weights are fixed integers")
    prop("C02", "Pooling layers compute the ONNX pooling",
         "For every square-kernel max or average pooling the generator accepts (any kernel, stride and explicit or 'same'/'valid' padding, channels "
         "first or last layout, with or without following activation) and for global average pooling of square images, the C code and the Python "
         "reference compute the ONNX result: padding takes part neither in the maximum nor in the average.",
         ["inputs", "configurations"],
         "all image sizes, kernels, strides, pads, layouts and inputs of either sign",
         "tests use few shapes, mostly without padding, with inputs of one sign; padding that takes part in a maximum only shows with negative inputs",
         [L + "pooling/", T + "layers/template_Pooling2D.c.tpl", S + "importers/ONNX_importer/create_layer.py"],
         [("pooling templates", T + "layers/template_Pooling2D.c.tpl"), ("python reference", L + "pooling/")],
         "exploration", BOUNDED + ": every geometry in the stated grid, with the extremum at every position in turn",
         "exhaustive over the stated parameter grids and extremum positions")
    prop("C03", "Element-wise operators compute the ONNX result with broadcasting",
         "For every Add, Sub, Mul, Div, Max, Min and Average (Mean) with operands that broadcast (equal shapes, lengths of one, fewer dimensions, "
         "constants on either side, repeated operands), the C code and the Python reference compute the ONNX result, with the operands in the "
         "model's order.",
         ["inputs", "configurations"],
         "all operand shapes that broadcast, all numbers of operands, constants and computed tensors, and all values",
         "tests use a few operand shapes with random values, mostly equal shapes; the rest of the shape lattice and operand orders is not run",
         [L + "broadcast/", T + "layers/template_Broadcast.c.tpl", S + "importers/ONNX_importer/create_layer.py"],
         [("broadcast index arithmetic", T + "layers/template_Broadcast.c.tpl"), ("constant operands", S + "importers/ONNX_importer/parser_ONNX.py")],
         "exploration", BOUNDED + ": every pair and triple of operand shapes of a small lattice, every operand order and constant placement",
         "exhaustive over the stated shape lattice; values make every element and operand distinguishable")
    prop("C04", "Dense, Gemm and MatMul compute the ONNX product",
         "For every MatMul and Gemm the generator accepts (all alpha, beta, transA, transB, missing or broadcast bias, constant on the left or right, "
         "two computed operands) and every Dense obtained from them, the C code and the Python reference compute the ONNX product.",
         ["inputs", "configurations"],
         "all operand dimensions, transpositions, scale factors, biases, constant sides, optimisation settings and data types",
         "tests run a few dimensions with random values, which do not separate transposition or scaling mistakes from each other for square or unit cases",
         [L + "dense/", L + "matmul/", L + "gemm/", T + "layers/", S + "importers/ONNX_importer/create_layer.py"],
         [("Gemm variants", L + "gemm/"), ("MatMul", T + "layers/template_MatMul.c.tpl"), ("Dense", L + "dense/")],
         "exploration", BOUNDED + ": every variant and dimension combination of the stated grids, on unit impulses",
         "exhaustive over the stated grids; impulses determine the linear map completely")
    prop("C05", "Data-movement layers move every element to its ONNX position",
         "For every Transpose, Concatenate, Gather, GatherElements, Tile, Flatten and Reshape the generator accepts, every element of the output is "
         "the element of the operands that ONNX designates, for all axes, permutations, indices (negative ones included) and repeats.",
         ["inputs", "configurations"],
         "all shapes, axes, permutations, index tensors, repeats and numbers of operands",
         "tests use a few axes and shapes; index arithmetic errors need particular combinations of lengths and axes",
         [L, T + "layers/", S + "importers/ONNX_importer/create_layer.py"],
         [("index arithmetic", T + "layers/template_Transpose.c.tpl"), ("concatenation", T + "layers/template_Concatenate.c.tpl"),
          ("gather", T + "layers/template_Gather.c.tpl")],
         "exploration", BOUNDED + ": every permutation, axis, index list and repeat vector of the stated grids, with pairwise different elements",
         "exhaustive over the stated grids; element values are pairwise different, so the output identifies the source of each element")
    prop("C06", "Pad layers place and fill the border as ONNX defines",
         "For every Pad of the channel, height and width axes in mode constant, edge, reflect or wrap, with any constant value, axes input and following "
         "activation, the C code and the Python reference produce the ONNX output.",
         ["inputs", "configurations"],
         "all amounts on both sides of every axis, all modes, shapes, constants and inputs",
         "tests pad a few amounts, mostly symmetric and on large images; unequal amounts, unit lengths and channel padding are not run",
         [L + "padding/", T + "layers/Pad/", S + "importers/ONNX_importer/create_layer.py"],
         [("pad templates", T + "layers/Pad/"), ("python reference", L + "padding/")],
         "exploration", BOUNDED + ": every amount in {0,1,2} on every side of two axes at a time, for every mode",
         "exhaustive over the stated grids; thorough covers all six sides together")
    prop("C07", "Reductions, Softmax and BatchNormalization compute the ONNX result",
         "For every ReduceSum/Mean/Max/Min/Prod (any axes, keepdims, as attribute or input), Softmax over any axis, and "
         "BatchNormalization, the C code and the Python reference compute the ONNX result, also for large or negative inputs.",
         ["inputs", "configurations"],
         "all axis sets, shapes, parameters and inputs for which the ONNX result is finite",
         "tests reduce a few axis sets of random tensors in [0,1]; large, negative or unequal values and the remaining axis sets are not run",
         [L + "reduce/", L + "softmax/", L + "batch_normalization/", T + "layers/"],
         [("reduce template", T + "layers/template_Reduce.c.tpl"), ("softmax template", T + "layers/template_Softmax.c.tpl"),
          ("batch normalisation", T + "layers/template_BatchNormalization.c.tpl")],
         "exploration", BOUNDED + ": every axis set, keepdims value and operator on every shape of the stated grid",
         "exhaustive over the stated grids and value families")
    prop("C08", "Activation functions agree with ONNX on their whole range",
         "Relu, LeakyRelu, Sigmoid, Tanh, Clip (scalar, missing, infinite or attribute bounds), Exp, Log and the Silu pattern give the ONNX value in the C "
         "code and in the Python reference at every input of the explored set, fused with the previous layer or not, in float and double.",
         ["inputs", "configurations"],
         "all inputs, parameters, data types and preceding layers",
         "tests use random inputs in [0,1], where several activations are the identity or near it",
         [G + "activation_functions.py", L + "activation_layers/", S + "importers/ONNX_importer/create_layer.py"],
         [("C expressions", G + "activation_functions.py"), ("import", S + "importers/ONNX_importer/create_layer.py")],
         "exploration", BOUNDED + ": every activation and parameter on a value set covering signs, bounds, saturation and magnitudes",
         "exhaustive over activation x parameters x placement; values are a fixed set of boundary and magnitude classes")
    prop("C09", "Resize computes the ONNX interpolation",
         "For every Resize of height and width in mode nearest (four rounding rules), linear or cubic (any coefficient, exclude_outside) and coordinate "
         "transformation half_pixel, half_pixel_symmetric, pytorch_half_pixel, align_corners or asymmetric, given scales or sizes, the C code and the "
         "Python reference compute the ONNX result.",
         ["inputs", "configurations"],
         "all image sizes, scales, sizes, modes, coefficients, axes and inputs",
         "tests run one image size and scale per mode; borders, downscaling, unit lengths and most mode combinations are not run",
         [L + "resize/", T + "layers/Resize/", S + "importers/ONNX_importer/create_layer.py"],
         [("coordinate transformations", L + "resize/Resize.py"), ("templates", T + "layers/Resize/")],
         "exploration", BOUNDED + ": every mode, coordinate transformation, rounding rule and pair of output lengths of the stated grid",
         "exhaustive over the stated grids; rounding ties that only float error decides are left out")
    prop("C10", "Any dataflow graph is scheduled and allocated so that no live tensor is lost",
         "For every acyclic network, each layer of the generated program runs after its operands, and every tensor it reads still holds what its producer "
         "computed, whatever the branching, the reuse of buffers, repeated operands and constants; so the program computes the network's function.",
         ["inputs", "configurations", "histories"],
         "all graphs of supported layers and all inputs",
         "tests run a few fixed topologies; a wrong reuse of a buffer needs a particular order of branches and joins to show",
         [S + "graph/graph_interpretor.py", S + "generator/neural_network.py", S + "importers/ONNX_importer/parser_ONNX.py"],
         [("schedule and buffer allocation", S + "graph/graph_interpretor.py"), ("copies to constants", S + "templates/memory_layout/")],
         "model_checking", "explicit-state exploration of the generated program's buffers under the real schedule and allocation, for every graph up to the bound, "
         "with one generated program per distinct allocation compiled and run against onnxruntime",
         "exhaustive over all graphs of up to 4 nodes of several node kinds (5 for binary operators), with families of deep and wide graphs of up to 105 layers; one output, no unused node")
    prop("C11", "The optimization option does not change what the network computes",
         "Generating with optimization=True (fusing activations, Conv+BatchNormalization, MatMul+Add and Sigmoid*x) yields C code and a Python reference that "
         "compute the same function as the network, up to rounding, for every layer followed by every activation and for every graph around the fused layers.",
         ["inputs", "configurations"],
         "all networks, inputs and implementations",
         "tests run each fusion once on one network; shared intermediate results, other orders of operands and other implementations are not run",
         [S + "pattern_matching/patterns/FuseActivationLayers.py", S + "pattern_matching/patterns/FuseConvBatchNorm.py", S + "pattern_matching/patterns/FuseMatMulAdd.py",
          S + "pattern_matching/patterns/FuseSigmoidMul.py", S + "pattern_matching/PatternMatcher.py"],
         [("patterns", S + "pattern_matching/patterns/"), ("graph rewriting", S + "pattern_matching/Pattern.py")],
         "model_checking", "explicit-state exploration of the rewritten programs of every graph up to the bound over the kinds the fusions act on, with every distinct rewritten "
         "allocation, and every layer x activation x context, compiled and run against onnxruntime",
         "exhaustive over graphs of up to 4 nodes and over the layer x activation x consumer grid; rounding differences up to 2e-5 are accepted")
    prop("C12", "Constants and test inputs reach the program bit for bit",
         "For every finite value of every magnitude and sign, every constant of a network and every recorded test input that the generated program holds equals, bit for "
         "bit, the value of the model or dataset, in float and in double, written as hexadecimal or decimal literals or as binary sections.",
         ["inputs", "configurations"],
         "all parameter values, dataset values, data types and file encodings",
         "tests use values in [0,1] in float and compare outputs with a tolerance, so lost bits, flushed magnitudes and lost signs pass",
         [G + "neural_network.py", S + "templates/"],
         [("parameter and dataset writers", G + "neural_network.py"), ("templates", T)],
         "exploration", BOUNDED + ": every exponent x both signs x mantissa classes, through every layer that stores parameters and through the test dataset, in every encoding",
         "exhaustive over exponents and signs; mantissas are classes (none, one, all, alternating bits)")
    prop("C13", "A call of inference() is pure: it depends on its input and owns what it touches",
         "For every generated network, the result of inference() depends on its input and the parameters only: not on earlier calls, not on the initial content of its "
         "context, and not on calls made at the same time with other contexts; every access stays within the array it names; it writes nothing but its "
         "context and its whole result.",
         ["schedules", "histories", "inputs", "configurations"],
         "all networks, all histories of calls and all interleavings of concurrent calls with their own contexts",
         "tests run each program once in a fresh process; state kept between calls or shared by the threads of the batch loop never shows",
         [T, G + "neural_network.py"],
         [("buffers of a call", T + "memory_layout/"), ("layer templates", T + "layers/")],
         "model_checking", "stateless model checking of the compiled program: two calls as coroutines, handing over at each memory access, all places of one hand-over and all pairs "
         "of places for short programs, plus an access monitor that decides independence; array bounds are checked at every access",
         "one hand-over exhaustive for every program, two for programs of up to 300 (thorough 900) accesses; library calls are atomic")
    prop("C14", "The program and the batch loop run every input once, under every schedule",
         "For every number of inputs, data type, encoding and option, the generated project builds with its own Makefile, and its main program, its batch loop and compute_inference "
         "report in row k exactly the network's result for input k, whatever the number of OpenMP threads and their schedule; copy_weights and save_weights act on all parameters.",
         ["schedules", "inputs", "configurations"],
         "all numbers of inputs, thread teams, schedules, encodings, data types and networks",
         "tests run one to a few inputs without threads; a wrong batch remainder, a shared context or a wrong conversion of external inputs never shows",
         [T + "template_main_file.c.tpl", T + "template_train_hook_file.c.tpl", T + "template_makefile.tpl", G + "neural_network.py"],
         [("main program", T + "template_main_file.c.tpl"), ("batch loop", T + "template_train_hook_file.c.tpl"), ("project", G + "neural_network.py")],
         "model_checking", "stateless model checking of the compiled main() and batch_loop() under a stand-in OpenMP runtime: all sequences of scheduling decisions around every call of "
         "inference(), all team sizes; plus the real projects built with make and run over the options",
         "exhaustive for scaled batches (size 1..4, up to 5 inputs, thorough 8); full batches of 32 under all listed team sizes in four fixed orders")
    prop("C15", "Generation is complete, deterministic, repeatable and spares existing files",
         "Whatever was done before with the same model, dataset, options and generator, generate_c_files writes the same complete set of files, and compute_inference the same results, "
         "without changing the caller's objects; if any file of the project exists it is refused and nothing is written; a failing write is reported and does not affect later generations.",
         ["histories", "configurations", "schedules"],
         "all histories of operations, all existing files and all places where writing fails",
         "each test generates once into an empty directory",
         [G + "neural_network.py", S + "versioning/", S + "pattern_matching/"],
         [("generation", G + "neural_network.py")],
         "model_checking", "exhaustive execution of all operation histories up to a depth on the real generator, of every occupied file and of every failing file operation; other processes with other hash seeds",
         "all histories of depth 4 (thorough 6) over four operations; 22 option sets (targets, debug, normalisation, custom files) and ONNX, JSON, PyTorch and .nnet models")
    prop("C16", "acetone_compare reports agreement only of outputs that agree",
         "For any two output files, the verdict and the maximum errors of acetone_compare and compare_files are those of the first nb_tests rows compared value by value: missing rows or values, "
         "NaN, infinities and overflows are never reported as agreement or as a finite error, in hexadecimal, decimal or JSON form.",
         ["inputs"],
         "all pairs of files and precisions",
         "the existing tests do not test the comparison tool: a comparison that passes over a difference makes every validation with it void",
         [S + "cli/compare.py"],
         [("comparison", S + "cli/compare.py")],
         "exploration", BOUNDED.replace("generator, compiler output and Python reference", "tool") + ": every pair of values of all classes, at every position of small files, with every combination of lengths, against exact rational arithmetic",
         "exhaustive over the value set and files of up to 3 x 3 values; two NaN at one place are not decided")
    prop("C17", "PyTorch and JSON models are imported as the network they describe, or refused",
         "For every PyTorch exported program and every JSON description, the Python reference and the compiled C program compute what PyTorch, or the definition of the described "
         "layers, computes, in either memory layout and data type; operations, parameters or wirings that are not supported are refused, never dropped or approximated.",
         ["inputs", "configurations"],
         "all sequences and wirings of operations, parameters, memory layouts and data types",
         "tests import a handful of complete networks that use one value of each parameter; JSON models are not imported by any test",
         [S + "importers/PYTORCH_importer/parse_pytorch.py", S + "importers/JSON_importer/parser_JSON.py", S + "importers/parser.py"],
         [("PyTorch visitor", S + "importers/PYTORCH_importer/parse_pytorch.py"), ("JSON reader", S + "importers/JSON_importer/parser_JSON.py")],
         "exploration", BOUNDED + ": all sequences of operations up to a length over an alphabet of supported and unsupported operations, against PyTorch's own evaluation and an evaluation of the description",
         "exhaustive over sequences of up to 2 (thorough 3) of 12 operations, 50 unsupported operations in 12 contexts, all chains of 2 described layers, and their wirings, and families of deep networks; keras 2 models themselves cannot be loaded here")
    prop("C18", "A .nnet network, with its normalisation, is what is generated",
         "For every .nnet file, with or without normalisation, the Python reference and the compiled C program compute the network of the file: inputs clipped to their bounds, centred and scaled "
         "with their own constants, every layer with its own weights, the output scaled back; a file that is not understood is refused.",
         ["inputs", "configurations"],
         "all chains of layers, constants, input positions and file styles",
         "the tests load two networks and never reach the bounds of an input, so a wrong clip or a shifted constant shows nowhere",
         [S + "importers/NNET_importer/parser_NNET.py", S + "importers/NNET_importer/nnet_normalize.py", G + "neural_network.py"],
         [("reader", S + "importers/NNET_importer/parser_NNET.py"), ("normalisation", S + "importers/NNET_importer/nnet_normalize.py")],
         "exploration", BOUNDED + ": every chain of layer sizes up to a bound, every combination of input positions relative to their bounds, against an exact evaluation of the file",
         "exhaustive over chains of up to 3 layers of up to 3 neurons and 5-6 positions for every input, with larger networks of up to 102 layers or 101 neurons; dyadic constants compare exactly")
    prop("C20", "An ONNX network is compiled right, or refused",
         "Every network of standard ONNX operators that onnxruntime can run is either refused by the importer or the generator, or gives onnxruntime's result in the Python reference and in the "
         "compiled C program: no operator, operand, attribute, output, input or data type is ignored or approximated, and importing a model does not change it.",
         ["inputs", "configurations"],
         "all operators, operand arrangements, attribute values, ranks, data types and graph shapes",
         "tests import the supported operators with usual parameters; what happens with the others, or with unusual parameters, is only seen by trying all of them",
         [S + "importers/ONNX_importer/parser_ONNX.py", S + "importers/ONNX_importer/create_layer.py", S + "importers/parser.py"],
         [("graph", S + "importers/ONNX_importer/parser_ONNX.py"), ("operators", S + "importers/ONNX_importer/create_layer.py")],
         "exploration", BOUNDED + ": every operator of the ONNX standard x operand arrangement x attribute value (pairs of values for pooling and convolution), against onnxruntime",
         "exhaustive over the listed operands, attribute values and shapes; control-flow, random and sequence operators excluded; networks onnxruntime itself refuses are not networks")
    prop("C21", "The data format of the generated code does not change the result",
         "For every network, data format of the generated code (channels_first or channels_last) and choice of layer implementations, the compiled program computes the network on the same input and "
         "output layout, or the generator refuses the combination; convolutions, pooling and element-wise layers with channels_last implementations are not refused.",
         ["inputs", "configurations"],
         "all sequences of layers, data formats and implementations",
         "tests run the channels_last format on convolutions only; a layer that reads the other layout compiles and gives a plausible wrong result",
         [G + "neural_network.py", L + "convolution/Conv2Ddirect_block.py", L + "pooling/Pooling2D.py", T + "memory_layout/template_output.c.tpl"],
         [("format", G + "neural_network.py"), ("implementations", L + "convolution/Conv2Ddirect_block.py")],
         "exploration", BOUNDED + ": every sequence of operations x data format x implementation of each layer, against onnxruntime",
         "exhaustive over sequences of 2 (thorough 3) of 41 operations and 5 input shapes")
    prop("C19", "A program for a fixed-point target computes the fixed-point network",
         "For every network of products, element-wise layers and activations, and every Q format its configuration gives to parameters, inputs and outputs, the Python reference and the compiled program "
         "compute the integers the formats define: operands aligned, products scaled back, results stored in the type of the target. A string that is not a Q format is refused.",
         ["inputs", "configurations"],
         "all formats of every tensor, networks, types and inputs up to the limits of the type",
         "the tests quantise one network with one set of formats; a shift in the wrong direction or a truncated product shows only with other formats or inputs near the limits",
         [S + "quantize/qform.py", S + "quantize/activation.py", G + "neural_network.py"],
         [("formats", S + "quantize/qform.py"), ("generator", G + "neural_network.py")],
         "exploration", BOUNDED + ": every network of quantised layers up to a depth x Q formats of each tensor x type, against integer arithmetic on the definition",
         "products accumulate without overflow of the temporary type; MatMul, Add, Sub, Max and activations (convolutions and Gemm have no quantised version)")
    prop("C23", "Debug mode reports the value of every layer and changes nothing else",
         "With debug_mode, the Python inference and the compiled program report every layer of the network exactly once, under its name and index, with the value it has in the reference; the predictions are "
         "those of the network; debug_onnx extracts the values of the same layers, in the same order, whole or selected by tensor name, and compare_result notices every difference; a model saved by debug_onnx is the one that was run, without the constants among its inputs. "
         "With the time mode every layer and the output are measured exactly once per call, in the order of execution, the total is the sum, and the predictions are those of the network.",
         ["inputs", "configurations"],
         "all networks, layers, selections and data formats",
         "one test compares the debug values of one chain of layers, in Python only; the debug file written by C is not read by any test",
         [S + "debug/debug_onnx.py", S + "debug/debug_tools.py", G + "neural_network.py", T + "template_source_file.c.tpl"],
         [("reference", S + "debug/debug_onnx.py"), ("readers", S + "debug/debug_tools.py"), ("writer", T + "template_source_file.c.tpl")],
         "exploration", BOUNDED + ": every layer x activation x consumer, every small graph, JSON networks in both layouts; all values of all layers, all single selections and all single-layer differences",
         "debug_keras (absent with Python 3.12) is not covered; the event counter of the target is replaced by four models of one")
    prop("C25", "The inputs of the tests are the rows of the dataset",
         "For every dataset file, array, number of tests, encoding and data type, the inputs of the Python results and of the compiled program are exactly the first nb_tests rows of the dataset, with the values "
         "it gives in hexadecimal or decimal, as numbers or strings; a dataset that is not one of the network (sizes, types, ranges, syntax) is refused, and the caller's arrays are not changed.",
         ["inputs", "configurations"],
         "all files of lines of all styles, arrays of all shapes, orders and types, and numbers of tests",
         "tests use one well-formed file or array; a row that is short, decimal or missing changes the tested inputs without an error",
         [G + "neural_network.py", T + "template_test_dataset_source.c.tpl", T + "template_test_dataset_header.c.tpl"],
         [("reader", G + "neural_network.py"), ("program", T + "template_test_dataset_source.c.tpl")],
         "exploration", BOUNDED + ": every sequence of lines up to a length over an alphabet of line styles x number of tests x encoding x type, every kind of array, on a network that moves values only",
         "exhaustive over files of up to 2 lines of 21 styles (3 lines of 6 styles; thorough: all first lines); finite values")
    prop("C26", "The command line generates what its options say",
         "For every network file and every combination and spelling of the options, acetone_generate (and cli_acetone) writes the project and results of a CodeGenerator called with the parameters the options mean; "
         "options without a meaning, missing ones and files that cannot be used are refused with a failing exit status and nothing written; generate, make, run and compare work together as documented.",
         ["configurations"],
         "all combinations of options and of the spellings of their values",
         "no test runs the commands; an option that is dropped or read as its opposite generates another program without an error",
         [S + "cli/generate.py", S + "cli/compare.py", G + "neural_network.py"],
         [("generate", S + "cli/generate.py"), ("compare", S + "cli/compare.py")],
         "exploration", BOUNDED + ": the full product of the options and of the spellings of their values on networks of three formats, compared file by file with the generator's; process runs of the documented workflow",
         "exhaustive over the listed spellings; the H5 format and targets other than generic are not covered")
    prop("C24", "The implementation, functions and flags asked for are those used",
         "For every network and every assignment of implementations by layer number and layer kind, each layer uses the implementation given for its number, else for its kind, else the default one - those the user registered "
         "included - and the network's result is unchanged by mixing them; unknown and duplicate implementations are refused. Replaced generation functions and Makefile properties change exactly the files and commands they name.",
         ["inputs", "configurations", "histories"],
         "all assignments of implementations, registration histories, sets of replaced functions and properties",
         "tests choose one implementation for all layers of a kind; a layer that silently keeps another implementation still gives the right result",
         [S + "versioning/versioning.py", S + "versioning/layer_factories.py", G + "neural_network.py", S + "templates/template_makefile.py"],
         [("registry", S + "versioning/layer_factories.py"), ("versions", S + "versioning/versioning.py"), ("selection", G + "neural_network.py")],
         "exploration", BOUNDED + ": every assignment on networks of every layer kind with recognisable user implementations, every mix of convolutions, every registration history up to a depth against a model, every set of replaced files and properties",
         "exhaustive for two layers of a kind, three convolutions, histories of 4 (thorough 5) steps and the listed forms of functions and flags")
    prop("C22", "Exporting the internal representation gives an equivalent ONNX model",
         "For every list of layers the generator holds, exporter('onnx', ...) gives an ONNX model that computes the same function as the layers: every layer, "
         "activation, constant and wiring is in the model, or the export is refused.",
         ["inputs", "programs"],
         "all networks of supported layers, before and after optimisation, and all inputs",
         "no test calls the exporter",
         [S + "exporters/"],
         [("layers to nodes", S + "exporters/ONNX_exporter/acetone_to_onnx_layer.py"), ("graph", S + "exporters/ONNX_exporter/exporter_onnx.py")],
         na="exporters/ONNX_exporter/acetone_to_onnx_layer.py imports onnxruntime_extensions, which is not installed: the module cannot be loaded, and the custom operators it "
            "registers (Dense, reductions, pads) cannot be executed, so there is no execution of the exported model to explore")
    prop("C27", "A keras or H5 model is imported as the network it describes, or refused",
         "For every keras Sequential or Functional model, given as an object or an .h5 file, the Python reference and the C program compute the model's prediction, or "
         "the import is refused; the same holds for the JSON description JSON_from_keras_model writes of it.",
         ["inputs", "programs"],
         "all keras models of supported layers, wirings, layouts and inputs",
         "the tests that load keras models do not run with Python 3.12",
         [S + "importers/H5_importer/", S + "importers/JSON_importer/JSON_from_keras_model.py", S + "debug/debug_keras.py"],
         [("h5 import", S + "importers/H5_importer/parser_h5.py"), ("description", S + "importers/JSON_importer/JSON_from_keras_model.py")],
         na="the importer is reachable only with Python 3.10 or 3.11 and uses the keras 2 interface (Layer.output_shape...); the sandbox has Python 3.12 with keras 3 only, so neither the "
            "import nor a keras 2 oracle can be executed (what the JSON importer makes of such descriptions is C17)")
