"""Writes properties.jsonl (kept as code so that statements stay reviewable)."""
import json
import os

SHAPEFILE = "projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, **kw):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], **kw},
    })


SAMPLES = ("The only tests are the sample invocations written next to each function (a handful of shapes each, "
           "1 to 10 per operator); the statement is about every rank, every size and every argument value.")

prop("C01", "Elementwise, broadcasting and creation ops: exact result shape",
     "For every elementwise, broadcasting, comparison, normalisation, random or tensor-creation operator in the shape library, "
     "and for all operand shapes and scalar/list arguments the operator accepts, the library's shape function returns (without raising) exactly the "
     "shape PyTorch's operator produces: same-shape for unary ops, the broadcast of the operand shapes for n-ary ops, "
     "the requested size for creation ops, the arithmetic element count for arange.",
     ["inputs"], "all ranks, all dimension sizes, all scalar and list arguments of the operator's schema", SAMPLES,
     [SHAPEFILE],
     [("shape functions of elementwise/creation ops", SHAPEFILE + " (functions ending in 〡shape)"),
      ("upstream helpers used by them", "torch/jit/_shape_functions.py (dependency, interpreted)")])

prop("C02", "Reduction-like ops: exact result shape",
     "For every reduction, scan, sort/top-k, arg-reduction or norm operator in the shape library, and for all operand shapes, dims lists "
     "(including negative, empty and None) and keepdim flags the operator accepts, the shape function returns exactly the shape PyTorch produces: "
     "reduced dims removed or kept as 1, every other dim kept in order, scans shape-preserving.",
     ["inputs"], "all ranks, sizes, dim lists, keepdim values", SAMPLES, [SHAPEFILE],
     [("shape functions of reductions and scans", SHAPEFILE)])

prop("C03", "View, indexing, gather/scatter and concatenation ops: exact result shape",
     "For every view, reshape, permutation, slicing, indexing, gather/scatter, concatenation, stacking, splitting, repeat or unfold operator in the shape library, "
     "and for all operand shapes and arguments the operator accepts, the shape function returns exactly the shape PyTorch produces, "
     "with negative dims wrapped and out-of-range slice bounds clamped as PyTorch does.",
     ["inputs"], "all ranks, sizes, (negative) dims, slice bounds and steps, size lists with -1", SAMPLES, [SHAPEFILE],
     [("shape functions of view/index ops", SHAPEFILE)])

prop("C04", "Matmul, convolution, pooling, padding, FFT and loss ops: exact result shape",
     "For every linear-algebra, convolution (incl. transposed and grouped), pooling, padding, resampling, attention, FFT or loss operator in the shape library, "
     "and for all operand shapes, strides, paddings, dilations, output sizes, ceil/reduction modes the operator accepts, "
     "the shape function returns exactly the output size formula PyTorch uses.",
     ["inputs"], "all ranks, sizes, kernel/stride/padding/dilation lists, flags", SAMPLES, [SHAPEFILE],
     [("shape functions of nn/linalg ops", SHAPEFILE), ("pooling_output_shape and friends", SHAPEFILE)])

prop("C05", "Shape functions reject operand combinations PyTorch rejects",
     "Where a shape function of the library checks its operands (dim out of range, non-broadcastable or mismatching sizes, wrong rank, "
     "wrong list length, invalid split or index argument), that check holds for all inputs: an input outside the operator's domain raises an error "
     "and never yields a shape.",
     ["inputs"], "all inputs violating exactly one domain clause, for all ranks and sizes",
     "Sample invocations contain at most one or two ErrorInvocations per operator, most have none; a check that misses one rank, one negative index or one operand is not seen.",
     [SHAPEFILE], [("asserts and raises inside shape functions", SHAPEFILE)])

prop("C06", "Dtype functions: exact result dtype under PyTorch's promotion rules",
     "For every dtype function of the abstract-interpretation library and every combination of operand dtypes (bool, integers, half/bfloat16, float, complex), "
     "operand ranks (zero-dim tensors promote differently), scalar kinds, optional arguments and explicit dtype arguments the operator accepts, the function returns "
     "(without raising) exactly the dtype(s) of the PyTorch operator's result(s): the promoted type for arithmetic, the float type for transcendental ops on integers, "
     "int64 for integer sums, the real counterpart for abs/norm of complex input, the requested dtype where one is given.",
     ["inputs"], "all dtype combinations x all operand ranks x None/given optional arguments",
     "The sample invocations cover a dozen same-dtype inputs and a few mixed pairs per operator, at one fixed rank; the promotion rule depends on all operands' dtypes and on which of them are zero-dim or scalars.",
     [SHAPEFILE], [("dtype functions", SHAPEFILE + " (functions ending in 〡dtype)"),
                   ("promote_dtypes, dtype predicates", "projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/library_generator.py")])

prop("C07", "Dtype functions reject operand dtypes the operator rejects",
     "Where a dtype function of the library checks its operands' dtypes (no bool, no integer, no complex, matching dtypes, index dtypes, explicit dtype compatible with the input), "
     "the check holds for every dtype, rank and optional-argument combination: such an input raises an error and never yields a result dtype.",
     ["inputs"], "all dtype combinations violating a dtype precondition",
     "ErrorInvocations list one or two dtypes out of twelve, and only for the operators whose author thought of them.",
     [SHAPEFILE], [("asserts in dtype functions", SHAPEFILE)])

E2E = "projects/pt1/python/torch_mlir_e2e_test/"
LIBGEN = "projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/library_generator.py"

prop("C08", "Operand promotion follows PyTorch's rules for every operand list",
     "The promotion helpers every dtype function is built on compute PyTorch's result type: promote_dtypes returns, for every list of operands "
     "(dimensioned tensors, zero-dim tensors and python numbers, of every supported dtype), the dtype PyTorch's type promotion gives; the category predicates and "
     "category lists hold exactly for their category; the dtype priority is injective and never lower for a type that another promotes to.",
     ["inputs"], "all dtypes x all ranks x operand lists (any length for one kind of operand, up to three mixed operands)",
     "promote_dtypes is only run through a dozen sample invocations of single operators; the rule depends on which operands are zero-dim or numbers and on the order of the fold.",
     [LIBGEN], [("promote_dtypes, get_priority_of_dtype, is_*_dtype, all_*_dtypes, get_dtype_of_scalar", LIBGEN)])

prop("C09", "An e2e test passes exactly when its trace matches the golden trace",
     "A test result is reported as passing exactly if compilation and execution succeeded and its trace has as many items as the golden trace, each item with the same symbol, the same inputs "
     "and an output that equals the golden one: same type, length and keys at every nesting depth, equal strings, numbers within tolerance "
     "(including zero, negative, infinite and NaN golden values), tensors with equal shape and dtype and close elements. "
     "report_results returns True (unexpected outcome) exactly if some test failed that is not expected to fail, or passed although it is expected to fail.",
     ["inputs"], "all pairs of (nested) values and traces, all sets of results and expected failures",
     "The unit tests compare a handful of tensors and one nested value; a comparison that silently accepts a wrong value is invisible to every e2e test that uses it.",
     [E2E + "reporting.py", E2E + "framework.py"],
     [("ValueReport, TraceItemReport, SingleTestReport, report_results", E2E + "reporting.py")])

prop("C10", "Running the suite loses no test, no call and no failure",
     "For every list of tests, run_tests yields exactly one result per test, a crashed or timed-out worker yields a failing result, and compile or run errors land in the matching field of the result "
     "with the golden and actual traces otherwise recorded; a tracer records every call with its own symbol, inputs and output by value and in call order, and a config replays exactly the golden calls. "
     "Registering two tests under one name is rejected, and main runs exactly the tests selected on the command line and exits non-zero exactly if nothing was selected or a requested run had an unexpected outcome.",
     ["inputs", "histories", "crash_points"], "all values and call arguments, all outcomes of compile/run/worker, all subsets of delivered results, every config and selection",
     "The harness is what the tests run in: a lost result or an aliased trace makes a broken test pass silently.",
     [E2E + "framework.py", E2E + "registry.py", E2E + "configs/utils.py", E2E + "configs/native_torch.py", E2E + "configs/torchscript.py", "projects/pt1/e2e_testing/main.py"],
     [("clone/convert helpers, _Tracer, compile_and_run_test, run_tests", E2E + "framework.py"),
      ("config adapters", E2E + "configs/utils.py"), ("test registry", E2E + "registry.py"), ("entry point", "projects/pt1/e2e_testing/main.py")])

STRIDED = "python/torch_mlir/extras/fx_as_strided.py"
prop("C11", "as_strided requests are rewritten to read exactly the same elements",
     "Before FX import every aten.as_strided whose base is not a graph input is traced to its base and decoded: whenever the rewrite accepts a request, the index/expand expression that replaces it "
     "has the requested shape and the base's dtype and its every element is the storage element the strides and the storage offset address, with name and uses preserved. "
     "Requests that address only elements of a non-overlapping base are accepted; requests that address anything else raise ValueError instead of importing a wrong value.",
     ["inputs", "programs"], "all base sizes, strides and offsets, all requested sizes, strides and offsets, view chains of any length",
     "The upstream tests use a few concrete shapes; the decoding of an address into base coordinates must be right for every stride order, size-one and zero-size dimension, offset and overlap.",
     [STRIDED], [("_get_base, _decode_offsets, rewriting of as_strided nodes", STRIDED)])

FX = "python/torch_mlir/extras/fx_importer.py"
prop("C12", "The FX importer emits exactly the computation of the graph",
     "Importing a torch.fx graph emits, for every node in order, one operation of the node's operator whose operands are the values of the node's arguments in schema order "
     "(missing ones at their schema default, scalars and lists converted to the declared element type), binds each result to the value getitem and later users read, and returns the "
     "graph's outputs in order. Canonicalised, symbolic and higher-order nodes (while_loop, auto_functionalized, flex_attention) become an equivalent computation, at the node's own source location; "
     "a construct that cannot be expressed is rejected, never imported as something else.",
     ["inputs", "programs"], "all graphs, schemas, argument lists (any length), argument kinds and nesting, all higher-order nodes with any number of operands",
     "The importer's own tests are textual snapshots of a few dozen small graphs; an operand taken from the wrong place for one argument kind, list length or higher-order form is not seen by them.",
     [FX], [("GraphNodeImporter.import_nodes, _import_torch_op_overload, _import_argument, _import_list_argument, _import_getitem", FX),
            ("_import_symbolic_torch_op, _import_hop_*", FX), ("node_canonicalize", FX)])

prop("C13", "Types and constants in imported IR mean what they mean in PyTorch",
     "Every value's type in the imported IR states the element type, the rank, each static size (and a dynamic one exactly for each symbolic size) and the sparsity encoding of the PyTorch value, "
     "and every constant - number, string, device, dtype, layout and memory-format code, tensor literal - has the value it has in PyTorch under the codes of TorchUpstream.h. "
     "Cached types and literals are only ever found for the key or object they were made for, whatever was imported before.",
     ["inputs", "histories"], "all dtypes, layouts, ranks, sizes and symbolic sizes; all cache states",
     "The tables hold hundreds of entries of which the tests use a handful, and stale cache entries need a particular history of imports.",
     [FX], [("TORCH_DTYPE_TO_*, TORCH_LAYOUT_TO_INT and the other tables", FX), ("ContextCache", FX), ("sparsity_encoding", FX),
            ("LITERAL_CONVERTER_MAP, _import_literal, _make_vtensor_literal_op, RefTracker, TypeSubclassMap", FX)])

prop("C14", "An exported program becomes a function with its inputs, outputs and state",
     "Importing a torch.export program (or a graph module) makes one function that takes exactly the user inputs and returns exactly the user outputs, each in order, in which every parameter, "
     "buffer and constant reads its own tensor and each nested graph module has a function name of its own, the one calls of it use. "
     "Each mutated buffer or input is stored exactly once, with the value its update produces and after its old value was read; a signature that cannot be expressed is rejected.",
     ["inputs", "programs", "histories"], "all signatures (any number of inputs, outputs, parameters, buffers, mutations), all graphs and graph modules, any import order on one importer",
     "The tests import programs with one or two buffers; mixing up state, order or the time of an update needs several inputs, aliases or mutations in one signature.",
     [FX], [("FxImporter.import_program, import_graph_module, import_stateless_graph, _import_all_child_modules, _graph_to_function_meta", FX),
            ("GraphNodeImporter.import_mutable_to_vtensor, lazy_import_parameter, lazy_import_buffer, import_constant, return_node_values", FX)])

prop("C15", "Symbolic shapes in imported IR are exactly PyTorch's",
     "With symbolic shape expressions imported, every shape symbol of the program has one torch.symbolic_int whose bounds are the least interval of integers of its PyTorch range, "
     "and every value with symbolic sizes is bound to an affine map that, for every assignment of the symbols, evaluates dimension by dimension to the PyTorch sizes, its operands in the order the map numbers them. "
     "An expression that has no affine form is rejected, and nothing is taken over from a program imported earlier.",
     ["inputs", "programs", "histories"], "all shape expressions (by induction), all ranges, all ranks and numbers of symbols, all values of the symbols",
     "The tests compare the printed maps of a few programs; a wrong coefficient, symbol order or bound shows only for particular expressions and sizes.",
     [FX], [("sympy_expr_to_semi_affine_expr, _create_bind_symbolic_shape_ops", FX), ("ContextCache.set_symbolic_guards, _import_shape_symbols_with_guards", FX)])

ONNX = "python/torch_mlir/extras/onnx_importer.py"
prop("C16", "An imported ONNX graph is the model's graph, node by node",
     "Importing an ONNX graph emits, for every node in order, one operation of the node's operator and attributes whose operands are the values of the node's inputs in order "
     "(none for an omitted optional input) and whose results are the values the node's outputs name; the function takes the graph's inputs that have no initializer and returns its outputs, each in order, "
     "and each initializer is a constant of its own tensor. Subgraphs become regions over their own inputs and outputs that see the enclosing values and leave the enclosing names unchanged; "
     "a reference to a value that does not exist or has no type is rejected.",
     ["inputs", "programs"], "all graphs with any number of nodes, inputs, outputs, initializers, omitted inputs and nested subgraphs",
     "The importer's tests are a few small models checked textually; an operand or result bound to the wrong name shows only with omitted inputs, shadowed names, nested subgraphs or unusual node orders.",
     [ONNX], [("NodeImporter.define_function, import_all, import_node, import_regions, import_initializer", ONNX), ("GraphInfo", ONNX)])

prop("C17", "Types, constants and attributes of an ONNX model keep their meaning",
     "Every value's type in the imported IR states the element type, each given size and the optional/sequence structure of the model's type, a dynamic size exactly where the model gives no number; "
     "a tensor constant has the type and contents of the model's tensor whichever field holds them, and each attribute keeps its name, kind and value in the form the C++ side reads. "
     "What cannot be represented is rejected.",
     ["inputs", "programs"], "all element types, ranks, sizes, data fields, attribute kinds and list lengths",
     "The tables have dozens of entries per kind of data, of which the importer's tests use a handful.",
     [ONNX], [("ContextCache.type_proto_to_type, get_vtensor_type, tensor_proto_to_attr, tensor_proto_to_builtin_type", ONNX), ("ELEM_TYPE_TO_IR_TYPE_CB, ELEM_TYPE_INLINE_TENSOR_PROTO_CB, ATTRIBUTE_TYPE_HANDLERS", ONNX)])

prop("C18", "An ONNX operator defined by a function computes that function",
     "A node of an operator that ONNX defines by a function (and that the configuration expands) becomes a call of a function that computes the operator's definition for this very node: "
     "formal inputs and outputs stand for the node's by position, omitted ones are absent, every attribute reference at any depth has the node's value or the declared default, and the input types are the node's. "
     "Two nodes share one function only if operator, version, attributes and types agree.",
     ["inputs", "programs", "histories"], "all operators with a function body, attribute values, input types, omitted inputs and outputs, any history of expanded nodes",
     "The tests expand two or three operators once each; a wrongly shared function needs two nodes that differ in one attribute or type.",
     [ONNX], [("get_operator_function, _specialize_function_and_create_model, _bind_attributes_on_node", ONNX), ("import_node (function calls)", ONNX)])

EMB = "lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp"
prop("C19", "The shape library built into the compiler computes exact result shapes",
     "The abstract-interpretation library compiled into the compiler (the MLIR text returned by getAbstractInterpLibrary) has a shape function for every operator of the library, with the operator's parameters, and it returns, "
     "for all operand shapes and arguments the operator accepts, exactly the shapes PyTorch gives the results; where it checks its operands, it fails for every combination PyTorch rejects and for no other.",
     ["inputs"], "all ranks, all sizes, all list and scalar arguments, None and non-None optionals",
     "Nothing executes the generated text: the tests run the Python functions it was generated from, and an edit, a stale regeneration or a miscompiled function stays unseen until a program with just that operand combination is compiled.",
     [EMB], [("getAbstractInterpLibrary: __torch_mlir_shape_fn.* and the functions they call", EMB)])
prop("C20", "The dtype library built into the compiler follows PyTorch's promotion",
     "The abstract-interpretation library compiled into the compiler (the MLIR text returned by getAbstractInterpLibrary) has a dtype function for every operator of the library, with the operator's parameters, and it returns, "
     "for every combination of operand dtypes, ranks and scalar kinds the operator accepts, exactly the dtypes PyTorch gives the results; where it checks its operands' dtypes, it fails for every combination it has to reject.",
     ["inputs"], "all operand dtypes, ranks (zero-dim or not), scalar kinds, optional dtype arguments",
     "Nothing executes the generated text: the tests run the Python functions it was generated from.",
     [EMB], [("getAbstractInterpLibrary: __torch_mlir_dtype_fn.* and the functions they call", EMB)])

IRC = "lib/Dialect/Torch/IR/TorchOps.cpp"
prop("C21", "Compile-time evaluation of scalar operators gives the operator's value",
     "Whenever the compiler evaluates a scalar or list operator of the Torch dialect at compile time (the op's fold, or its canonicalization pattern), on whatever combination of constants, values of unknown value, sizes, arguments and lists it is given, "
     "the result is the value, of the same type, that the operator has in PyTorch wherever the operator is defined there (Python's floor division and modulo for int, truth of comparisons, negative indices, lists that are mutated or not), and the compiler does not crash on operands the operator rejects.",
     ["inputs", "programs"], "all integer, floating-point and boolean constants, all combinations of known and unknown operands; lists up to 3 elements, tensors up to rank 4",
     "The tests fold a few constants per operator; a wrong sign rule, a boundary case (zero, a negative operand, an empty list) or a rule applied to a mutated list silently changes the compiled program's shapes and branches.",
     [IRC, "lib/Dialect/Torch/Utils/Utils.cpp"], [("fold methods of the scalar, list and size operators; canonicalization patterns of aten.mul.int, aten.floordiv.int, aten.__getitem__.t, prim.TupleIndex, prim.ListUnpack, aten.add.t, aten.size, aten.numel", IRC)])

# ---- properties this family cannot decide here (MANIFEST.json: not_applicable) ----
T = "lib/Dialect/Torch/Transforms"
prop("N01", "Lowerings out of the Torch dialect preserve the program's results",
     "A program in the backend contract computes the same results after conversion to linalg, TOSA, StableHLO or another target dialect; what a conversion cannot express is rejected by it.",
     ["inputs", "programs"], "all programs in the backend contract, all tensor values and sizes",
     "The e2e suite samples programs and inputs.",
     ["lib/Conversion/TorchToLinalg", "lib/Conversion/TorchToTosa", "lib/Conversion/TorchToStablehlo", "lib/Conversion/TorchOnnxToTorch"], [("ConversionPattern::matchAndRewrite", "lib/Conversion")])
prop("N02", "Decompositions and canonicalisations preserve meaning",
     "Rewriting an operation by its decomposition, folder or canonicalisation pattern leaves the program's results unchanged.",
     ["inputs", "programs"], "all operations with such a pattern, all operands",
     "Tests match the printed result of a few operands.",
     [T + "/DecomposeComplexOps.cpp", "lib/Dialect/Torch/IR/TorchOps.cpp"], [("DecomposeAten*Op, fold, getCanonicalizationPatterns", T)])
prop("N03", "Value semantics and inlined state preserve mutation and aliasing",
     "Maximising value semantics, globalising the object graph and inlining global slots keep every observable read, write and alias of the program.",
     ["programs", "histories"], "all module object graphs and mutation orders",
     "Aliasing bugs need a particular order of reads, writes and views.",
     [T + "/MaximizeValueSemantics.cpp", T + "/GlobalizeObjectGraph.cpp", T + "/InlineGlobalSlots.cpp"], [("the passes", T)])
prop("N04", "Shape and dtype refinement only states what holds",
     "Reifying, simplifying and applying shape and dtype calculations refines a value's type only to a type the value has in every run.",
     ["inputs", "programs"], "all programs, all library functions",
     "Tests refine a few types.",
     [T + "/ReifyShapeCalculations.cpp", T + "/SimplifyShapeCalculations.cpp", T + "/SimplifyDtypeCalculations.cpp"], [("the passes", T)])
prop("N05", "The lazy tensor backend computes what eager PyTorch computes",
     "Running a program on the lazy tensor backend gives the results and side effects of eager execution.",
     ["inputs", "programs", "histories"], "all traced programs and synchronisation points",
     "The tests run single operations.",
     ["projects/ltc/csrc/base_lazy_backend"], [("TorchMlirLoweringContext, TorchMlirNode", "projects/ltc/csrc/base_lazy_backend")])
