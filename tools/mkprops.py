"""Writes /verif/properties.jsonl (the source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": mech}}
    if state: d["anchors"]["state"] = state
    P.append(d)

CV = "tinynn/converter/"
OPT = CV + "operators/optimize.py"

prop("C01", "Unsupported operators stop the conversion before a model is written",
 "If the traced model contains an operator the converter has no handler for, conversion ends with an exception that reports it, no graph optimisation or quantisation step runs on the half-built graph, and no model file is created or overwritten. This holds for operators of the main graph and of nested blocks, on every entry path of the converter.",
 ["programs", "configurations"], "every source model and every converter configuration",
 "The tests only convert supported models; a missing must-happen-before on one configuration path is invisible to them.",
 [CV + "base.py", CV + "operators/torch/__init__.py", CV + "operators/graph.py"],
 "TFLiteConverter.convert: init_operations -> unsupported_operations raises -> common_graph.convert -> open(tflite_path,'wb').")

prop("C02", "No source operator is silently dropped",
 "For every supported source operator, each way its translation can finish normally either adds target operators producing the operator's output, makes the output an alias of (or a constant computed from) its inputs, or stops with an error. An operator whose output is neither produced, aliased nor constant is never silently skipped, whatever the rank, dtype, options or constness of its arguments.",
 ["programs", "inputs"], "every supported operator and every combination of argument kinds",
 "Each translation has branches over rank, dtype and constness; the tests take one or two of them per operator.",
 [CV + "operators/torch/aten.py", CV + "operators/torch/quantized.py", CV + "operators/torch/prim.py", CV + "operators/torch/base.py"],
 "OPERATOR_CONVERTER_DICT classes' parse(): every normal exit has passed graph_converter.add_operator / add_iterable_pair / constant output.")

prop("C03", "Source operators map to the right target operator and operand order",
 "Each elementwise, comparison, logical, reduction, activation, shape and matrix operator of the source model is translated to the target operator (or fixed composition of target operators) that computes the same function. Non-commutative operands keep their order, reversed variants swap them exactly once, and scalar arguments such as axes, slopes and scaling factors reach the target operator that uses them.",
 ["programs", "inputs"], "every supported operator whose translation is a fixed composition, for symbolic operands",
 "Tests compare numbers for sampled operand kinds; swapped operands are invisible for commutative samples and untested constant/tensor combinations.",
 [CV + "operators/torch/__init__.py", CV + "operators/torch/aten.py", CV + "operators/torch/base.py", CV + "operators/torch/quantized.py"],
 "OPERATOR_CONVERTER_DICT; elementwise_binary/elementwise_unary/elementwise_reduce and parse() methods.")

prop("C04", "Every target operator is serialised with its own code and options",
 "Each of the target operator kinds is written to the model file under its own operator code and its own options table, and every option given when the operator is created is written to the field of that name and to no other. Inputs, outputs and the operator-code index written for an operator are its own, in order.",
 ["inputs"], "every target operator class and every value of its options",
 "Few of the ~150 operator kinds are serialised by the tests, and almost always with default option values.",
 [CV + "operators/tflite/generated_ops.py", CV + "operators/tflite/base.py", CV + "operators/tflite/custom.py"],
 "generated_ops.*Operator.build: tflite.XOptionsStart/AddField/End, BuiltinOptions.X; OpCode(BuiltinOperator.X, version).")

prop("C05", "The serialisation layer follows the target file format",
 "Every table field is written to the slot and with the type, default and width the target file format defines for it, every enumeration member has the format's value, and every reader accessor reads the offset its writer uses. A field holding any value therefore reads back as that value in the runtime.",
 ["inputs"], "every table, field and enumeration of the format schema",
 "Tests only reach the tables of the operators they convert; a wrong slot or default for another one shows only when the runtime reads it.",
 [CV + "schemas/tflite/schema_generated.py"],
 "schema_generated.py vs the frozen schema table derived from the runtime's own schema module.")

prop("C06", "Tensors, buffers and the graph are serialised faithfully",
 "Every tensor is written with its own name, shape, element type, buffer and quantisation parameters; its constant data is written to the buffer its index refers to, and the subgraph lists exactly the model's tensors, inputs, outputs and operators in execution order. Element types map one to one between source framework, array library and file format.",
 ["inputs", "programs"], "every tensor, dtype and graph",
 "Tests check converted outputs for float32/int8 models; swapped buffer indexes, dtype pairs or quantisation fields in rarely used kinds go unnoticed.",
 [CV + "operators/tflite/base.py", CV + "operators/graph.py"],
 "Tensor.build, QuantizationParameters.build, Buffer.build, SubGraph.build, Model.build, numpy_tflite_dtype_mappings and torch_tflite_dtype_mappings, CommonGraph.convert.")

prop("C07", "Converter options reach the component they configure",
 "Every option given to the converter takes effect in the component it documents - operator translation, graph optimisation, hybrid or half-precision quantisation, or output - on every conversion path, unchanged and not swapped with another option. Leaving an option at its default behaves like passing the default explicitly.",
 ["configurations"], "every option value and every code path that passes options on",
 "Options are passed positionally through several layers; tests exercise a handful of the 2^20 combinations, and swapped flags with equal defaults cannot be seen.",
 [CV + "base.py", CV + "operators/torch/base.py", CV + "operators/optimize.py", CV + "operators/hybrid_quantizer.py", CV + "operators/half_quantizer.py"],
 "TFLiteConverter.__init__/init_operations/convert, OperatorConverter.__init__, GraphOptimizer.__init__, HybridQuantizer.__init__, HalfQuantizer.__init__.")

prop("C08", "Invalid option combinations are rejected up front",
 "A converter configuration that cannot be honoured (an unknown target or io type, io quantisation without quantised-graph rewriting, int16 without strict symmetric mode, mismatched int16 io and target types, hybrid modes that conflict, dumping config without scripting) raises an error at construction and before any conversion work. Every combination outside those is accepted.",
 ["configurations"], "every combination of converter options",
 "Tests build converters with valid options; the rejected region of the option space is not sampled.",
 [CV + "base.py"], "TFLiteConverter.__init__ validation assertions/raises.")

prop("C09", "The optimisation level gates graph rewrites",
 "At each optimisation level exactly the rewrites documented for that level or below run: no optional rewrite at level none, constant folding from the first level, batch-norm fusion from the second, common fusions from the third and branch rewrites only from the branch levels. Rewrites needed to make the graph valid for the runtime run at every level, and constant folding and clean-up come before the passes that depend on them.",
 ["configurations"], "every optimisation level and option set",
 "Tests run nearly everything at the default level; a rewrite moved across a gate changes nothing they observe.",
 [OPT], "class_conditional(lambda self: self.level >= GraphOptimizer.X) gating each pass, and GraphOptimizer.optimize().")

prop("C10", "Fusion never removes a value something else still needs",
 "A graph rewrite that merges, reroutes or deletes an operator whose result has another consumer, or is a model output, leaves that result available with the same value. In particular a producer is only absorbed into its consumer when that consumer is its sole user.",
 ["programs"], "every graph shape, every pair of adjacent operators, every optimisation level",
 "Tests build straight chains; the branch-and-also-an-output shapes that break a fusion with a missing single-use guard are unbounded.",
 [OPT], "is_*_edge filter predicates and fuse_* passes: outdegree()==1 guards and output-node guards.")

prop("C11", "Fusion preconditions are checked before rewriting",
 "An operator is only folded into a neighbour if the neighbour can express it: no activation is already pending between the two, parameters that are folded are constants in the operand position the formula assumes, and layout, axis and padding parameters are compatible. Otherwise the graph is left unchanged.",
 ["programs", "inputs"], "every operator pair, operand order and parameter value",
 "A precondition only matters for unusual parameter values or operand orders that tests do not sample.",
 [OPT], "is_*_edge predicates and the guards inside fuse_* passes.")

prop("C12", "Batch-norm folding is algebraically exact",
 "Folding a batch normalisation into the preceding or following linear layer yields weight and bias that compute the same function: weight scaled per output channel by gamma/sqrt(var+eps), bias mapped to beta + (bias-mean)*gamma/sqrt(var+eps), on the axis holding that channel, for grouped, transposed and linear layers and with or without bias. The reverse direction uses the input-channel axis and adds the mapped offset to the bias.",
 ["inputs"], "every weight, statistics, epsilon, layer kind and channel count",
 "Tests use default epsilon, affine parameters and freshly initialised statistics (mean 0, var 1) for which many wrong formulas agree.",
 [OPT, CV + "operators/torch/aten.py", "tinynn/graph/quantization/utils.py"],
 "fuse_bn_weight, fuse_bn_bias, fuse_rev_bn_weight, fuse_rev_bn_bias, fuse_conv_bn_weights, fuse_bn_conv_weights.")

prop("C13", "Layout rewrites insert inverse permutations",
 "Around every operator converted to channel-last layout the permutation inserted after it is the inverse of the one inserted before it, for every rank, and constants are permuted the same way as activations. Axis-like attributes and constants of an operator moved across a permutation are remapped with that permutation.",
 ["programs", "inputs"], "every rank and every transformable operator",
 "For rank 3 and 4 some wrong permutations are self-inverse or act on equal dimensions, so sampled shapes cannot tell.",
 [CV + "operators/tflite/transformable.py", CV + "operators/torch/base.py", CV + "operators/torch/aten.py", OPT],
 "nchw2nhwc/nhwc2nchw perm constants, TransformableOperator.transform, wrap_ops_with_nhwc_nchw_transposes, elementwise_op_transpose_passthrough_pass.")

prop("C14", "Operator versions match the features used",
 "Every operator is written with the version the runtime requires for its tensor types (float, 8-bit integer, boolean, string), its rank and its options: a tensor type or feature introduced in a later version never appears under an earlier version number.",
 ["programs", "configurations"], "every operator, tensor type and option combination",
 "The installed runtime accepts under-versioned operators in common cases; only particular type/option pairs are rejected or misread by older runtimes.",
 [CV + "operators/op_version.py"], "OPVersioner.process.")

prop("C15", "Input/output type rewriting preserves quantised values",
 "When model inputs or outputs of a quantised model are changed between unsigned and signed 8-bit, the zero point moves by exactly 128 with the same scale, a conversion operator is placed on the right side of every boundary tensor, and all other tensors are untouched.",
 ["programs", "configurations"], "every quantised model and io type option",
 "Tests run one io type pair on small models.",
 [OPT, CV + "operators/torch/quantized.py", CV + "operators/torch/base.py"],
 "quantize_input_output_type_pass; QuantizationParameters construction for q_type conversions.")

prop("C16", "Weight quantisation keeps scale, axis and data consistent",
 "Dynamic-range (hybrid) quantisation replaces a float weight by an integer tensor together with the scale and zero point it was computed with, per channel only along the channel axis of that operator, respecting the requested signedness, and only for operators whose bias and activations stay float. Half-precision conversion inserts exactly one dequantise per half tensor and leaves other tensors alone.",
 ["programs", "configurations"], "every weight-bearing operator and hybrid option",
 "Per-channel along a wrong axis or a mismatched scale passes for square or symmetric weights.",
 [CV + "operators/hybrid_quantizer.py", CV + "operators/half_quantizer.py"],
 "HybridQuantizer.quantize_pass / quantize, quantize helpers; HalfQuantizer.quantize.")

prop("T01", "Tracing leaves no global patch behind",
 "Every process-wide change that tracing, rewriting or quantisation preparation makes - patched framework functions, classes and module methods, current-graph pointers, warning filters, registered hooks - is undone when the operation finishes, whether it returns normally or raises anywhere inside. A failed trace therefore never changes how an unrelated model behaves afterwards.",
 ["fault_sequences", "histories"], "every exception raised at any point inside a patched region",
 "Tests trace successfully; the exits through exceptions are not taken.",
 ["tinynn/graph/tracer.py", "tinynn/graph/quantization/quantizer.py"],
 "tracer context managers (patch, patch_modules, patch_funcs, hook_modules, tracer_context, no_catch, ...).")

prop("T02", "Graph edits keep forward and backward links in step",
 "After every edit of a traced graph (inserting before, after or between nodes, replacing or removing a node or module), node A lists B as a successor exactly when B lists A as a predecessor, no removed node stays linked, and a replaced tensor or module name is replaced in every place that refers to it.",
 ["histories", "programs"], "every graph and every sequence of edits",
 "Tests edit chain-shaped graphs; asymmetric links only show in later code generation or pruning of branched graphs.",
 ["tinynn/graph/tracer.py"], "TraceGraph.insert_before/insert_after/insert_between/replace_node_module/remove_node, TraceNode.replace_next_tensor_name etc.")

prop("P01", "Channel removal slices every parameter of a layer consistently",
 "When channels of a layer are removed, every parameter and statistic indexed by those channels - weight on the right axis, bias, running mean and variance, per-channel slopes, recurrent gate blocks - is sliced with the same kept channels, and the layer's channel count becomes the number kept. Parameters along the other axis are only changed by input-channel removal.",
 ["programs", "inputs"], "every prunable layer kind and every set of removed channels",
 "Tests check shapes and runnability; slicing a parameter with a wrong index set of the same size is invisible.",
 ["tinynn/graph/modifier.py", "tinynn/graph/masker.py"],
 "Modifier subclasses and ChannelMasker: set_in_remove_idx / set_ot_remove_idx / apply_mask / register_mask.")

prop("P02", "Channel importance is measured per output channel",
 "The importance of a channel is computed from exactly the weights that produce that output channel - reducing over all other weight axes and no other - for every layer kind and every metric, and sums over dependent layers channel by channel. The channels removed are those of lowest importance, in the amount the sparsity asks for.",
 ["programs", "inputs"], "every layer kind, metric and weight value",
 "Reducing over a wrong axis gives a vector of the right length for square layers, and the accuracy effect is not tested.",
 ["tinynn/prune/oneshot_pruner.py", "tinynn/graph/modifier.py", "tinynn/prune/netadapt_pruner.py"],
 "l1_norm, l2_norm, random, fpgm; SubGraph calc of pruned indexes.")

prop("P03", "Kept channels keep their order and are sliced identically everywhere",
 "The channels kept after pruning are in their original ascending order and are a duplicate-free complement of the removed ones, in every dependent layer. Input slices of a consumer therefore line up with output slices of its producer.",
 ["programs", "inputs"], "every set of removed channels",
 "Small sets iterate in sorted order by accident of hashing.",
 ["tinynn/graph/modifier.py"], "complementary_list and remove/preserve index computation.")

prop("P04", "Pruner configuration is validated and not modified",
 "An invalid pruning configuration (a required option missing, an option of the wrong type or outside its allowed values, such as an unknown metric) is rejected with an error before the model is changed, and defaults apply only to options the user left out. The user's configuration object is not modified.",
 ["configurations"], "every configuration dictionary",
 "Tests use valid configurations, each once.",
 ["tinynn/prune/base_pruner.py", "tinynn/prune/oneshot_pruner.py", "tinynn/prune/identity_pruner.py", "tinynn/prune/netadapt_pruner.py", "tinynn/prune/admm_pruner.py"],
 "parse_config, required_params / default_values / condition tables.")

prop("P05", "Only the main process writes files",
 "In distributed runs, every file, directory and checkpoint the pruners, training helpers and tracer write is written by the main process only (or is documented as per-process); the others neither write nor delete.",
 ["schedules", "programs"], "every interleaving of worker processes",
 "Tests are single-process.",
 ["tinynn/prune/base_pruner.py", "tinynn/prune/netadapt_pruner.py", "tinynn/prune/oneshot_pruner.py", "tinynn/util/train_util.py"],
 "get_rank()==0 guards on torch.save/open/makedirs.")

prop("Q01", "Quantisation fusion only merges single-use chains",
 "Layers are fused for quantisation only when each fused layer's result is used by the next fused layer alone and feeds it directly. A layer whose output is also used elsewhere, or is a graph output, keeps its own output unchanged.",
 ["programs"], "every graph shape",
 "Test models are chains; a branch between two fusable layers is not sampled.",
 ["tinynn/graph/quantization/quantizer.py"], "is_fusable / prepare_qat_prep / fuse passes.")

prop("Q02", "Quantisation-aware and converted layers carry all hyper-parameters",
 "A layer swapped for its quantisation-aware, fused, or back-to-float counterpart keeps every hyper-parameter (strides, padding, dilation, groups, eps, sizes, bias presence, ...) and the same weight and bias values; nothing is reset to a default. Converting to the aware form and back gives a layer equal to the original, and a quantisable replacement computes, in float arithmetic, the function of the layer it replaces.",
 ["programs", "configurations"], "every swapped layer kind and every hyper-parameter value",
 "Tests use default hyper-parameters, where a dropped one is invisible.",
 ["tinynn/graph/quantization/qat_modules.py", "tinynn/graph/quantization/modules.py", "tinynn/graph/quantization/fused_modules.py", "tinynn/graph/quantization/quantizable/gru.py", "tinynn/graph/quantization/quantizable/lstm.py"],
 "from_float/to_float class methods.")

prop("Q03", "Graph rewrites done for quantisation preserve the computed function",
 "Rewrites of the traced graph made before quantisation (negation as multiplication by -1, division by a constant as multiplication, subtraction, stack, clamp to relu/relu6, functional forms to modules, torch functions to quantisable wrappers) compute the same function for all operand kinds, orders and keyword forms. A call whose arguments the rewrite cannot represent is left as it is.",
 ["programs", "inputs"], "every call form of each rewritten operator",
 "Tests cover one call form each; keyword forms, reversed operands and non-default parameters are not sampled.",
 ["tinynn/graph/quantization/quantizer.py"], "rewrite_quantize_graph and its passes.")

prop("Q04", "Quantisation configuration maps to legal observer settings",
 "For every combination of symmetric/asymmetric, per-tensor/per-channel, rounding, algorithm and backend options, the observers and fake-quantisers installed use an integer range that fits the chosen type, a scheme that matches the requested symmetry and granularity, weights quantised along the output-channel axis, and unsupported combinations are rejected. Options left out take the documented default.",
 ["configurations"], "every quantiser configuration",
 "Tests build a few configurations and never inspect ranges.",
 ["tinynn/graph/quantization/quantizer.py", "tinynn/graph/quantization/fake_quantize.py", "tinynn/graph/quantization/observer.py"],
 "QATQuantizer.parse_config / prepare_qconfig.")

prop("U01", "User-supplied objects are not modified behind the user's back",
 "Helpers that analyse, convert or copy a model restore the training mode and state they change, work on copies where they document a copy, and treat equally named entries of nested inputs alike. Sequences and mappings of inputs are traversed completely, each value under its own key.",
 ["inputs", "histories"], "every model, nested input and call history",
 "Tests use single tensors and fresh models, in which shared state or a mixed-up key cannot be observed.",
 ["tinynn/util/bn_restore.py", "tinynn/util/util.py", "tinynn/util/train_util.py", "tinynn/util/converter_util.py", "tinynn/util/quantization_analysis_util.py", "tinynn/graph/tracer.py", "tinynn/graph/quantization/quantizer.py"],
 "model_restore_bn, LazyObject, tensors2ndarray, generate_converter_config, layer_error_analysis, graph_error_analysis, QATQuantizer.error_analysis, set_model_mode, restore_model_mode, TraceGraph.generate_code.")

prop("N01", "Converted models compute the same numbers as the source model",
 "For every supported source model and every input, the converted model's outputs equal the source model's within floating-point tolerance (or one quantisation step for quantised models).",
 ["programs", "inputs"], "every model and every input tensor",
 "Models and tensors are unbounded; the tests sample fixed shapes with random values.",
 [CV + "base.py", CV + "operators/torch/aten.py", OPT], "whole conversion pipeline.")

prop("N02", "Generated model code is equivalent to the traced model",
 "The source code generated from a traced model, when loaded, defines a module whose outputs equal those of the traced model for every input of the traced shape, with the same parameters.",
 ["programs", "inputs"], "every traceable model and input",
 "Models are unbounded and the generated program depends on run-time tensors recorded while tracing.",
 ["tinynn/graph/tracer.py"], "TraceGraph.generate_code.")

prop("N03", "Pruning reaches the requested sparsity and keeps the network runnable",
 "For any traceable model and any sparsity in range, the pruned model accepts the same inputs and has at least the requested share of prunable channels removed in every dependent group.",
 ["programs", "inputs"], "every model and sparsity",
 "Dependency groups arise from the shapes recorded at run time over unbounded models.",
 ["tinynn/graph/modifier.py", "tinynn/prune/oneshot_pruner.py"], "GraphChannelModifier dependency propagation on traced dummy tensors.")

prop("N04", "Quantised conversion stays within one quantisation step of the aware model",
 "For every quantisation-aware trained model, the integer model's outputs differ from the fake-quantised outputs by at most the documented rounding steps.",
 ["programs", "inputs"], "every trained model and input",
 "Error accumulates over run-time values; tests only check that conversion runs.",
 ["tinynn/graph/quantization/quantizer.py", CV + "operators/torch/quantized.py"], "QATQuantizer.convert, quantized operators.")

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
