"""Writes /verif/MANIFEST.json from the table below (run after editing it)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'Static: abstract interpretation of the current Python source (symbolic values, heap and path conditions), no execution. '
CHECKS = {
 'C04': ('abstract interpretation of every operator class against the frozen file-format table',
         'Every operator class and every option, for symbolic option values. Trusts the frozen table of the target format and the interpreter\'s model of Python.'),
 'C05': ('abstract interpretation of every serialiser function against the frozen file-format table',
         'Every writer, reader accessor and enumeration member. Trusts the frozen table of the target format.'),
 'C06': ('abstract interpretation of the tensor/buffer/sub-graph/model builders, folded dtype tables',
         'Every optional-part combination of tensors, quantisation parameters, buffers, sub-graphs and the model, for symbolic contents.'),
 'C09': ('abstract interpretation of GraphOptimizer.optimize() over the whole option domain; effect/gate analysis of the passes',
         'All levels and option settings; the passes themselves are judged by C10-C13.'),
 'C01': ('effect/must-precede analysis of the entry paths plus abstract interpretation of convert()',
         'Every entry path and option value of the converter; operators are symbolic.'),
 'C07': ('abstract interpretation of option plumbing with one symbol per option, traced to every component',
         'Every option, symbolically, through every constructor and conversion path.'),
 'C08': ('abstract interpretation of the constructor and convert() over the folded finite option domain',
         'The whole product of option values accepted by the constructor.'),
 'C10': ('abstract interpretation (trace partitioning) of every graph rewrite on symbolic graph scenes; shape analysis of the resulting graph',
         'Every rewrite pass, on chains with every placement of extra readers, model inputs/outputs and shared operands, contents symbolic; graphs beyond those shapes are not explored.'),
 'C11': ('abstract interpretation of every fusion on each fusable pattern next to every forbidding state; element-wise comparison by normal form',
         'Every fusion pass, on some 1,800 small graphs (fusable, and with one precondition violated: activation, computed operand, operand position, axis, padding, stride, shape, readers, shared constants); element values stay abstract, tensor extents are small representatives.'),
 'C12': ('abstract interpretation of every batch-norm fusion over polynomial tensor elements, compared with the unfused graph by normal form',
         'Every fusion site of converter and quantizer, on each weight layout, group count, bias form and position; element values stay abstract, tensor extents are small representatives.'),
 'C13': ('abstract interpretation of the lowering and of every layout pass on graphs of known shape with abstract tensor elements; element-wise comparison by normal form',
         'Every pass that inserts, moves, merges or removes transposes and reshapes and the whole pipeline, over some 2,300 graphs (ranks 1-6, permutations, operators in between, branches, model inputs and outputs); the extents are small representatives.'),
 'C14': ('abstract interpretation of every operator class against the runtime\'s frozen version table',
         'Every operator class for symbolic shapes and float/8-bit/boolean/string element types; 16-bit integer types are out of scope.'),
 'C15': ('abstract interpretation of the quantised-tensor constructor and of the io type rewriting over abstract tensors with symbolic elements, scales and zero points',
         'Graphs with one to three quantised inputs and outputs (shared, requested partly, passed through); elements, scales and zero points are symbolic; conversion kernels of the run time follow the format\'s definition.'),
 'C16': ('abstract interpretation of the weight quantisers over abstract tensors with symbolic weights: the data, scale, zero point and axis of each rewritten operand are derived from the source and compared',
         'Fully connected, convolution, depthwise, and LSTM operators for every combination of signedness, granularity, switches and weight kind; shapes are fixed, weights symbolic; torch\'s quantisation kernel is a model.'),
 'P01': ('abstract interpretation of every pruning modifier over modules whose parameters are arrays of distinct symbols: each kept parameter must be the slice of the original at the kept channels',
         'Every layer kind with a modifier, its flags, groups and parameter presence, and the rewriting of shape arguments, for representative extents and every shape of removed index set; values symbolic. Propagation of the dependency sets through a whole graph is not decided.'),
 'P02': ('abstract interpretation of the importance metrics over arrays of weight symbols, and of the channel selection over symbolic importances whose comparisons are decided by an assumed total order',
         'Every metric on every prunable layer kind (directions, layers, projections, groups); selection on sums, concatenations, flattening, groups and chains of dependent layers at several sparsities, three assumed orders each.'),
 'P03': ('abstract interpretation of the index computations (complements, partitions, slices of arrays of symbols, dependency maps of dependent layers)',
         'complementary_list, merge_constraint, merge_group, all modifiers with unordered removal sets, and the selection on dependent layers; how the dependency maps are traced through a user graph is not decided.'),
 'P04': ('abstract interpretation of the constructor of every pruner class over enumerated configurations (class annotations, defaults and condition tables evaluated from the source)',
         'four pruner classes, every documented option with valid values, values on both sides of its bounds, values of other types and left out, alone; context entries left out one at a time; a traced graph of a convolution and a fully connected layer; values inside sparsity dictionaries that are not numbers are not enumerated'),
 'Q02': ('abstract interpretation of the conversions between float and quantisation-aware layers over modules whose parameters are arrays of distinct symbols; element-wise comparison of the forward functions by normal form',
         'from_float, to_float and transform of the aware convolutions for each hyper-parameter, the quantisable activation, normalisation, GRU and LSTM layers; torch.nn is a model, observers are the identity; extents are small representatives.'),
 'U01': ('abstract interpretation of the helpers over trees of modules with every mix of training modes, switches, hooks and shared submodules; comparison of what the caller can observe before and after',
         '8 kinds of mixed training modes and their complements, 3 switch settings, nested structures of depth 3, up to 3 inputs and outputs; what user code called in between does is opaque'),
 'T02': ('abstract interpretation of every graph edit on small traced graphs; comparison of the predecessor and successor lists, of the tensors and of the data flow of the generated forward code with what the edit stands for',
         '14 graphs of up to 8 nodes (chains, branches, repeated operands, multi-output nodes, shared modules, constants, list outputs), every applicable edit and sequences of two (second edit near the first); longer histories and nested containers of tensors are not enumerated'),
 'T01': ('abstract interpretation of the context managers as coroutines (try/finally, ExitStack, typed exceptions) over a model of patchable classes with inheritance; the world before and after is compared for every way of leaving',
         'one model of five nested modules, user code raising Exception or KeyboardInterrupt at each of its calls; at most two nested activations; the C-level patches of torch.Size.__new__ and torch.Tensor.__getitem__ are taken as given'),
 'Q03': ('abstract interpretation of the graph rewrites of the quantiser on small traced graphs; the forward code generated before and after is evaluated over symbolic tensors and compared by normal form',
         'some 415 call forms of the rewritten operators, each also with every single node left unquantised, and compositions of two operations, for the default back end (qnnpack); shapes are fixed, values symbolic; torch functions are a model; rewrites for TensorRT, of recurrent layers and views changed in place are not in the cases.'),
 'Q04': ('abstract interpretation of the quantiser constructors and of the qconfig preparation over every combination of options; the observers that the resulting factories build are compared with the request',
         'QATQuantizer and PostQuantizer with every backend, symmetry, granularity, rounding, algorithm and fake-quantiser generation over one tree with a module of each kind; torch factories and observers are a model of torch 2.5; given input statistics and activation rescaling on sample numbers; layerwise configuration files and dynamic quantisation of LSTM are not covered.'),
 'C02': ('abstract interpretation of the converter class of every source operator on one node with symbolic tensors; must-produce judgement on every normal exit',
         'Some 150 source operators (elementwise, reductions, shape, indexing, pooling, normalisation, matrix), about 1,500 argument forms (rank, constness, type, options); quantised, recurrent and primitive nodes are not in the cases.'),
 'C03': ('abstract interpretation of the converter class of every source operator on symbolic tensors; element-wise comparison of the produced target graph with the source definition by normal form',
         'Some 150 source operators, about 1,500 argument forms; extents are small representatives, element values symbolic; quantised, recurrent and primitive nodes are not in the cases; the element functions of target operators are trusted.'),
}
NA = {
 'N01': 'Equality of the numbers computed by two run times over all inputs: no static argument over this Python source bounds the arithmetic of the torch and TFLite kernels; only its structural parts (C02-C06, C10-C14) are decided.',
 'N02': 'The generated model code is a run-time string built from a run-time trace of an arbitrary user module; its equivalence to the module quantifies over programs that are not in the source.',
 'N03': 'Reached sparsity and runnability depend on the run-time channel graph of the user\'s model (data-dependent dependency sets), which no static argument over the pruner source bounds.',
 'N04': 'Rounding error between the aware model and the integer kernels is a numeric run-time quantity outside the analysed source.',
}
NA.update({
 'P05': 'Which process reaches a write is decided by the run-time process group, and the repository writes from child processes on purpose (NetAdapt); a static guard rule has no clear specification in the source.',
 'Q01': 'The fused groups are produced by torch.ao.quantization while it mutates modules; the graph side is decided by Q03, the rest would need a model of that library.',
})
TODO = 'No check for this property has been finished yet.'
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
man = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in CHECKS and os.path.exists(os.path.join(HERE, 'checks', i + '.py')):
        t, n = CHECKS[i]
        man['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
                              'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                              'technique': t, 'level': 'other', 'level_note': AI + n})
    else:
        man['not_applicable'].append({'property': i, 'reason': NA.get(i, TODO)})
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(man['checks']), 'claimed;', len(man['not_applicable']), 'not applicable')
