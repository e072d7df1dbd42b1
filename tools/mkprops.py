"""Writes /verif/properties.jsonl (kept as a script only so that the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], **kw}})
N, G, T, F = "onnx_tool/node.py", "onnx_tool/graph.py", "onnx_tool/tensor.py", "onnx_tool/fusion.py"

prop("P01", "Operator shape inference agrees with the ONNX operator semantics",
     "For every supported operator, every legal combination of attributes and input shapes, the output shapes inferred for the node are the shapes the output tensors have when the operator is executed as the ONNX specification defines it.",
     ["inputs", "configurations"], "every supported ONNX operator x attribute values (including defaults) x input ranks/shapes (broadcasting, scalars, size-1 dims, negative axes, strides, pads, dilations, opset forms)",
     "The tests exercise one broadcasting helper, Pow and Where; about a hundred other operator rules are never executed, and each has an infinite attribute/shape space.",
     [N], [("per-operator shape_infer", "onnx_tool/node.py: *Node.shape_infer"), ("window arithmetic", "onnx_tool/node.py: _conv_output_shape, _pooling_shape_calc, _convtranspose"), ("broadcasting", "onnx_tool/node.py: _broadcast_shape")])
prop("P02", "Element types are inferred as the operators define them",
     "For every supported operator and whole graph, the element type recorded for each inferred tensor is the one the operator produces when executed, so byte-based numbers derived from it (memory, compressed memory) use the right element width.",
     ["inputs", "programs"], "all supported operators x input element types (float16/32/64, int8..int64, uint8, bool), and whole graphs mixing them",
     "No existing test looks at a tensor's element type at all.",
     [N, T, G], [("dtype propagation", "onnx_tool/node.py: shape_infer update_dtype"), ("element size", "onnx_tool/tensor.py: get_elementsize")])
prop("P03", "Whole-graph shape inference resolves every tensor to its executed shape",
     "For any supported model, including models whose shapes are computed at run time from other shapes, and any concrete input sizes, after shape inference every node output has exactly the shape it has when the model is executed on inputs of those sizes.",
     ["programs", "inputs"], "random models (CNN, transformer, broadcasting DAGs, shape-computing subgraphs feeding Reshape/Slice/Expand/Resize/Tile/Range/ConstantOfShape) x concrete input sizes",
     "Whole models are only run by a network-dependent test outside the stable set and compared to a stored total, not per tensor.",
     [G, N], [("graph shape inference", "onnx_tool/graph.py: Graph.shape_infer"), ("shape-tensor discovery", "onnx_tool/graph.py: __find_shape_tensors__, _SHAPE_TENSORS")])
prop("P04", "Operator value inference computes the values the operator defines",
     "Wherever the tool computes concrete tensor values for a supported operator (for shape subgraphs, constant folding or whole-graph value evaluation), the values equal the ones the ONNX operator produces on the same inputs, up to floating-point rounding.",
     ["inputs", "configurations"], "every operator the tool can evaluate x attributes x input values and element types",
     "Only Pow and Where values are sampled by tests; each evaluated operator has its own numpy rule.",
     [N, G], [("per-operator value_infer", "onnx_tool/node.py: *Node.value_infer"), ("graph evaluation", "onnx_tool/graph.py: Graph.value_infer")])
prop("P05", "Constant folding preserves the model's function",
     "Loading a model with constant folding enabled and saving it yields a model that, on every input, produces the same outputs as the original; nothing that depends on a run-time input is folded away and nothing computable only from constants remains as a node, except where folding would de-quantise a stored weight.",
     ["programs", "inputs"], "random models with constant subgraphs (chains, shared constants, constants feeding shape inputs, constants consumed by several nodes) x inputs",
     "No test folds anything; a wrong fold silently changes a stored weight.",
     [G, N], [("constant discovery", "onnx_tool/graph.py: __constant_search__"), ("fold and drop", "onnx_tool/graph.py: __update_nodes_tensors__"), ("API", "onnx_tool/__init__.py: model_constant_folding")])
prop("P06", "Loading and saving a model preserves its function and interface",
     "Loading a model without transformations and saving it again gives a valid model with the same operators, attributes, operator domains, opset versions, inputs, outputs and weights, which computes the same outputs on every input; saving without weights or without shapes drops exactly weights or shapes.",
     ["programs", "configurations"], "random valid models x save modes (full, no-shape, shape-only)",
     "No test saves a model.",
     [G, N, T], [("model writer", "onnx_tool/graph.py: save_model, make_graph_onnx"), ("node writer", "onnx_tool/node.py: make_nodeproto"), ("tensor writer", "onnx_tool/tensor.py: make_value_proto, make_tensor_proto")])
prop("P07", "Weights are decoded and re-encoded bit-exactly",
     "For every ONNX tensor element type and every storage form the tool accepts, the values, shape and element type it holds for an initializer or Constant are exactly those of the file, and writing them back yields an equal tensor; a form it cannot represent is refused or kept as is, never silently turned into other values.",
     ["inputs"], "element types x storage forms (raw, typed fields) x shapes (scalars, empty, multi-dimensional) x extreme values (NaN payloads, infinities, min/max integers)",
     "No test loads an initializer of any kind.",
     [T], [("tensor decoding", "onnx_tool/tensor.py: tensorproto2ndarray, Tensor.__init__"), ("tensor encoding", "onnx_tool/tensor.py: make_tensor_proto")])
prop("P08", "MAC counts equal the documented operation count",
     "For every operator with a documented multiply-accumulate count, the MACs reported for a node equal the number of multiply-add steps of that node's computation counted independently (zero padding included, one MAC per a*b+c, one per separate multiplication, addition, comparison or bias addition), for all shapes and attributes.",
     ["inputs", "configurations"], "Conv/ConvTranspose/Gemm/MatMul/Einsum-like contractions, pooling, normalisation, reductions, element-wise operators x shapes x groups, strides, dilations, bias",
     "The tests check one element-wise operator's shape; the reported cost, which is the product of the tool, is never compared to an independent count.",
     [N, "data/Profile.md"], [("per-operator profile", "onnx_tool/node.py: *Node._profile_core"), ("cost constants", "onnx_tool/node.py: *_MACS")])
prop("P09", "Profile totals, memory and percentages are conserved from nodes to report",
     "After profiling, the model's MACs and memory are the sums over the covered nodes, each node's memory is the bytes of its outputs plus the bytes of its static weights (for a look-up such as Gather, of the rows it reads), excluded operators contribute nothing, and every figure of the printed or CSV report is the corresponding node or total figure (in a CSV file as a plain number).",
     ["programs", "configurations"], "random models x excluded operator sets x metric (MACs/FLOPs) x report formats",
     "A unit test can pin one table; conservation must hold for every graph and option combination.",
     [G, "onnx_tool/utils.py", N, "data/Profile.md"], [("graph profile", "onnx_tool/graph.py: Graph.profile"), ("report", "onnx_tool/graph.py: print_node_map; onnx_tool/utils.py: print_table")])
prop("P10", "Parameter counts equal the model's weights",
     "The parameters attributed to a node are the element counts of the weights it consumes, the total is their sum with sharing counted once per use, and the de-duplicated total equals the number of distinct weight elements used by the model, whatever the sharing.",
     ["programs"], "random models with private, shared and unused weights, constants produced by nodes, and optional inputs",
     "Sharing patterns are unbounded and no test has a shared weight.",
     [G, N], [("parameter accounting", "onnx_tool/graph.py: Graph.profile params/dedup_params")])
prop("P11", "Compressed memory plan never overlaps two live tensors",
     "In the memory plan computed for a graph, two activation tensors that are alive at the same execution step never share bytes, each tensor's slot is at least its size and lies inside the reported pool, every input, output and intermediate activation (scalars included) is planned, and model outputs stay intact until the end of execution.",
     ["programs", "histories", "configurations"], "random DAGs (fan-out, in-place-like chains, multiple outputs, outputs consumed internally, repeated inputs) x tensor sizes x padding",
     "Overlap depends on the order of frees and best-fit choices over the whole execution history; no test computes a plan.",
     [G], [("allocator", "onnx_tool/graph.py: compress_memory")], state=[{"name": "free/used block list", "meaning": "simulated pool with best-fit allocation and merging of free neighbours"}])
prop("P12", "Compressed memory plan is bounded and deterministic",
     "The reported pool size is the highest byte any slot reaches, is at least the peak of simultaneously live bytes, does not exceed the sum of all padded tensor sizes, slots start on padding boundaries, and planning the same graph again gives the same plan.",
     ["programs", "configurations"], "random DAGs x padding x repeated planning",
     "Needs the liveness history of arbitrary graphs.",
     [G], [("allocator", "onnx_tool/graph.py: compress_memory")])
prop("P13", "Reordering nodes yields a valid execution order of the same nodes",
     "Reordering the nodes of any acyclic model listed in any order produces a permutation of exactly the same nodes in which every node comes after the producers of its inputs, and the reordered model computes the same outputs.",
     ["programs", "schedules"], "random DAGs x random node permutations x optional empty inputs/outputs x repeated inputs",
     "No test reorders; correctness is over all DAGs and permutations.",
     [G, "onnx_tool/__init__.py"], [("topological sort", "onnx_tool/graph.py: topsort_nodes, graph_reorder_nodes")])
prop("P14", "The shape engine predicts the shapes inference would compute",
     "After shape regression of a model over ranges of named input dimensions, setting the variables to any values of the range gives, for every tensor whose dimensions depend affinely or by integer scaling on one variable, the same shape that full shape inference gives for those input sizes. At the two ends of one variable's range, the others at their minimum, this holds for every dimension, however it depends on that variable, unless the regression warned.",
     ["inputs", "programs"], "models with one or two dynamic dimensions x ranges x values inside the range",
     "The engine extrapolates from three samples per variable, so only checking many other values can expose a wrong expression; no test runs it.",
     [G], [("regression", "onnx_tool/graph.py: shape_regress, ValueExpr"), ("prediction", "onnx_tool/graph.py: ShapeEngine")])
prop("P15", "The compute graph drops only shape computation",
     "Extracting the compute graph removes only nodes whose results are used solely to compute shapes; every remaining node keeps its operator, inputs and outputs, all data-path nodes remain, the inputs and outputs of the model and tensor shapes are unchanged, and the graph it was extracted from is left as it was.",
     ["programs"], "random models mixing data paths and shape-computing subgraphs, including values used both as data and as shape",
     "No test builds a compute graph; the removal decision is a global property of consumers.",
     [G], [("compute graph extraction", "onnx_tool/graph.py: get_compute_graph, __find_shape_tensors__")])
prop("P16", "Every reported fusion match satisfies the declared pattern",
     "Each node group returned for a fusion pattern contains nodes of exactly the declared operator types in the declared positions, satisfying all declared attribute conditions and connected by all declared links, no node belongs to two groups, and an exact instance of the pattern that touches no reported group is never missed.",
     ["programs", "configurations"], "random patterns (chains, branches, attribute comparisons) x random host graphs with near-miss instances (wrong operator, attribute, edge)",
     "Pattern matching is over all graphs and patterns; no test matches anything.",
     [F], [("pattern search", "onnx_tool/fusion.py: FusionPattern.search_pattern, search_node"), ("attribute comparison", "onnx_tool/fusion.py: AttrExpr/NodeCondition")])
prop("P17", "Fusing nodes preserves the graph around them",
     "Replacing a group of nodes by one fused node keeps all other nodes, their connections and the model's inputs and outputs unchanged; the fused node consumes exactly the group's external inputs and produces exactly its externally used outputs, and the producer/consumer relations stay consistent with the node list.",
     ["programs", "histories"], "random DAGs x convex node groups x sequences of fusions",
     "Structural consistency after arbitrary sequences of rewrites cannot be sampled by fixed examples, and none exist.",
     [G, F], [("node fusion", "onnx_tool/graph.py: fuse_subgraph_node_names, fuse_postop_node_names, get_iotensors, remove_node")])
prop("P18", "Folding BatchNormalization into Conv preserves results",
     "Applying the Conv+BatchNormalization fusion to any model produces a model with numerically equivalent outputs on every input, with and without a Conv bias, and leaves convolutions whose result is also used elsewhere or whose weights are shared computing what they computed before.",
     ["programs", "inputs"], "random conv nets x epsilon, bias, groups, channel counts, fan-out of the conv output, weight sharing",
     "Numerical equivalence over all weights and topologies; no test fuses.",
     [F], [("BN folding", "onnx_tool/fusion.py: ConvBNFusion")])
prop("P19", "Quantization error is bounded by half a step",
     "For every weight tensor and quantization setting (bit width, symmetric or not, per tensor, channel or block), de-quantising the produced codes with the produced scales and zero points reproduces each weight within half a quantization step, codes stay within the representable range, and constant or zero weights are reproduced without NaN.",
     ["inputs", "configurations"], "random, constant, zero, one-sided, huge/tiny weights x bits {4,8} x symmetric/asymmetric x tensor/channel/block layouts x odd sizes",
     "An error bound over all real-valued tensors; no test quantises.",
     ["onnx_tool/quantization.py"], [("quantizer", "onnx_tool/quantization.py: quantize functions")])
prop("P20", "4-bit packing is lossless and size-exact",
     "Packing 4-bit codes keeps every code recoverable bit-exactly in the documented order, for signed and unsigned codes and any shape the packer accepts, and the packed size is half the number of codes of each row, rounded up.",
     ["inputs"], "all 4-bit code values x positions x shapes",
     "No test packs.",
     ["onnx_tool/quantization.py"], [("packer", "onnx_tool/quantization.py: pack_4bits")])
prop("P21", "Model weight quantization only re-expresses the selected weights",
     "Quantizing selected weights of a model leaves every other weight, node and connection unchanged, gives each consumer of a quantized weight access to codes and scales that reproduce the original weight within the quantization error, and keeps the model's inputs and outputs.",
     ["programs", "configurations"], "random models with private/shared weights x quantization settings x file round trip",
     "Rewiring correctness over all sharing patterns and settings; untested.",
     ["onnx_tool/quantization.py", G], [("graph quantization", "onnx_tool/quantization.py: graph_quantize")])
prop("P22", "Serialized compute graph decodes to the same graph",
     "The compute-graph file written for a model, decoded by an independent reader of the documented layout, contains exactly the graph's nodes in execution order with their operators, attributes, inputs and outputs, and exactly its weights with their shapes, types and bytes.",
     ["programs"], "random graphs x attribute kinds and values (extremes, empty lists, strings) x weights",
     "Binary layout must be unambiguous for every attribute type and length; no test serialises.",
     ["onnx_tool/serialization.py"], [("graph serializer", "onnx_tool/serialization.py: serialize_graph")])
prop("P23", "Serialized shape engine and memory plan decode to the same content",
     "The shape-engine and memory-plan files written for a model, decoded by an independent reader, give the same variables, expressions, tensor descriptions, offsets, sizes and pool size as the in-memory objects, so a runtime reading them derives identical shapes and addresses.",
     ["programs", "inputs"], "random shape engines and memory plans, including large offsets",
     "No test serialises anything.",
     ["onnx_tool/serialization.py"], [("serializers", "onnx_tool/serialization.py: serialize_shape_engine, serialize_memory_compression")])
prop("P24", "Exported tensors and edited interfaces match the request exactly",
     "Exporting a model's tensors writes one array file per weight with exactly its values and type, editing a model's inputs and outputs changes exactly the named entries' shapes and nothing else in the model, and dumping tensors adds exactly the named tensors to the outputs.",
     ["programs", "configurations"], "random models x requested interface edits (fixed sizes, symbolic names)",
     "No test exercises either API.",
     ["onnx_tool/__init__.py", T], [("export", "onnx_tool/__init__.py: model_export_tensors_numpy"), ("io edit", "onnx_tool/__init__.py: model_io_modify")])
prop("P25", "Subgraph extraction partitions the model",
     "Splitting a model at given tensors yields parts that together contain every node exactly once with unchanged connections and weights, whose inputs and outputs are the cut tensors, and which, run one after another, compute what the whole model computes.",
     ["programs", "inputs"], "random DAGs x cut tensors",
     "No test extracts a subgraph.",
     [G, "onnx_tool/__init__.py"], [("partition", "onnx_tool/graph.py: get_subgraph, __get_subnodes_byio__, get_onnxgraph_by_nodenames")])
prop("P26", "LLM parameter and MAC counts follow from the architecture configuration",
     "For every supported transformer configuration, the built model's parameters and prefill/decode MACs equal those computed independently from the configuration (attention, grouped KV heads, MLP, experts, embeddings, tied heads, biases), for any batch, prompt length and cache length.",
     ["configurations", "inputs"], "architectures x hidden sizes, layers, heads, kv heads, head dims, experts, vocab x batch x sequence x past length",
     "README tables list a few models; the formula must hold for all configurations and sequence lengths and no stable test builds an LLM.",
     ["onnx_tool/llm.py", "onnx_tool/model_configs.py"], [("builder", "onnx_tool/llm.py: Builder.build_graph, add_* layers"), ("profile", "onnx_tool/llm.py: Builder.profile")])
prop("P27", "LLM KV cache, activated parameters and latency follow from the profile",
     "The KV-cache size reported for a model is exactly the bytes of the keys and values of all layers which keep a key/value cache (all but linear-attention layers) for the given batch, context and precision, activated parameters of expert models count only routed and shared experts, and estimated latency is the sum over operators of the larger of compute and memory time for the device.",
     ["configurations", "inputs"], "architectures x batch x context x bit widths x device descriptions",
     "No stable test computes either.",
     ["onnx_tool/llm.py", "onnx_tool/device.py"], [("kv cache", "onnx_tool/llm.py: kv cache accounting"), ("latency", "onnx_tool/llm.py: profile with device; onnx_tool/device.py")])
prop("P28", "Repeated and interleaved use gives history-independent results",
     "The results of shape inference, profiling, memory planning and model building depend only on the model, configuration and inputs given, never on what was computed before in the same process or on the same object with other sizes.",
     ["histories", "schedules"], "random call sequences over several models/configurations (different input sizes, exclusions, builders) compared with a fresh process",
     "State leaks only show up in particular call histories; tests run each call once.",
     [G, "onnx_tool/__init__.py", "onnx_tool/llm.py", N], [("per-object state", "onnx_tool/graph.py: Graph"), ("module state", "onnx_tool/__init__.py: NoMacsOps; onnx_tool/llm.py: ArchMap"), ("per-node state", "onnx_tool/node.py")])
prop("P29", "The tool never modifies its caller's objects or source files",
     "Loading, inferring, profiling, transforming or saving leaves the caller's model object, input arrays, configuration dictionaries and the source file unchanged, and output files are only written where requested.",
     ["histories", "configurations"], "all public operations x random models x argument objects",
     "Aliasing bugs appear only for particular operations and later mutation; no test checks arguments afterwards.",
     ["onnx_tool/__init__.py", "onnx_tool/model.py", G, T], [("loading", "onnx_tool/__init__.py: loadmodel; onnx_tool/model.py"), ("input update", "onnx_tool/tensor.py: update_tensor")])
prop("P30", "Sparsity statistics match their definition",
     "The sparsity ratio reported for a weight is the fraction of exactly zero elements (elements equal to 128 for uint8 weights; weights of rank 2 or 4 with more than 4096 elements are searched), and a reported sparse block size and ratio describes blocks which really are entirely zero, counted exactly; the block is the largest power-of-two block which keeps the ratio within 0.1. A node of the profile carries the sparsity of its sparsest weight.",
     ["inputs"], "random and structured sparse weights x shapes x block patterns",
     "No test computes sparsity.",
     [T, "data/Profile.md"], [("sparsity search", "onnx_tool/tensor.py: search_sparse_blocksize, sparsity")])
prop("P31", "Graph simplification options preserve the selected computation",
     "Loading with a fixed If branch, a fixed TopK size or dangling-node removal gives a model that computes what the original computes when that branch is taken, that k is used, or for the declared outputs, with no needed node missing and no dangling node left.",
     ["programs", "configurations"], "random models with If branches, TopK whose k is computed, and dead subgraphs",
     "No test sets any of these options.",
     [G, "onnx_tool/utils.py"], [("If removal", "onnx_tool/graph.py: __remove_if__"), ("fixed TopK", "onnx_tool/graph.py: __set_fixed_topk"), ("dangling removal", "onnx_tool/graph.py: remove_dangling_nodes")])
prop("P32", "Skipping or removing nodes reconnects the graph consistently",
     "Skipping a pass-through node, or removing the shape-only operators from a graph, connects every consumer of its result to its input, keeps the model outputs available and every other node untouched (a node stays only if another result of it is in use, or if its result is a model output and its input a model input, a weight or another model output); removing a node recursively removes it and the producers nothing else needs, removing a subtree removes it and what depends on it, and producer/consumer relations stay consistent.",
     ["programs", "histories"], "random DAGs x skippable nodes x order of removal x fan-out and repeated inputs",
     "No test removes a node.",
     [G, F], [("skip", "onnx_tool/graph.py: skip_node, remove_node"), ("bulk removal", "onnx_tool/fusion.py: removeShapeOps")])
prop("P33", "Invalid or incomplete requests are rejected, not silently profiled",
     "Shape inference with an input dimension which is symbolic, unknown or negative (or an input without any shape), with operands which cannot be broadcast, multiplied, reshaped, expanded, concatenated, squeezed or convolved with their weight, or with sizes giving a negative dimension, raises an error; profiling or reporting without a successful shape inference, or reporting without a profile of the last one, is warned about; none of them gives a report, file or profile presented as valid. Unusable arguments of the profiling calls (unknown operators to exclude, unknown metrics, no model) are refused.",
     ["inputs", "histories"], "models with unresolved inputs, shape mismatches, failing nodes, wrong call orders",
     "One test checks incompatible broadcast in a helper; the rejection must hold for the whole pipeline.",
     [G, N], [("input check", "onnx_tool/graph.py: check_inputs, shape_infer"), ("validity flags", "onnx_tool/graph.py: valid_shape, valid_profile")])
prop("P34", "The command line gives the same results as the API",
     "Each command-line invocation (profiling with fed shapes and values of any supported element type, excluded operators, report and model files; exporting tensors; constant folding; editing the interface) produces the same report and files as the corresponding API call with the same model and options, and fails with a non-zero status and without writing files when its options or its model cannot be used.",
     ["configurations", "inputs"], "all CLI modes x dynamic shape arguments x options",
     "No test invokes the command line.",
     ["onnx_tool/__main__.py"], [("CLI", "onnx_tool/__main__.py")])
prop("P35", "Pool-backed inference computes what the model computes",
     "Executing a model inside its compressed memory pool, at any input size within the planned range and in any sequence of sizes, gives the same outputs as executing it with private buffers, and every tensor view stays inside its planned slot.",
     ["programs", "inputs", "histories"], "random models x input size sequences within the regressed range",
     "The inference engine has no stable tests; corruption needs particular sizes and orders.",
     ["inference/memory_pool.py", "inference/infer.py", G], [("pool", "inference/memory_pool.py: MemoryPool"), ("executor", "inference/infer.py: GraphInfer")])
prop("P36", "Detection results and their accuracy scores follow from their definitions",
     "Decoding a detector's output keeps exactly the boxes above the confidence threshold, clipped into the input, which class-wise non-maximum suppression keeps (best score first; a box is dropped only if it overlaps a better kept one of its class by more than the threshold), at most the given number of best ones. The reported AP at an overlap threshold is the 101-point interpolated average precision, with detections matched by score to the best-overlapping unmatched annotation of their class and image, averaged over the classes with annotations. Evaluations of datasets, of image directories and precision-recall points compare the detections of the evaluated images, in the coordinates of the original image, with those images' annotations (the k-th class of the model is the category with the k-th smallest id).",
     ["inputs", "configurations"], "boxes, scores, classes and annotations x thresholds x image aspect ratios x category numberings x numbers of images",
     "No stable test runs the detection evaluation; mistakes show only for particular overlaps, orders, ties with thresholds, aspect ratios or category numberings.",
     ["inference/yolo_eval.py"], [("decoding", "inference/yolo_eval.py: yolo_postprocess, _nms_per_class, _box_iou"), ("scores", "inference/yolo_eval.py: compute_coco_metrics, _compute_ap"), ("evaluations", "inference/yolo_eval.py: YOLOEvaluator.evaluate_coco, evaluate_image_dir, export_pr_curve, load_image")])
prop("P37", "Inference kernels compute what their operators define",
     "Every computing kernel of the inference engine fills its planned outputs with what the ONNX operator defines for its inputs and attributes (padding at either end, strides, dilations, groups, negative axes and indices, index operands of any element type, attribute and input forms, weights prepared by the kernel; cubic Resize and auto_pad are left out), changes no input, and the fused kernels compute their documented formulas. Attention fed in any chunks with a key/value cache gives what causal attention over the whole sequence gives, in both layouts, with grouped heads, and writes only its own layer's rows of the cache. A whole model run by GraphInfer with these kernels, at any sequence of sizes within its ranges, gives the outputs the model defines, also after runs that failed (in a kernel or for an input that does not fit), with inputs written into the same tensors again, with sizes computed at run time, comparisons, and weights which several operators use in different ways.",
     ["inputs", "configurations", "histories"], "kernels x shapes x attributes x index values x chunk sequences of cached attention; models x sequences of input sizes",
     "No stable test runs a kernel; mistakes show only for particular attributes, layouts, head groupings or chunk sequences.",
     ["inference/kernels.py"], [("operators", "inference/kernels.py: ConvKernel, PadKernel, GatherKernel, SliceKernel, ReduceMeanKernel, SplitKernel, TopKKernel"), ("attention", "inference/kernels.py: SDPAKernel, RopeKernel, LayerNormKernel")])
prop("P38", "Text generation follows the language model",
     "With an exported Qwen2, Qwen3 or Llama model and its weights (biases, tied or separate output head, grouped heads), at every step of LLMInfer.generate the logits used are those of the model's definition for the whole sequence so far, with or without a key/value cache, whatever was generated, or given up with an error, before with the same engine; feeding a sequence through the engine in any pieces gives every position the same logits. Greedy decoding (temperature 0) takes the best token, sampling draws by the softmax of the logits over the temperature, among the top_k best if given. Generation ends right after the end token, or when prompt and new tokens together are max_length tokens; the returned text is that of the prompt and the new tokens without special tokens. The command line does the same from a model directory, exporting the model when it is missing.",
     ["inputs", "configurations", "histories"], "architectures x sizes x weights x prompts x lengths x end tokens x sampling x sequences of texts and pieces",
     "No stable test generates text; mistakes show only in later steps, later prompts, particular head layouts or with end tokens.",
     ["inference/llm_infer.py", "inference/infer.py", "inference/kernels.py", "onnx_tool/llm.py"], [("generation", "inference/llm_infer.py: LLMInfer.generate, get_qwen3_weight_map, main"), ("engine", "inference/infer.py: GraphInfer._preload_constants, forward"), ("model", "onnx_tool/llm.py: Builder.build_graph, add_kv_cache")])
prop("P39", "Super-resolution gives the model's image for every size and thread",
     "SREngine.process gives, for every RGB image whose height and width are at most those the engine was initialised with (whatever these are), an image larger by the scale named in the model's file name, whose values are the model's outputs for the image (reflected at its bottom and right to a multiple of four), limited to 0..1 and turned into the nearest of 0..255, whatever images were processed before and also when several threads ask the same engine at once. The caller's image stays unchanged. An image turned into a tensor of either element type and back is the same image; a comparison picture is the row of the enlarged original, the result and the bicubic image, if given.",
     ["inputs", "schedules", "histories"], "models x element types x maximum sizes x sequences of image sizes x interleavings of threads",
     "No stable test processes an image; mistakes show only at sizes which are no multiple of four, at particular levels, or when threads meet in the engine.",
     ["inference/sr_gui.py", "inference/infer.py"], [("processing", "inference/sr_gui.py: SREngine.initialize, SREngine.process, tensor_to_image, image_to_tensor, make_comparison_grid"), ("engine", "inference/infer.py: GraphInfer.forward")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
