"""property -> check modules (several modules share one verdict)"""
C = 'vt.checks.'
MODULES = {
    'P01': [C + 'ops'],
    'P02': [C + 'ops', C + 'graphshape'],
    'P03': [C + 'graphshape'],
    'P04': [C + 'ops', C + 'graphvalue'],
    'P05': [C + 'folding'],
    'P06': [C + 'saveload'],
    'P07': [C + 'weights'],
    'P13': [C + 'reorder'],
    'P11': [C + 'plan'],
    'P12': [C + 'plan'],
    'P14': [C + 'shapeengine'],
    'P15': [C + 'computegraph'],
    'P35': [C + 'poolrun'],
    'P36': [C + 'deteval'],
    'P37': [C + 'kernels', C + 'realrun'],
    'P38': [C + 'generation'],
    'P39': [C + 'superres'],
    'P16': [C + 'patterns'],
    'P17': [C + 'fusegraph'],
    'P18': [C + 'convbn'],
    'P32': [C + 'skipping'],
    'P31': [C + 'simplify'],
    'P19': [C + 'quantcheck'],
    'P20': [C + 'quantcheck'],
    'P21': [C + 'quantcheck'],
    'P22': [C + 'serial'],
    'P23': [C + 'serial'],
    'P24': [C + 'exporting'],
    'P25': [C + 'subgraph'],
    'P08': [C + 'macs'],
    'P09': [C + 'profile'],
    'P10': [C + 'profile'],
    'P26': [C + 'llm'],
    'P27': [C + 'llm'],
    'P28': [C + 'history'],
    'P29': [C + 'footprint'],
    'P30': [C + 'sparse'],
    'P33': [C + 'rejecting'],
    'P34': [C + 'cli'],
}
_REF = 'the ONNX reference evaluator executes the same node or model'
# property -> (deciding method, assurance note)
NOTES = {
    'P33': ('inputs made unresolved and operands made incompatible (as decided by construction, ONNX strict inference and the reference evaluator) must be refused; a monitor of the last inference and the last profile decides when a report may be given', 'Random models, defects and call sequences; operand compatibility is only expected of broadcasting, products, reshaping, concatenating, squeezing, convolution channels and negative sizes.'),
    'P34': ('every invocation run as a process of its own and its exit status, output and files compared with those of the API call', 'Random options over random models, all modes; differential, the API itself is judged by the other properties.'),
    'P30': ('zero elements and zero blocks of every weight counted by an independent counter and compared with the reported ratio, block and report columns', 'Random weights over shapes, types and block structures; the searched sizes and the uint8 zero (128) are taken as documented in the code.'),
    'P29': ('snapshots of every argument compared byte for byte after each call, an audit hook over all file operations and directory comparisons', 'Random sequences of all public operations; held on the calls made.'),
    'P28': ('differential monitor: every answer of a long-lived process and object compared with the answer of a fresh object in a forked process which did nothing else, and across interpreters with different hash seeds', 'Random histories over random models and language-model builders; held on the histories run.'),
    'P26': ('parameters and operation counts of the built graph compared with an independent derivation from the configuration; the predefined configurations also with the published parameter counts; the exported file re-read by onnx alone', 'Predefined configurations and random configurations of every architecture, batch sizes, prompt and cache lengths; two known findings are listed.'),
    'P27': ('KV cache bytes, activated parameters and latency of the built graph compared with an independent derivation from the configuration and the per-node profile', 'Predefined and random configurations of every architecture, precisions and devices.'),
    'P24': ('every exported file read back and matched one to one with the weights; the edited file compared entry by entry with the same model edited by hand; dumped tensors compared with the executed model', 'Random models, names, types and edits.'),
    'P25': ('every part compared node by node with the model, its inputs, outputs and weights decided from the node list alone, and all parts executed in order against the whole model', 'Random models, cuts and node sets. Trusts ReferenceEvaluator.'),
    'P19': ('every weight de-quantized by hand from the codes, scales and zero points and compared with the half-step bound of its own group', 'Held on the generated weights (all settings, extreme values); not a proof over all reals.'),
    'P20': ('an independent unpacker recovers every code; all pairs of code values in every element type, random shapes', 'All 4-bit value pairs; shapes sampled.'),
    'P21': ('node-by-node comparison of the quantized graph, in memory and in the saved file, with the original model, plus de-quantization of every replaced weight', 'Random models over sharing patterns, roles and settings.'),
    'P22': ('an independent byte-level reader decodes the file and the result is compared with the model', 'Random graphs over attribute kinds and weight types; the layout is inferred from the writer.'),
    'P23': ('an independent byte-level reader decodes both files; decoded expressions are evaluated and compared with the engine', 'Random engines and plans.'),
    'P16': ('an independent exhaustive matcher written from the pattern definition decides, for every pattern and graph, which node groups match; the groups the search returns are compared with it', 'Random graphs containing whole, nearly whole and overlapping copies of random and of the built-in patterns. Held on those searched.'),
    'P17': ('structural oracle (tensors entering and leaving each fused group, order, links, attributes) over the graph before and after every fusion step, and an invariant monitor over producers and consumers', 'Random host graphs and every fusing entry point; held on the steps executed.'),
    'P18': (_REF + '; the model before and after ConvBNFusion executed on the same inputs, and an independent rule for what may be folded', 'Random Conv/ConvTranspose/BatchNormalization chains with shared weights, branches and graph outputs. Trusts ReferenceEvaluator.'),
    'P31': ('a model whose conditions and k are set by hand executed against the model the tool saved; liveness oracle for what must remain and what must go', 'Random models with nested, multi-result, capturing If nodes, TopK nodes and dead chains. Trusts ReferenceEvaluator.'),
    'P32': ('the graph with the node bypassed by hand compared and executed against the one the tool leaves; invariant monitor over producers and consumers', 'Random graphs and every node position; held on the removals executed.'),
    'P01': (_REF + '; inferred shape compared with executed shape per generated attribute/shape combination', 'Held on the executions generated (tens of thousands of distinct op/attribute/shape signatures per run); trusts onnx ReferenceEvaluator and onnx.shape_inference.'),
    'P02': (_REF + '; inferred element type compared with the executed one', 'As P01, plus whole models.'),
    'P03': (_REF + ' for several input sizes; every tensor shape compared', 'Random models with run-time shape subgraphs; held on those executed. Trusts ReferenceEvaluator.'),
    'P04': (_REF + '; computed values compared up to rounding', 'Random single operators over wide value ranges and whole models. Trusts ReferenceEvaluator.'),
    'P05': ('original and folded file executed on the same inputs; dependency oracle for what may and must be folded', 'Random models with constant chains and quantised weights.'),
    'P06': ('saved file re-read by onnx alone, compared structurally and executed against the original', 'Random models, all operators, custom domains, control-flow bodies.'),
    'P07': ('every element type and storage form decoded by onnx.numpy_helper (and by hand where it cannot) and compared bit for bit with what the tool holds and writes back', 'All tensor element types and storage forms, random shapes and bit patterns incl. NaN payloads.'),
    'P13': ('event order of every reordered node list checked by an online producer-before-consumer monitor, both models executed', 'Random models in random listing orders, with control-flow bodies and omitted inputs/outputs.'),
    'P08': ('independent operation counts from the executed tensors of each node (loop-count formulas derived from the operator definitions, not from the code) compared with the reported MACs', 'Every operator with a documented count, random shapes/attributes, tens of thousands of signatures per run.'),
    'P09': ('node memory compared with the bytes of executed outputs and stored weights; every figure of the printed, text and CSV report parsed back and compared with the profile', 'Random models with shared/repeated/Constant/sparse weights of several types and random exclusions.'),
    'P10': ('parameters of each node, their sum and the de-duplicated total compared with counts over the file', 'Random models with shared/repeated/Constant/sparse weights.'),
    'P11': ('liveness of every tensor replayed over the node list by an independent monitor; every pair of simultaneously live tensors checked for shared bytes, every slot for size and bounds', 'Random DAGs, sizes, element types and paddings, thousands of plans per run; liveness is computed from the node list, not from the planner.'),
    'P12': ('pool size compared with the highest slot byte, the peak of simultaneously live bytes and the padded sum; plans of repeated and fresh runs compared', 'As P11.'),
    'P14': ('closed-form sizes known from the construction of the model compared with the shape engine at many values of every variable', 'Random models whose dimensions are affine or integer-scaled in one variable; other dimensions are only counted.'),
    'P15': ('backward-reachability oracle over data operands and snapshots of both graphs before and after', 'Random models mixing data and shape computation.'),
    'P35': ('models executed inside the planned byte pool (poisoned, with a shadow copy of every live tensor) at sequences of sizes, by a runtime of this check and by the repository engine on a numpy stand-in for torch; outputs compared with the reference evaluator', 'torch is not installed: torch kernels themselves are not run. Float32 models only, as the engine supports.'),
    'P36': ('decoded boxes, overlaps and scores compared with definitions evaluated in rational numbers; whole dataset, directory and curve evaluations run on stand-ins for cv2 and the model, with every laid-out image, drawn box and score observed', 'torch and cv2 are not installed: images are arrays and the model looks its detections up by image content. Random boxes, annotations and category ids; ties between scores are left out.'),
    'P37': ('every kernel run on poisoned outputs with its inputs watched, results compared with the ONNX reference evaluator or the documented formula; an online monitor of the key/value cache over random chunk sequences; random whole models run by GraphInfer at sequences of sizes, every output compared with the reference evaluator', 'torch is not installed: the kernels run on a numpy stand-in which has the restrictions of torch (vt/faketorch_ops.py), an operation it does not know gives no verdict. Random shapes, attributes and values; float32.'),
    'P38': ('an online monitor of every engine run (tokens fed, logits given) and an offline check of every finished text against a float64 computation of the model from its weights, over exported tiny models, several prompts per engine, chunked feeding and the command line', 'torch, safetensors, transformers are not installed: stand-ins; tiny random Qwen2/Qwen3/Llama models, float32, CPU, sequences within the exported lengths.'),
    'P39': ('every processed image compared with the reference evaluator run on the padded image, one after the other and from threads sharing the engine with delays injected between its operators', 'torch, PIL and tkinter are stand-ins; small random upscaling models, images up to 30x30 and a random maximum; windows, file formats and bicubic scaling are not judged.'),
}
NA = {}
