"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))


Q = 'src/HGQ/quantizer/quantizer.py'
U = 'src/HGQ/utils/utils.py'
B = 'src/HGQ/layers/base.py'
BN = 'src/HGQ/layers/batchnorm_base.py'
D = 'src/HGQ/layers/dense.py'
CV = 'src/HGQ/layers/conv.py'
M = 'src/HGQ/layers/misc.py'
PL = 'src/HGQ/layers/passive_layers.py'
FP = 'src/HGQ/proxy/fixed_point_quantizer.py'
CO = 'src/HGQ/proxy/convert.py'
PD = 'src/HGQ/proxy/precision_derivation.py'
UL = 'src/HGQ/proxy/unary_lut.py'
QK = 'src/HGQ/proxy/plugins/qkeras.py'
BO = 'src/HGQ/bops/bops.py'

p('C01', 'Proxy rounding modes match ap_fixed, ties included',
  'Each of the seven rounding modes selectable on the proxy fixed-point quantizer (TRN, TRN_ZERO, RND, RND_ZERO, RND_INF, RND_MIN_INF, RND_CONV) maps every scaled input, positive, negative or zero, exact tie or not, to the integer the ap_fixed mode of that name prescribes. A mode name selects its own mode and no other.',
  ['inputs', 'configurations'], 'all real inputs (both signs, every fractional part, exact ties) x the 7 mode names',
  'The tests only reach TRN and RND through whole converted models on random data, where exact ties of the other modes practically never occur; five modes are never executed.',
  [FP], [('TRN..RND_CONV, RND_MAP', FP)], observe=['gfixed_quantizer(..., RND=mode)'])
p('C02', 'Proxy overflow modes match ap_fixed for every over/underflow',
  'Each overflow mode (WRAP, WRAP_SM, SAT, SAT_SYM, SAT_ZERO) returns in-range integers unchanged (SAT_SYM excludes the most negative code when signed) and maps every out-of-range integer, signed or unsigned, any distance beyond either bound, to the code the ap_fixed mode of that name prescribes. A mode name selects its own mode and no other.',
  ['inputs', 'configurations'], 'all integers x signedness x bitwidth x the 5 mode names',
  'Converted test models are traced so that overflow does not occur, hence the out-of-range branches are not sampled; SAT_SYM, SAT_ZERO and WRAP_SM are never used.',
  [FP], [('SAT..WRAP_SM, SAT_MAP', FP)], observe=['gfixed_quantizer(..., SAT=mode)'])
p('C03', 'Proxy quantizer is an ap_(u)fixed of exactly its declared type',
  'For any sign flag, total width and integer width, per element or broadcast, the proxy quantizer and the fixed/ufixed/gfixed helpers round on the grid of spacing 2^-(width-integer), then apply the overflow mode at that width and signedness, and yield exactly 0 where the width is 0. The quantizer layer applies precisely the sign, widths, rounding and overflow mode it was constructed with, reports as its result type the element-wise maxima of (sign, integer, fractional) bits, is heterogeneous exactly when some element differs, may be fused only when homogeneous and its producer feeds nothing else, and refuses to run in training mode.',
  ['inputs', 'configurations'], 'all inputs, bitwidth tensors, modes',
  'Tests compare with csim on a few sampled models (most need a compiler and fail or are skipped offline).',
  [FP], [('gfixed_quantizer, gfixed/ufixed/fixed', FP), ('FixedPointQuantizer', FP)], observe=['layer output', 'result_t_kif', 'fusible'])
p('C04', 'Inference quantization is deterministic, on-grid, nearest or floor',
  'Outside training every weight, bias and activation quantizer returns floor(x*2^f)/2^f when configured for floor and floor(x*2^f+1/2)/2^f for every other strategy, where f is the bitwidth rounded to the nearest integer, regardless of which stochastic or noise strategy was configured for training. Biases are quantized with the finest fractional width of their channel, and strategy names and numeric codes denote the documented rounding strategies.',
  ['inputs', 'configurations'], 'all inputs, bitwidths, strategies, names or codes, granularities',
  'Only a few strategies and shapes are sampled; determinism and grid membership quantify over all inputs.',
  [Q, U], [('HGQ.forward, HGQ.bias_forward, q_round', Q), ('strategy_dict', U)], observe=['HGQ.__call__', 'HGQ.bias_forward'])
p('C05', 'Training quantization: same value, straight-through and bitwidth gradients',
  'In training the forward value of a quantizer equals the quantized value under the configured rounding strategy (with the bitwidth rounded when exact quantization is requested, unrounded otherwise); stochastic rounding picks one of the two neighbouring grid points with probability given by the fractional part and noise injection stays within half a step. Its gradient with respect to the input is the identity, and with respect to the bitwidth is -ln2 times the quantization error; outside training no gradient reaches the bitwidth.',
  ['inputs', 'configurations'], 'all inputs, bitwidths, strategies, exact or inexact',
  'Tests check that training runs, never the gradient; gradients and the law of stochastic rounding are not observable from one run.',
  [Q], [('HGQ.forward, HGQ.bias_forward, q_round', Q)], observe=['tf.GradientTape over HGQ.__call__'])
p('C06', 'Bitwidth granularity, multiplicity, clipping and kernel adaption',
  'A quantizer keeps one bitwidth per element except along the dimensions configured to share one (given as a tuple or by name), and records how many elements share each bitwidth as the product of the shared, statically known dimensions. Before each use the bitwidth is clipped to the configured range; adapting to a reference tensor shifts each bitwidth by minus log2 of the magnitude, taking the smallest over each shared group; kernel bitwidths start from the configured value and are adapted once before first use unless disabled.',
  ['inputs', 'configurations'], 'all shapes, sharing specifications, initial widths, clip ranges, reference tensors',
  'Tests use two granularities on a few shapes and only look at final outputs.',
  [Q, B, BN], [('HGQ._compute_bw_shape_and_degeneracy, build, __call__, adapt_bw_bits', Q), ('HLayerBase.init_quantizers', B)], observe=['fbw variable shape/values'])
p('C07', 'Recorded min/max cover every quantized value since the last reset',
  'While recording is on, each call widens the stored minimum and maximum of every bitwidth group to include all quantized values produced in that call (reduced over exactly the shared dimensions), never narrowing them; calls with recording off leave them untouched; a reset sets them to +inf/-inf. Layers record during training, or when tracing is switched on, unless the caller says otherwise.',
  ['inputs', 'histories'], 'all sequences of calls, batches, resets, recording flags',
  'Tests trace once with one dataset; arbitrary call histories and batch splits are not explored.',
  [Q, B], [('HGQ.forward (record), minmax_reg_reset, init_minmax', Q), ('HLayerBase.call', B)], state=[('_min/_max', 'recorded range', Q)], observe=['_min/_max after any history'])
p('C08', 'Derived bits cover the recorded range without overflow',
  'The exact (sign, integer, fractional) bits derived from a recorded range represent both recorded extremes on the grid of that quantizer without overflow (also when only non-negative values matter), use a sign bit exactly when a negative value was recorded, and collapse to zero bits only if no bit is left. For reference data the bits represent every quantized entry exactly. Bits are refused when nothing has been traced.',
  ['inputs', 'configurations'], 'all recorded ranges, bitwidths, reference arrays',
  'Range end points at powers of two and sign corner cases are rarely sampled.',
  [Q], [('HGQ.get_bits_exact, get_arr_bits, get_bits', Q)], observe=['get_bits_exact(), get_bits()'])
p('C09', 'H-layers compute act(quantize(op(x, qkernel) + qbias)) from their own state',
  'At inference every trainable quantized layer (dense, 1D/2D convolution, their batch-norm-fused variants, quantize, activation, add) equals the corresponding plain Keras operation applied with its own stored hyper-parameters to the input, the quantized fused kernel and the quantized fused bias, followed by its activation quantizer and then the activation (for the stand-alone activation layer: activation first, quantizer last). Rounding mode "auto" resolves to round-to-nearest exactly when the bias can absorb the rounding offset and to floor otherwise (round-to-nearest for the activation layer), and only relu/linear are accepted as built-in activation.',
  ['inputs', 'configurations'], 'all inputs, weights, strides/padding/dilation, bias or not, layer classes',
  'Tests compare layer against its own proxy, so an error common to both passes, and only sampled hyper-parameters are reached.',
  [B, D, CV, M], [('jit_forward/forward of HDense, HConv, H*BatchNorm, HQuantize, HActivation, HAdd', D), ('HLayerBase.call/post_build', B)], observe=['layer(x, training=False)'])
p('C10', 'Deployed weights equal the inference weights of the HGQ model',
  'The kernel written to the proxy is exactly the quantized fused kernel used at inference and the bias exactly the quantized fused bias, plus half a quantization step if and only if rounding to nearest is emulated by truncation (the quantizer does not floor and its granularity lets the bias absorb it), and zero on channels whose output has no bits. All other weights are copied from the weight of the same name, and layers without fused weights copy their plain kernel and bias.',
  ['inputs', 'configurations'], 'all trained weights, granularities, rounding strategies, layers',
  'Sampled models only; a wrong half-LSB shows up only on exact ties, a missing mask only on dead channels.',
  [B, CO], [('fused_qkernel, fused_qbias, can_bias_cover_rnd', B), ('copy_fused_weights, get_weight, to_keras_layer', CO)], observe=['proxy layer weights'])
p('C11', 'Fused batch-norm: inference folds gamma, beta, moving statistics exactly',
  'For batch-norm-fused layers the inference kernel is kernel*gamma/sqrt(moving_variance+epsilon) and the inference bias is bias+beta-moving_mean*gamma/sqrt(moving_variance+epsilon) (kernel factor 1 without scaling, bias unchanged without centering). A training step uses the same formulas with the statistics of the current batch and updates each moving statistic as momentum*old+(1-momentum)*batch statistic over all non-channel axes; inference never changes them.',
  ['inputs', 'histories', 'configurations'], 'all batches, weights, momentum/epsilon, center/scale flags, training histories',
  'Tests freshly initialise batch norm (beta=0, mean=0, var=1), where most of the formula is invisible.',
  [BN, D, CV], [('HBatchNormBase.fused_kernel/fused_bias, _post_build', BN), ('bn_train_jit_forward', D), ('HConvBatchNorm.bn_train_jit_forward', CV)], state=[('moving_mean/moving_variance', 'running statistics', BN)], observe=['training and inference outputs'])
p('C12', 'Proxy quantizers carry the derived precision, rounding and overflow mode',
  'Conversion follows every quantized layer with a proxy quantizer whose sign, width and integer bits are exactly the derived bits of its output, whose rounding is round-half-up unless the layer floors or its bias absorbs the rounding (then truncate), and whose overflow mode is wrap when aggressive and saturate otherwise. A layer with built-in relu becomes layer, wide uniform signed quantizer with enough extra fractional bits, relu, then the non-negative quantizer; signature layers become a truncating quantizer of the declared type, and the configured parallelisation factor is attached under the layer name.',
  ['configurations', 'inputs'], 'all layers, traced ranges, strategies, aggressive flag',
  'Sampled models only; conservative widths or a lost flag do not change outputs on traced data.',
  [CO], [('ProxyLayerXFormer.get_kbiRS and __call__ overloads, to_proxy_model', CO)], observe=['quantizer weights/config in proxy model'])
p('C13', 'Proxy graph computes the same dataflow and leaves the source untouched',
  'Conversion yields a flat model with the same inputs, outputs and dataflow as the source, nested or shared models and layers included: every call node is converted once and fed by exactly the tensors of its parents in order, with dropout and linear activations as identities and unsupported layers refused. Layer names stay unique and derived from the original name, and the source model (its names, nodes, weights, configuration) is not modified.',
  ['programs', 'configurations'], 'all model graphs (nesting, sharing, multi input/output)',
  'Only a handful of graph shapes are converted in tests and the source model is never re-inspected.',
  [CO], [('solve_dependencies, _get_out_tensor, apply_layer, convert_model, Namer', CO), ('ProxyLayerXFormer.__call__', CO)], observe=['to_proxy_model(model) graph and source model'])
p('C14', 'Tracing resets, records the whole dataset in inference mode, then stops',
  'Tracing resets and enables recording on every quantized layer among the model\'s layers when asked to reset, runs the entire dataset (list inputs sliced consistently, last partial batch included) in inference mode, then scales the recorded ranges about their midpoint by the cover factor, re-quantized, and limits ranges of softmax, sigmoid and tanh outputs to what those functions can produce. It finally turns recording off on every quantized layer and returns the sum of all layers\' exact BOPs (with the predictions in dataset order if requested); the reset callback also walks nested models.',
  ['inputs', 'configurations', 'histories'], 'all datasets, batch sizes, cover factors, layer mixes',
  'Tests use one dataset and batch size; a dropped tail batch or wrong clamp is invisible on random data.',
  [BO, B], [('trace_minmax, ResetMinMax, CalibratedBOPs', BO)], observe=['_min/_max and return value of trace_minmax'])
p('C15', 'BOPs equal sum of input-bits x kernel-bits over the operation',
  'A dense layer\'s BOPs are the sum over its matrix product of input bitwidth times kernel bitwidth, a convolution\'s are the sum over the convolution of bitwidths times the parallelisation factor divided by the number of output positions; the differentiable estimate and the exact count use the same formula on approximate and exact bitwidths, respectively. Each layer adds beta times its estimate to the training loss, and callbacks report the sum over all layers, nested models included.',
  ['inputs', 'configurations'], 'all bitwidth tensors, shapes, betas, model nestings',
  'Tests compare the two estimates loosely on few models and never the loss term.',
  [B, D, CV, BO], [('forward, compute_exact_bops, kernel_bw, act_bw, scale_grad', D), ('HConv.forward, compute_exact_bops', CV), ('FreeBOPs', BO)], observe=['bops variable', 'model.losses'])
p('C16', 'Bitwidths propagate through passive layers element by element',
  'The bitwidth tensor reported downstream of reshape, flatten, permute, dropout, concatenate and pooling layers is the input bitwidth tensor moved by the same data movement (for pooling: window maxima with the same window, stride and padding), both for the estimate and for the exact version; a signature layer reports its declared total bits, and a quantized layer the integer, fractional and sign bits of its output (no sign after relu, never negative), broadcast to its output shape. A layer\'s input bitwidth is its only producer\'s output bitwidth, and layers used more than once are rejected.',
  ['configurations', 'programs'], 'all shapes, axes, pool parameters, graphs',
  'Tests check the total BOPs on a few homogeneous models where misplacement cancels.',
  [PL, B], [('PLayerBase and subclasses: act_bw, act_bw_exact', PL), ('ABSBaseLayer.input_bw*', B)], observe=['layer.act_bw, act_bw_exact, input_bw'])
p('C17', 'Saving and reloading preserves every constructor argument',
  'For every serializable layer, quantizer and regularizer, rebuilding from its own saved configuration yields an object with the same behaviour-relevant constructor arguments, each restored from the value it was created with and stored under the name the constructor accepts. Quantizer bit tensors keep their shape so that saved weights fit, and all custom classes a saved model refers to are registered.',
  ['configurations', 'histories'], 'all classes x all argument values',
  'Tests reload models built from default or few arguments; a dropped option silently reverts to its default.',
  [B, BN, D, CV, M, PL, FP, UL, U], [('get_config/from_config/__init__', B), ('register_keras_serializable', D)], observe=['from_config(get_config())'])
p('C18', 'Default quantizer configurations are isolated and validated',
  'Reading the default kernel or activation quantizer configuration gives a fresh copy whose modification never affects the defaults or any layer, and building or using a layer never alters a configuration dictionary supplied by the user or shared with other layers. Setting a default accepts only a dictionary with exactly the known keys, takes effect for layers created afterwards without their own configuration, and leaves the other default alone.',
  ['histories', 'configurations'], 'all interleavings of get/set/modify/construct',
  'Aliasing needs particular multi-step histories that no test performs.',
  [U, B, M], [('get_default_*, set_default_*', U), ('HLayerBase.__init__', B), ('HActivation.post_build', M)], observe=['defaults after any history'])
p('C19', 'Legacy precision derivation never under-allocates bits',
  'The precision derived for the output of each proxy layer follows from its inputs\' precision so that no bits are lost: sums grow by ceil(log2(#terms)), products (dense, convolution, dot) add widths, a bias or subtraction accounts for its own range, averaging adds fractional bits, passive layers keep them, unknown producers are unbounded; narrowing a quantizer keeps its fractional grid and guards the rounding carry of every element. Result, accumulator, weight, bias and table types handed to hls4ml are never narrower than what is produced and requested downstream (with the guard bits truncating and round-half-up consumers need), and absurdly wide types are rejected.',
  ['configurations', 'programs'], 'all layer kinds, precisions, graphs',
  'Only a few graphs are converted with registration on, and widths that are too narrow show up only on extreme data.',
  [PD], [('get_produced_kif overloads, get_request_kif, merge_precision, get_config*', PD)], observe=['overrides on proxy quantizers'])
p('C20', 'LUT activations agree with the activation on every representable input',
  'A lookup-table layer returns, for every input representable in its input type (negative codes included), exactly the activation of that input quantized to its output type, and its table has one entry per input code. Only non-linear, non-softmax unary activations whose table fits the limit (inclusive) are replaced.',
  ['inputs', 'configurations'], 'all input codes, input/output types, table limits',
  'Tests sample a few types; boundary sizes and wrap-around codes are not hit.',
  [UL], [('UnaryLUT, from_activation, xfr_to_unary_lut', UL)], observe=['UnaryLUT(x)'])
p('C21', 'Fixed-point type strings round-trip exactly',
  'Converting (sign, integer, fractional) bits to a (u)fixed<...> type string yields the total width (at least 1), the integer width including the sign and, when not default, the rounding and overflow modes in order; parsing any such string returns the same bits. Malformed strings are rejected.',
  ['inputs'], 'all integer triples and mode strings',
  'The tests never call these conversions directly.',
  [U], [('tuple_to_apf, apf_to_tuple', U)], observe=['strings in overrides'])
p('C22', 'QKeras layers convert to equivalent proxy layers',
  'QKeras quantizers map to equivalent proxy layers: quantized_bits to a quantizer of its sign, width and integer bits that rounds half to even and overflows as requested of the proxy (saturating symmetrically if the quantizer is symmetric), plain quantized_relu to relu followed by an unsigned saturating quantizer rounding half to even, a linear activation to nothing. Quantizers without an equivalent (scaling alpha other than 1, power-of-two, 0/1-valued binary) are rejected. QKeras dense and 1D/2D convolution layers are deployed with their quantized kernel and bias, the same structural hyper-parameters and their activation applied after them, leaving the original layer unchanged.',
  ['configurations'], 'all parameters of these QKeras quantizers and layers',
  'Only two quantizer kinds are exercised by tests.',
  [QK], [('qkeras_quantizer_to_layers, qlayer_to_keras_layer, qlayer_to_proxy_layer', QK)], observe=['to_proxy_model on QKeras models'])
p('C23', 'Importing the package has no lasting side effects and exports the API',
  'Importing the package leaves the process\'s standard streams as they were even when an import fails, patches the standard library only on interpreters that need it, and tolerates missing optional plugins. Every documented public name is exported and refers to the implementation of that name.',
  ['configurations', 'fault_sequences'], 'interpreter versions, missing optional dependencies, import failures',
  'Tests always run with all dependencies installed on one interpreter.',
  ['src/HGQ/__init__.py', 'src/HGQ/_patch.py', 'src/HGQ/proxy/plugins/__init__.py', 'src/HGQ/proxy/__init__.py'], [('Shutup', 'src/HGQ/__init__.py'), ('patch_singledispatch', 'src/HGQ/_patch.py'), ('init_all', 'src/HGQ/proxy/plugins/__init__.py')], observe=['import HGQ'])
p('C24', 'Stand-alone batch-norm layer normalises with quantized factor and offset',
  'With centering and scaling enabled, the stand-alone quantized batch-normalisation layer computes gamma*(x-mean)/sqrt(var+eps)+beta with the batch statistics in training and the moving statistics at inference, for every feature axis, with the factor and the offset each passed through its quantizer before the output is quantized; it updates the moving statistics by momentum only in training and never changes beta and gamma itself.',
  ['inputs', 'histories'], 'all inputs, statistics, histories',
  'The layer is not exercised by any test.',
  [BN], [('HBatchNormalization.forward', BN)], observe=['layer(x)'])
p('C25', 'Firmware generated from the proxy is bit-accurate',
  'For every traced model and every input within the traced range, the hls4ml firmware generated from the proxy model produces exactly the proxy model\'s (and, up to float precision, the HGQ model\'s) outputs.',
  ['inputs', 'programs'], 'all models, inputs, backends', 'Needs the HLS tool-chain and all inputs.', [CO], [('whole conversion', CO)])
p('C26', 'BOPs predict FPGA resource usage',
  'The exact BOPs of a traced model approximate LUT+55*DSP of the synthesised design.',
  ['programs'], 'all models', 'Empirical relation; needs synthesis.', [BO], [('compute_exact_bops', D)])
p('C27', 'Training with beta>0 lowers resource usage at bounded accuracy loss',
  'Training with a positive resource weight reduces BOPs while task loss stays controlled.',
  ['histories'], 'all training runs', 'A statistical property of optimisation.', [Q], [('gradients', Q)])
p('C28', 'float32 arithmetic introduces no deviation below 24 bits',
  'All fixed-point emulation in float32 is exact whenever operands and results need at most 24 significant bits.',
  ['inputs'], 'all inputs', 'Depends on floating-point kernels (XLA/Eigen, log2 of float32 near powers of two).', [FP, Q], [('float32 emulation', FP)])

with open('/verif/properties.jsonl', 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
