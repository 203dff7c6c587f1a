import json
P=[]
def prop(id,title,st,over,q,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

prop("C01","Element-wise operations compute the broadcast mathematical function",
 "Every element-wise operation (arithmetic, powers, absolute value and sign, exponential and trigonometric functions, activations, clamping, pairwise minimum and maximum, fused multiply-add, comparisons and boolean logic) gives at every output position the mathematical function of the operands aligned by broadcasting, in its returning, write-into and in-place forms alike. The result has the broadcast shape and the input's data type (boolean for comparisons), and operands that are not the target of the operation are unchanged. This holds for every shape pair broadcasting allows, including size-one, zero-size and high-rank shapes, every supported data type, special floating-point values and operands that are views into part of a larger buffer.",
 ["inputs"],"all shapes (rank 0 to the maximum), broadcast patterns, dtypes, element values, storage offsets and result forms",
 "The suite checks a handful of small fixed shapes per operation; broadcast index arithmetic depends on rank, position of size-one axes and coalescing, which no sample settles.",
 ["src/Operation/OpElemWiseCpu.h","src/Operation/OpElemWiseCpu.cpp","src/Tensor/TensorIterator.cpp","src/Tensor/TensorIterator.h","src/Function/FuncElemWise.h"],
 [("broadcast shape and stride set-up","src/Tensor/TensorIterator.cpp"),("per-element kernels","src/Operation/OpElemWiseCpu.h")],
 obs=["tensor operators","op:: element-wise functions"])

prop("C02","Reductions equal the reduction of exactly the elements they cover",
 "Minimum, maximum, their index variants, sum, mean, variance and combined variance/mean equal the mathematical reduction over exactly the elements along the requested axes, for the whole-tensor, one-axis and several-axes forms. The result's shape drops the reduced axes or keeps them with size one as requested, negative axes count from the end, ties report the first position, and the biased and unbiased variances differ only in the divisor. The input is never changed and the result never shares later writes with it.",
 ["inputs"],"all shapes, axes and axis sets, keep-dimension flags, dtypes and element values",
 "Tests use 2-D/3-D tensors with a few axes; the index arithmetic mapping an input element to its output bucket must hold for every axis subset and rank.",
 ["src/Operation/OpReduceCpu.h","src/Operation/OpReduceCpu.cpp","src/Operation/OpReduce.cpp","src/Function/FuncReduce.h"],
 [("reduce shape and axis set","src/Operation/OpReduce.cpp"),("reduction kernels","src/Operation/OpReduceCpu.h")])

prop("C03","Matrix products agree with the textbook definition in every layout",
 "Matrix multiplication, including vector, matrix, batched and broadcast-batched operands and both transpose flags, equals the sum-of-products definition, and so does the dot product. Unfolding an image into patch columns places exactly the padded window contents at each position, and folding columns back is its exact adjoint (overlapping contributions add up). These hold for every compatible shape, stride, padding and data type, and the operands are unchanged.",
 ["inputs"],"all compatible shapes (rank 1 to high rank, batch broadcasting, sizes around blocking boundaries), transpose flags, kernel/stride/padding triples, dtypes",
 "Tests multiply a few tiny matrices; batch broadcasting, transposes, blocked loops and padding boundaries multiply into combinations no fixed list covers.",
 ["src/Operation/OpLinalg.cpp","src/Operation/OpLinalgCpu.h","src/Operation/OpLinalgCpu.cpp","src/Function/FuncLinalg.h"],
 [("batch broadcasting in matmul","src/Operation/OpLinalg.cpp"),("gemm kernel","src/Operation/OpLinalgCpu.h"),("im2col/col2im","src/Operation/OpLinalgCpu.h")])

prop("C04","Shape operations only re-arrange elements, exactly as specified",
 "Reshaping, viewing, flattening, unflattening, squeezing, unsqueezing, permuting, transposing, expanding, repeating, splitting, chunking, narrowing, concatenating, stacking and taking triangles produce the documented shape and put each source element at exactly the position the operation defines, losing, duplicating or inventing none. Negative dimensions count from the end and an inferred size is resolved from the element count. Inverse pairs (split and concatenate, permute and its inverse, flatten and unflatten, stack and index) give back the original.",
 ["inputs","programs"],"all shapes, dimension arguments, data types and chains of shape operations",
 "Tests sample one or two calls of each operation on tiny tensors; chains over views with offsets, high ranks, zero or one-size axes and negative arguments are not reached.",
 ["src/Operation/OpTransform.cpp","src/Operation/OpTransformCpu.h","src/Function/FuncTransform.h","src/Tensor/TensorImpl.cpp"],
 [("reshape/flatten/squeeze/split/narrow","src/Operation/OpTransform.cpp"),("permute/concat/stack/expand kernels","src/Operation/OpTransformCpu.h")])

prop("C05","Indexing, gathering, sorting and scanning select the right elements",
 "Reading or writing by index, gathering, scattering, selecting rows, masked filling, sorting, top-k selection and cumulative sums touch exactly the elements their index semantics name and leave every other element unchanged. Sorting and top-k return values in the requested order together with valid, distinct positions from which those values can be read back, and top-k returns the k extreme elements. This holds along every axis, for every data type the operation supports, and for tensors that are views into a larger buffer.",
 ["inputs"],"all shapes, axes, index tensors (including negative and repeated indices), k, orders, dtypes and element values including ties",
 "Tests cover a few literal index lists; correctness along inner axes, with offsets, ties, repeats and negative indices quantifies over all inputs.",
 ["src/Operation/OpTransformCpu.h","src/Operation/OpTransform.cpp","src/Operation/OpSamplingCpu.h","src/Operation/OpFillingCpu.h","src/Function/FuncSampling.h"],
 [("index/gather/scatter kernels","src/Operation/OpTransformCpu.h"),("sort/topk/cumsum kernels","src/Operation/OpSamplingCpu.h"),("masked fill","src/Operation/OpFillingCpu.h")])

prop("C06","Derived tensors are independent values under any operation history",
 "A tensor obtained by cloning, slicing, splitting, narrowing, indexing, reshaping or viewing behaves as an independent value: an in-place modification of one tensor never changes the contents of a separately derived tensor, while copies of the same handle always see it. This holds for every history of derivations, in-place operations, fills, indexed writes and handle releases, in any order, including tensors sharing one underlying buffer. Explicit raw copying into a view is the exception and writes through to the shared buffer; compound assignments and in-place shape changes replace the tensor of the handle they are called on.",
 ["histories","programs"],"all interleavings of derivation, handle copy, in-place mutation and release over a pool of tensors",
 "Copy-on-write correctness depends on the sharing state at each step, so on whole histories; tests check a few two-step sequences at most.",
 ["src/Tensor/TensorImpl.cpp","src/Tensor/Storage.cpp","src/Tensor/Tensor.cpp","src/Operation/OpTransform.cpp"],
 [("copy-on-write before in-place writes","src/Tensor/TensorImpl.cpp copyOnWrite"),("storage sharing by clone/narrow/split/index","src/Operation/OpTransform.cpp")],
 state=[("shared storage","one buffer used by several tensors at different offsets","src/Tensor/Storage.h")])

prop("C07","Back-propagated gradients equal the true derivatives",
 "For every computation built from the differentiable operations, in any shape of graph (shared sub-expressions, an input used several times, broadcasting, chained reshapes, permutations and layers), the gradient accumulated on each input that requires it equals the mathematical derivative of the output contracted with the upstream gradient. The gradient has its input's shape. Inputs, and the upstream gradient the caller passes in, are never modified by differentiation.",
 ["programs","inputs"],"all expression DAGs over the differentiable operations, all shapes, values and upstream gradients",
 "Tests check a handful of fixed expressions with hand-computed gradients; traversal order, accumulation and broadcasting reduction depend on the graph's shape.",
 ["src/Tensor/AutogradMeta.cpp","src/Tensor/Function.h","src/Function/FuncElemWise.h","src/Function/FuncNNLayer.h","src/Function/FuncTransform.h","src/Function/FuncActivation.h","src/Function/FuncReduce.h"],
 [("graph traversal by dependency counts","src/Tensor/AutogradMeta.cpp"),("per-operation derivatives","src/Function/*.h"),("gradient reduction for broadcasting","src/Function/FuncElemWise.h reduceGrad")])

prop("C08","Gradient bookkeeping is consistent over any training history",
 "Gradients accumulate across backward passes until cleared, clearing leaves none, tensors that do not require gradients never receive one, and a result requires gradients exactly when gradient recording is enabled and one of its inputs requires them. Recording can be disabled and re-enabled in nested scopes and is restored when a scope ends, and computing values with recording disabled gives the same values. A gradient callback registered on a leaf tensor runs in every backward pass that reaches it while it is registered, sees the tensor's accumulated gradient, and never runs after it is unregistered.",
 ["histories","programs"],"all histories of forward passes, backward passes, clears, recording scopes, flag changes, hook registration and removal",
 "State carried between passes (accumulated gradients, flags, hooks) makes this a property of histories; tests use single backward calls.",
 ["src/Tensor/AutogradMeta.cpp","src/Tensor/AutogradMeta.h","src/Tensor/Function.h","src/Tensor/Tensor.cpp","src/Tensor/NoGradGuard.h"],
 [("gradient accumulation and hooks","src/Tensor/AutogradMeta.cpp"),("requires-grad propagation","src/Tensor/Function.h"),("no-grad guard","src/Tensor/NoGradGuard.h")],
 state=[("accumulated gradient","gradient held per tensor until cleared","src/Tensor/AutogradMeta.h")])

prop("C09","Neural-network layers compute their defining formulas",
 "Linear, convolution, max pooling, softmax and log-softmax, layer and RMS normalisation, rotary position embedding with its frequency scaling and offset, gated SiLU, embedding lookup, dropout and scaled dot-product attention compute their published formulas for every input shape, hyper-parameter setting and data type they accept. Softmax stays finite and sums to one however large the inputs, causal attention ignores later positions, and pooling and convolution treat each sample and channel independently of the others. Dropout in evaluation mode is the identity, and in training mode it zeroes elements or scales the survivors so that the expectation is preserved.",
 ["inputs","configurations"],"all batch/channel/spatial sizes, kernels, strides, paddings, masks, scales, axes, offsets and dtypes",
 "Tests evaluate one or two tiny configurations per layer, mostly single-channel, so layout errors across batch and channels stay invisible.",
 ["src/Function/FuncNNLayer.h","src/Operation/OpNNLayerCpu.h","src/Operation/OpNNLayer.cpp","src/Operation/OpFusedCpu.h","src/Operation/OpLinalg.cpp"],
 [("conv/pool/attention composition","src/Function/FuncNNLayer.h"),("softmax, norm and rope kernels","src/Operation/OpNNLayerCpu.h"),("gated SiLU kernel","src/Operation/OpFusedCpu.h")])

prop("C10","Loss values and loss gradients match their definitions",
 "Mean-squared-error and negative-log-likelihood losses equal their definitions under the none, mean and sum reductions, and their gradients are the derivatives of exactly that value with respect to the input, scaled by the upstream gradient. Composed with log-softmax, the negative-log-likelihood gradient is the softmax probabilities minus the one-hot target, divided by the batch size for mean reduction. This holds for all batch and class sizes, values and target labels.",
 ["inputs","configurations"],"all shapes, targets, reductions, upstream gradients",
 "Tests check one matrix per reduction and only unit upstream gradients.",
 ["src/Operation/OpLossCpu.h","src/Operation/OpLossCpu.cpp","src/Function/FuncLoss.h"],
 [("loss kernels","src/Operation/OpLossCpu.h"),("loss autograd wrappers","src/Function/FuncLoss.h")])

prop("C11","Optimizers and schedulers follow their update rules step by step",
 "SGD (with momentum, dampening, Nesterov and weight decay), Adagrad, RMSprop, AdaDelta, Adam (with AMSGrad) and AdamW apply their published update rule at every step of any training history, keeping each parameter's state independent of the others and of the order of parameters. Parameters without a gradient, and gradients themselves, are left unchanged by a step, and clearing gradients affects only gradients. The step scheduler sets the learning rate to the initial rate times the decay factor raised to the number of completed periods, and later steps use it.",
 ["histories","configurations"],"all hyper-parameter settings, parameter sets, gradient sequences, missing gradients and learning-rate changes over many steps",
 "Tests run each optimizer a few steps with near-default settings on a single parameter, so state across steps and rare options are not exercised.",
 ["src/Optimizer.cpp","src/Optimizer.h","src/Scheduler.h"],
 [("update rules","src/Optimizer.cpp"),("learning-rate schedule","src/Scheduler.h")],
 state=[("per-parameter buffers","moments and accumulators carried between steps","src/Optimizer.h")])

prop("C12","Half, bfloat16 and integer conversions round correctly",
 "Converting a 32-bit float to half or bfloat16 rounds to the nearest representable value with ties to even, maps overflow to infinity and preserves NaN, infinities, signed zero and subnormals, and converting back is exact for every 16-bit pattern. Tensor data-type conversion converts every element as the scalar conversion would, for every pair of data types, and arithmetic and comparisons on the 16-bit types equal float arithmetic rounded once. Conversions never depend on an element's position in the tensor.",
 ["inputs"],"all 65536 bit patterns of each 16-bit type, all rounding boundaries and random 32-bit patterns, all dtype pairs",
 "Tests convert a dozen numbers; rounding is decided at tie points and subnormal boundaries that need exhaustive or targeted enumeration.",
 ["src/Utils/Half.h","src/Utils/BFloat16.h","src/Tensor/DType.h","src/Operation/OpTransformCpu.h","src/Operation/OpTransform.h"],
 [("float/half conversion","src/Utils/Half.h"),("float/bfloat16 conversion","src/Utils/BFloat16.h"),("dtype cast kernel","src/Operation/OpTransformCpu.h")])

prop("C13","The caching allocator never hands out overlapping or short memory",
 "For every history of allocations and releases, each live block returned by the caching allocator has at least the requested usable bytes, is suitably aligned and overlaps no other live block, so data written to one block is never changed through another. Released memory becomes available again: a history that keeps its live size bounded keeps the memory obtained from the system bounded, and releasing everything and clearing the cache returns all of it. Tensor contents never depend on whether caching is enabled.",
 ["histories"],"all sequences of allocation sizes (tiny, pool-boundary, huge), release orders and cache clears",
 "Splitting and merging of blocks depends on the exact interleaving of sizes and frees; tests perform a few allocations.",
 ["src/Tensor/CachedAllocator.cpp","src/Tensor/CachedAllocator.h","src/Tensor/Allocator.cpp","src/Tensor/Allocator.h"],
 [("block split, merge and reuse","src/Tensor/CachedAllocator.cpp")],
 state=[("block lists","free and used blocks linked to neighbours","src/Tensor/CachedAllocator.cpp")])

prop("C14","Saved model state loads back exactly",
 "Saving a model's parameters and buffers and loading them into a model of the same structure restores every value bit for bit, for every tensor count, name, shape and data type including NaN payloads and empty tensors. In strict mode a load succeeds only if names, shapes and data types all correspond, while non-strict mode loads exactly the matching entries and leaves the others unchanged. Loading never changes the file, and tensors loaded stay valid after the file is overwritten or deleted.",
 ["inputs","histories"],"all model structures, names, shapes, dtypes, bit patterns, and mismatches between file and model",
 "Tests save and load one model; offsets, alignment and name handling vary with every combination of entry sizes.",
 ["src/Serializer.cpp","src/Serializer.h","src/Module/Module.h","src/Utils/MMapUtils.cpp"],
 [("header layout and data offsets","src/Serializer.cpp"),("strict matching","src/Serializer.cpp")])

prop("C15","A damaged checkpoint file is rejected without harm",
 "Loading a file that is missing, empty, truncated at any byte, has a wrong signature or version, or has corrupted counts, lengths, offsets or types reports failure instead of crashing, reading outside the file or exhausting memory. A valid file with any of its bytes altered either loads only values actually present in the file or is rejected. The model being loaded into keeps its shapes and data types whatever the file contains.",
 ["inputs","fault_sequences"],"all truncation points, byte corruptions and adversarial header values of checkpoint files",
 "Robustness quantifies over every malformed file; the tests load only files that the library itself just wrote.",
 ["src/Serializer.cpp","src/Utils/MMapUtils.cpp"],
 [("header validation on load","src/Serializer.cpp")])

prop("C16","Data loading delivers every sample exactly once, correctly batched",
 "Iterating a data loader yields, per epoch, every sample of the dataset exactly once in batches of the requested size with only the last one smaller (or omitted when dropping incomplete batches), in dataset order when not shuffling and as a permutation when shuffling, with each sample's fields kept together. Sequential and random samplers cover the index range completely without repeats. The reported number of batches equals the number delivered, and every new iteration starts a complete fresh epoch.",
 ["inputs","configurations","histories"],"all dataset sizes, batch sizes, shuffle and drop-last flags, field shapes, repeated epochs",
 "Tests iterate one dataset with one batch size; boundary arithmetic between size, batch and drop-last is only settled over all combinations.",
 ["src/Data/DataLoader.h","src/Data/Sampler.h","src/Data/Dataset.h"],
 [("batch iteration","src/Data/DataLoader.h"),("samplers","src/Data/Sampler.h")])

prop("C17","Random generation is reproducible, in range and correctly distributed",
 "With a fixed seed, every random fill, initialiser, dropout mask, multinomial draw and sampler permutation is reproduced exactly by re-seeding, whatever was drawn before. Uniform values stay inside their bounds, normal, Bernoulli and multinomial draws follow the requested distribution, multinomial draws name only valid categories, and draws without replacement never repeat one or pick one of zero weight. Initialisers respect the bounds and moments their fan sizes prescribe.",
 ["inputs","histories"],"all seeds, shapes, distribution parameters, weight vectors and preceding histories of draws",
 "Statistical laws and reproducibility across histories cannot be settled by the fixed draws the tests look at.",
 ["src/Utils/RandomGenerator.h","src/Operation/OpFillingCpu.h","src/Operation/OpSamplingCpu.h","src/Initializer.cpp","src/Data/Sampler.h"],
 [("seeded generators","src/Utils/RandomGenerator.h"),("multinomial kernel","src/Operation/OpSamplingCpu.h"),("initialisers","src/Initializer.cpp")])

prop("C18","Module trees expose all parameters, states and modes consistently",
 "For every tree of modules, the parameter and state listings contain each parameter and buffer of every descendant exactly once under a unique hierarchical name, in a stable order, and refer to the live tensors that the forward pass uses. Training/evaluation mode, data-type conversion, gradient clearing and initialisation requests reach every descendant. Sequential containers apply their children in order, and the provided layer modules compute the same function as the corresponding functional layer applied to their listed parameters.",
 ["programs","configurations"],"all module trees (nesting, containers, sharing of layer kinds), mode toggles and parameter edits",
 "Tests build one or two fixed networks; completeness of recursive propagation is a statement about every tree.",
 ["src/Module/Module.h","src/Module/Basic.h","src/Module/Basic.cpp"],
 [("recursive traversal and naming","src/Module/Module.h"),("layer modules","src/Module/Basic.h")])

prop("C19","The rendezvous stores behave as one linearizable key-value map",
 "The file-backed and TCP-backed stores behave as a single key-value map shared by all clients: a read returns the last value written, of any length and byte content, counters add atomically, deletion reports whether the key existed, counts and existence checks agree with the map, and values survive until deleted. Waiting for keys returns as soon as all of them exist and fails only after the timeout. Concurrent clients lose no update and no wake-up.",
 ["histories","schedules"],"all sequences and interleavings of set, get, add, delete, check and wait by several clients, all keys and values",
 "The store code is not covered by any test; its guarantees are about concurrent histories.",
 ["src/Distributed/Store.h","src/Distributed/FileStore.cpp","src/Distributed/TCPStore.cpp","src/Distributed/FileStore.h","src/Distributed/TCPStore.h"],
 [("file locking and per-key files","src/Distributed/FileStore.cpp"),("request protocol and wait lists","src/Distributed/TCPStore.cpp")],
 state=[("key-value map","shared map of keys to byte strings","src/Distributed/TCPStore.cpp")])

prop("C20","Data-parallel training averages gradients and partitions data correctly",
 "With a data-parallel wrapper, after each backward pass every parameter's gradient equals the average over all ranks of the ranks' local gradients, whatever the bucket capacity, parameter sizes and order in which gradients become ready, over any number of iterations. The distributed sampler gives all ranks equally many indices that together cover the dataset (every index exactly once when evenly divisible, up to padding or dropping otherwise), identically derived on every rank from the seed and epoch. The wrapper changes neither the forward result nor the parameters' identity.",
 ["inputs","configurations","histories"],"all model shapes, bucket sizes, world sizes, ranks, iterations, dataset sizes, shuffle and drop-last settings",
 "No test touches the distributed code in this build; bucket boundaries and rank partition arithmetic vary with every size combination.",
 ["src/Distributed/Reducer.cpp","src/Distributed/DistributedModule.cpp","src/Distributed/DistributedSampler.cpp"],
 [("bucketing and ready counting","src/Distributed/Reducer.cpp"),("index partition","src/Distributed/DistributedSampler.cpp")])

prop("C21","Image data sets and transforms are decoded and applied faithfully",
 "Reading a digit-image data set returns exactly the images (scaled to the unit interval) and labels stored in its files, in order and in number, and a file with a wrong signature, inconsistent counts or missing bytes yields no fabricated samples and no crash. Normalisation subtracts the mean and divides by the deviation at every element, and a composed transform equals applying its parts in order. Access to a sample never changes the data set.",
 ["inputs","fault_sequences"],"all image counts and dimensions, pixel contents, label values, transform parameters, and truncated or corrupted files",
 "No test reads an image file; decoding and error handling quantify over all files.",
 ["src/Data/DatasetMNIST.cpp","src/Data/DatasetMNIST.h","src/Data/Transform.h"],
 [("IDX file parser","src/Data/DatasetMNIST.cpp"),("transforms","src/Data/Transform.h")])

prop("C22","Internal small-vector containers behave like standard vectors",
 "The small-buffer vector used for shapes and strides behaves exactly like a standard vector over any sequence of construction, growth, insertion, resizing, clearing, assignment, copy, move and swap, on both sides of its inline capacity, including self-assignment and moved-from reuse. Array views over it see exactly its elements. No operation reads or writes outside the container or leaks or double-destroys an element.",
 ["histories"],"all operation sequences crossing the inline-capacity boundary in both directions, for trivial and non-trivial elements",
 "Storage mode transitions depend on the operation history; tests go through a few scripted ones.",
 ["src/Utils/VectorUtils.h"],
 [("inline/heap storage transition","src/Utils/VectorUtils.h")])

prop("C23","Tensor creation and scalar access give exactly the requested contents",
 "Creating a tensor from nested lists, a constant, a range, evenly spaced points, zeros, ones, or another tensor's shape gives exactly the requested shape, data type and element values, and reading it back as a list or scalar returns those values converted to the requested type. Fills write every element of the target and nothing outside it. Creation results do not depend on earlier allocations or frees.",
 ["inputs"],"all shapes, dtypes, constants, range and step values, read-back types, preceding allocation histories",
 "Tests create a few small tensors of default type; integer/half ranges, zero sizes, large tensors and stale-memory effects are not reached.",
 ["src/Tensor/Tensor.h","src/Tensor/Tensor.cpp","src/Tensor/TensorImpl.cpp","src/Operation/OpFillingCpu.h","src/Tensor/Scalar.h"],
 [("range and linspace construction","src/Tensor/Tensor.h"),("fill kernels","src/Operation/OpFillingCpu.h"),("typed read-back","src/Tensor/TensorImpl.h")])
prop("C24","Printed tensors, log lines, mappings and timers show what is really there",
 "Printing a tensor writes its tag, shape, data type, gradient flag and elements: every element in order when full printing is asked for or there are at most sixteen, otherwise the first and last eight around a mark; printing changes nothing. Every log message reaches its stream whole, on one line with its level, also when it is long or several threads log at once. A file mapped for reading shows exactly the bytes of the file, a missing or unusable file is reported as not mapped, and unmapping gives back every resource. Timers report the time that really passed.",
 ["inputs","schedules"],"all shapes, dtypes, values, tags, message lengths, logging threads, file sizes and mapping orders",
 "Tests do not look at printed or logged text at all; lengths around the buffer limit, views, empty tensors and concurrent loggers matter.",
 ["src/Tensor/TensorPrinter.cpp","src/Utils/Logger.cpp","src/Utils/MMapUtils.cpp","src/Utils/Timer.cpp","src/Utils/MathUtils.h"],
 [("shortened and full data lists","src/Tensor/TensorPrinter.cpp"),("formatting buffer and lock","src/Utils/Logger.cpp"),("map and unmap","src/Utils/MMapUtils.cpp")])

prop("C25","Whole training runs follow the textbook trajectory and nothing else",
 "Training a model built from the differentiable layers, on batches of a data loader, with a loss, an optimizer and a learning-rate schedule, gives at every step the loss, the parameter gradients and the updated parameters of the mathematical definition, also when gradients are accumulated over several batches, a layer is used twice, some parameters are frozen or take no part. The run is a function of the seed, the data and the model alone: evaluating, reading, saving and re-loading, keeping or dropping handles, changing values derived from a parameter, building graphs nobody uses or training another model in between leaves every later parameter bit for bit the same, and so does continuing from a saved model where the optimizer keeps no state.",
 ["inputs","histories"],"all generated models, data sets, losses, optimizers, schedules, seeds and interleavings of harmless acts",
 "Tests exercise layers, losses and optimizers one at a time; effects between them appear only over several steps of a complete run.",
 ["src/Module/Module.h","src/Module/Basic.cpp","src/Tensor/AutogradMeta.cpp","src/Optimizer.cpp","src/Data/DataLoader.h","src/Serializer.cpp"],
 [("gradient accumulation and clearing","src/Tensor/AutogradMeta.cpp"),("update of parameters","src/Optimizer.cpp"),("batches","src/Data/DataLoader.h"),("mode switching","src/Module/Module.h")])

prop("C26","Whatever a program drops is released: memory, files, threads",
 "When the handles to tensors, computation graphs, gradients, models, optimizers, loaders or stores go out of scope, everything they held is given back: repeating any program that keeps nothing leaves the same amount of live memory, open files and threads behind as running it once, and a training loop needs no more memory in a later epoch than in an earlier one. This holds whatever was recorded, differentiated, hooked, viewed, modified in place or left undifferentiated, and also after failed loads, refused connections, timeouts and unreadable files.",
 ["histories","fault_sequences"],"all programs of operations, backward passes, in-place changes and hooks; all training runs; all failing file and store accesses",
 "Ownership cycles and lost resources depend on the history and change no result, so no assertion on values can see them.",
 ["src/Tensor/AutogradMeta.cpp","src/Tensor/Function.h","src/Tensor/TensorImpl.cpp","src/Tensor/Storage.cpp","src/Optimizer.cpp","src/Utils/MMapUtils.cpp","src/Distributed/FileStore.cpp","src/Distributed/TCPStore.cpp"],
 [("graph ownership","src/Tensor/Function.h"),("gradient holder","src/Tensor/AutogradMeta.h"),("file mappings","src/Utils/MMapUtils.cpp"),("server thread and sockets","src/Distributed/TCPStore.cpp")])

prop("C27","Process groups give every rank the collective's result and honour set-up",
 "A process group set up through env://, tcp:// or file:// has the rank, world size and timeout it was given and does not wait for other ranks when told not to; malformed or incomplete set-ups are refused with false, leave nothing behind and do not end the process. For every sequence of broadcast, all-reduce, reduce, all-gather, reduce-scatter, send and receive that all ranks issue in the same order, over every data type and reduction, each rank's tensor and the work's result hold the defined values once they have been waited for (on the stream, with a timeout, or by polling), inputs and the memory beside them stay as they were, and operations see what was written earlier on the caller's stream even when tensors are dropped at once. A timed wait on an absent peer gives false and an exception, a failing device or communicator is reported and does not hang, and repeated operations leave no communicators, streams, events or records behind.",
 ["inputs","schedules","histories","fault_sequences"],"all group sizes, set-up strings, same-order sequences of collectives, data types, delays of ranks and streams, and failing calls",
 "The library's tests need several devices and are not built here; ordering between streams, dropped tensors and failing calls depend on the schedule.",
 ["src/Distributed/DistributedProcessGroup.cpp","src/Distributed/ProcessGroup.cpp","src/Distributed/BackendNCCL.cpp","src/Distributed/WorkNCCL.cpp","src/Distributed/Store.cpp"],
 [("set-up from strings","src/Distributed/DistributedProcessGroup.cpp"),("collectives and communicators","src/Distributed/BackendNCCL.cpp"),("waiting and polling","src/Distributed/WorkNCCL.cpp"),("dispatch to the backend","src/Distributed/ProcessGroup.cpp")])

with open('/verif/properties.jsonl','w') as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+'\n')
print(len(P))
