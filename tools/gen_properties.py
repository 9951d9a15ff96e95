#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Compiled execution computes exactly what every expression denotes",
 "For every expression graph and every binding of its inputs, running it on the compiling (tape) machine gives every result (a node nothing else consumes), and every node the caller asked to read, the value obtained by evaluating the expression directly, to floating-point rounding. Register and memory reuse, in-place execution, sharing of sub-expressions, operand repetition, extra readers and the order in which nodes were created never change a result.",
 ["programs", "inputs", "configurations"],
 "every expression DAG over the operation alphabet up to the size bound, every sharing pattern, every choice of which nodes are read, both float widths",
 "Unit tests run a few dozen hand-written graphs; the interaction of liveness, register reuse and in-place execution depends on the shape of the whole DAG and on which nodes are read, and no test enumerates those.",
 ["vm_tape.go", "compile.go", "regalloc.go", "analysis.go", "vm_tape_nocuda.go", "op_math.go"],
 [("dataflow and interval analysis", "analysis.go"), ("register allocation", "regalloc.go"), ("code generation", "compile.go"), ("instruction execution", "vm_tape.go")],
 ["value delivered by Read", "Node.Value after a run"])

prop("C02", "Execution leaves bound inputs, constants and readings untouched",
 "Running a program, forwards or with gradients, once or many times, never modifies a value the caller bound to an input or a constant: its memory and layout are bit-for-bit the same before and after. The value delivered by reading a node is not changed by anything executed later in the same run.",
 ["programs", "histories", "inputs"],
 "every expression DAG up to the size bound, run repeatedly with gradients on both machines",
 "In-place execution is chosen by an analysis of the whole program; existing tests check outputs and almost never re-check the operands afterwards.",
 ["vm_tape.go", "regalloc.go", "compile.go", "vm_genera.go", "operatorPointwise_binary.go", "operatorPointwise_unary.go", "op_tensor.go"],
 [("choice of overwriting registers", "regalloc.go"), ("copy into registers / read snapshots", "vm_tape.go")],
 ["backing slices held by the caller", "values delivered by Read"])

prop("C03", "The interpreting machine gives every node its denoted value",
 "For every expression graph and every binding of its inputs, the interpreting (lisp) machine in forward-only or full mode gives every node the value obtained by evaluating the expression directly. It therefore agrees with the compiling machine on every program both accept.",
 ["programs", "inputs", "configurations"],
 "every expression DAG over the operation alphabet up to the size bound, forward-only and full modes, both float widths",
 "The two machines share no execution code; the suite compares them on only a couple of graphs.",
 ["vm_genera.go", "vm_genera_nocuda.go", "execution.go", "dual.go"],
 [("forward interpretation", "vm_genera.go forward"), ("operation dispatch", "execution.go")],
 ["Node.Value after a run"])

prop("C04", "Symbolic gradients equal the true derivative",
 "For every differentiable expression graph with a scalar cost and every set of variables to differentiate by, the gradient expressions produced by symbolic differentiation evaluate to the exact partial derivatives of the cost, summed over all paths. This holds for shared sub-expressions, repeated operands, broadcast operands, reductions, and when a gradient is itself differentiated again. Backpropagating several outputs at once with given output gradients yields the sum of their weighted derivatives.",
 ["programs", "inputs"],
 "every scalar-cost DAG over the differentiable alphabet up to the size bound, every non-empty set of inputs to differentiate by, derivatives checked element by element against forward-mode dual numbers; second derivatives on the scalar alphabet",
 "Tests check single-operation gradients and a few hand-computed formulas; accumulation across arbitrary fan-out and operation combinations is a statement over all programs.",
 ["differentiation.go", "gorgonia.go", "op_math.go", "operatorPointwise_binary.go", "operatorPointwise_unary.go", "operatorLinAlg.go", "op_tensor.go", "op_reduction.go"],
 [("reverse traversal and accumulation", "differentiation.go Backpropagate"), ("per-operation derivative rules", "SymDiff / symdiff expression tables")],
 ["value of the nodes returned by Grad", "Node.Grad"])

prop("C05", "Gradients accumulated by the interpreting machine are the true derivative",
 "For every differentiable expression graph with a scalar cost run on the interpreting machine, the derivative stored on every variable equals the exact partial derivative of the cost at the bound inputs, accumulated over all uses of the variable. The result agrees with symbolic differentiation of the same graph.",
 ["programs", "inputs"],
 "every scalar-cost DAG over the automatic-differentiation alphabet up to the size bound, derivatives checked element by element against forward-mode dual numbers",
 "Automatic-differentiation rules are a second, independent implementation of every derivative; tests reach single uses of each, while accumulation over sharing is a statement over all programs.",
 ["vm_genera.go", "differentiation.go", "operatorPointwise_binary.go", "operatorPointwise_unary.go", "operatorLinAlg.go", "op_tensor.go", "op_reduction.go", "dual.go", "execution.go"],
 [("backward interpretation", "vm_genera.go backward"), ("per-operation autodiff rules", "DoDiff methods and *Diff functions")],
 ["Node.Grad after a run"])

prop("C06", "Every run depends only on what is bound when it starts",
 "After any history of binding inputs, running, resetting, failing to bind and running again on one machine, the values of a run are those of a fresh graph and fresh machine with the same bound inputs. No value, register content or pending work from an earlier run leaks into a later one, and gradients that the caller has cleared start again from zero.",
 ["histories", "inputs"],
 "every sequence of bind / run / reset / gradient-clear / close operations up to the depth bound, on every program of a fixed family, for both machines",
 "Tests run a graph once or loop one fixed pattern; leakage depends on the whole operation history.",
 ["vm_tape.go", "vm_genera.go", "node.go", "gorgonia.go", "op_tensor.go", "dual.go"],
 [("Reset", "vm_tape.go / vm_genera.go Reset"), ("input binding", "gorgonia.go Let, UnsafeLet"), ("instruction execution with preallocated registers", "vm_tape.go")],
 ["Node.Value, Read values and Node.Grad after every run"],
 state=[("machine state", "registers, program counter, pending work, dual values", "vm_tape.go, vm_genera.go, dual.go")])

prop("C07", "Inferred shape and element type match what is computed",
 "Whenever an expression can be built from given operand shapes and element types, running it yields a value with exactly the shape and element type the node announced. Operand combinations outside an operation's definition are refused, by an error or a panic of the constructor when the expression is built or by an error when it is run; they never produce a value of the wrong shape or element type and never crash a running machine.",
 ["programs", "inputs", "configurations"],
 "every operation and parameterisation crossed with every tuple of operand shapes of up to 4 dimensions with small extents and every element type",
 "Shape inference and execution are separate code; tests cover a few shapes per operation.",
 ["op.go", "shape.go", "typeSystem.go", "type.go", "op_tensor.go", "op_reduction.go", "op_math.go", "operatorLinAlg.go", "operations.go"],
 [("type inference", "typeSystem.go"), ("shape inference", "InferShape methods"), ("build-time validation", "operations.go, op.go ApplyOp")],
 ["Node.Shape / Node.Dtype against the value after a run", "errors returned when building or running"])

prop("C08", "Element-wise operations and broadcasting follow their definition",
 "Every element-wise arithmetic, comparison and mathematical function applied to scalars and tensors in any combination gives, element by element, the function it is named after, in the element type of the operands; comparisons yield booleans or 0/1 as requested. Explicit and automatic broadcasting pair each element of one operand with exactly the matching elements of the other along the stated axes, in either operand order.",
 ["inputs", "programs", "configurations"],
 "every element-wise operation crossed with every scalar/tensor operand combination, element type, shape up to 3 dimensions and broadcast pattern, over a fixed lattice of values including zeros, signs and extremes, on both machines",
 "Tests use one or two value vectors per operation and a handful of broadcast shapes.",
 ["operatorPointwise_binary.go", "operatorPointwise_unary.go", "operatorPointwise_binary_const.go", "operatorPointwise_unary_const.go", "math.go", "mathutils.go", "broadcast.go", "operations.go", "api_gen.go", "op_infidel.go", "op_minmaxBetween.go"],
 [("scalar and tensor kernels", "operatorPointwise_*.go, math*.go"), ("broadcast expansion", "broadcast.go, operations.go")],
 ["values after a run"])

prop("C09", "Reductions fold exactly the requested axes",
 "Sum, mean, maximum, norms and related reductions over any set of axes fold exactly the elements along those axes and leave the others in order, for every shape including extents of one, and their gradients route to exactly the contributing elements. Reducing over all axes gives a scalar, and keeping dimensions pads the result with extents of one on the requested side.",
 ["inputs", "configurations", "programs"],
 "every reduction, every shape up to 4 dimensions with small extents, every subset and order of axes, both float widths",
 "Tests cover a few axis lists on a few shapes; multi-axis, unit-extent and permuted axis lists are not enumerated.",
 ["op_reduction.go", "operations.go", "utils.go"],
 [("reduction operations and their shape rules", "op_reduction.go"), ("reduction helpers", "operations.go")],
 ["values, shapes and gradients after a run"])

prop("C10", "Structural operations move every element to the right place",
 "Slicing, concatenating, splitting, transposing, reshaping, repeating, indexing, upsampling, diagonal and similar structural operations give exactly the elements of their operands in the positions their definition states, for every axis, permutation, range and step. Their gradients return each output derivative to the element it came from, accumulating duplicates. A slice re-targeted between runs selects its new range and sends its derivative there.",
 ["inputs", "configurations", "programs"],
 "every structural operation crossed with every parameterisation on every shape up to 4 dimensions with small extents, and every composition of two structural operations",
 "Tests use a few shapes and mostly axis 0; views, strides and step sizes interact combinatorially.",
 ["op_tensor.go", "operations.go", "slice.go", "op_by_indices.go", "op_upsample.go", "op_nondiff.go", "engine.go"],
 [("structural operations", "op_tensor.go"), ("construction helpers", "operations.go")],
 ["values and gradients after a run"])

prop("C11", "Linear algebra agrees with the textbook contraction",
 "Matrix product, matrix-vector product, inner and outer products, batched products and general tensor contraction equal the textbook sum of products for every pair of conforming shapes and transposition choice, in both float widths. Operands produced by transposition or slicing are treated as the matrices they represent, and gradients with respect to both operands are the matching contractions.",
 ["inputs", "programs", "configurations"],
 "every conforming shape tuple with small extents, every transposition flag and axis pairing, operands plain, transposed or sliced",
 "Tests use square or single-shape operands; layout and transposition combinations are not enumerated.",
 ["operatorLinAlg.go", "op_math.go", "operations.go", "op_tensor.go", "blas.go"],
 [("linear algebra kernels", "op_math.go linAlgBinOp, operatorLinAlg.go"), ("tensor contraction", "op_math.go tensordotOp, operations.go")],
 ["values and gradients after a run"])

prop("C12", "Convolution and pooling equal their sliding-window definition",
 "Two-dimensional convolution with any kernel, padding, stride and dilation equals the direct sliding-window sum over the zero-padded image, and max, average and global average pooling equal the maximum or mean over each window, for every batch and channel count. Their gradients equal the derivative of that definition, and parameters for which no output position exists are refused with an error.",
 ["inputs", "configurations"],
 "every image, kernel, padding, stride and dilation combination with small extents, several batches and channels, both float widths",
 "Tests fix a handful of configurations; off-by-one errors appear only for particular padding/stride/dilation combinations.",
 ["nn.go", "op_nn.go", "op_avg_pool.go"],
 [("patch extraction and its adjoint", "op_nn.go im2colOp, col2imOp"), ("pooling with mask", "op_nn.go maxPoolOp"), ("average pooling", "op_avg_pool.go avgPoolOp, avgPoolDiffOp"), ("assembly", "nn.go Conv2d, MaxPool2D")],
 ["values, shapes and gradients after a run"])

prop("C13", "Softmax, normalisation and dropout follow their definition in each mode",
 "Softmax, log-softmax and sparsemax along any axis give the normalised distribution of their definition and its derivative. Batch normalisation uses batch statistics while training and the running statistics when evaluating, updating the latter by its momentum rule only while training; dropout scales surviving elements by the reciprocal of the keep probability while training and is the identity when evaluating, and gradients follow the same mask.",
 ["inputs", "configurations", "histories"],
 "every shape and axis with small extents; every sequence of train/evaluate/run steps up to the depth bound; every dropout mask: runs are repeated until each of the 2^n masks has been observed and judged",
 "Mode switches and running statistics are history dependent and dropout masks are random; tests sample one path.",
 ["op_softmax.go", "op_sparsemax.go", "op_dropout.go", "op_nn.go", "nn.go"],
 [("normalised exponentials", "op_softmax.go"), ("running statistics and mode", "op_nn.go BatchNormOp"), ("mask generation", "op_dropout.go")],
 ["values, gradients and running statistics after every step"])

prop("C14", "Different expressions are never merged; equal ones may be shared",
 "Two expressions built in one graph may be represented by one node only if they denote the same value for every binding of the inputs. Operation parameters, operand order, element types, constants and the identity of inputs always keep expressions apart, both when the graph is built and when the program is compiled.",
 ["programs", "configurations"],
 "every pair of expressions from an exhaustive catalogue of operations and parameterisations built side by side in one graph, in both orders, compared with each built alone",
 "Merging depends on hashes of pairs of parameterisations; tests never build two near-identical expressions in one graph.",
 ["graph.go", "node.go", "op.go", "equalities.go", "analysis.go", "op_tensor.go", "op_softmax.go", "op_nn.go", "op_infidel.go", "op_types.go"],
 [("node deduplication", "graph.go AddNode"), ("hashing of operations", "WriteHash methods"), ("compile-time value numbering", "analysis.go")],
 ["values after a run of the joint graph against the separate graphs"])

prop("C15", "Numerical rewrites keep the meaning of every expression",
 "Building a graph with numerical stabilisation enabled gives every node the user holds the same value and gradient as building it with stabilisation disabled, wherever the plain form is computable in floating point. A rewrite triggered by one expression never changes, invalidates or removes another expression or node the user already holds.",
 ["programs", "inputs"],
 "every expression up to the size bound over the operations that rewrites recognise, with every node of the expression read and reused, with and without stabilisation",
 "Tests check that the target pattern is produced; they never look at the other users of the rewritten sub-expression.",
 ["stabilization.go", "op.go", "opt.go", "api_gen.go", "operations.go"],
 [("pattern rewrites", "stabilization.go"), ("rewrite dispatch", "operations.go unaryOpNode, binOpNode")],
 ["values and gradients after a run of both variants"])

prop("C16", "Solvers apply their published update rule at every step",
 "Over any sequence of steps, each solver changes every trainable value exactly as its published update rule with the configured learning rate, decay, regularisation, clipping, batch size and per-parameter memory prescribes, for scalars and tensors and both float widths, and clears the gradient it has consumed. Parameters in one set never influence each other except where the rule says so.",
 ["histories", "inputs", "configurations"],
 "every sequence of gradients from a small alphabet up to the depth bound, every combination of options, every parameter kind, for every solver",
 "Tests check that a loss goes down or a single step; multi-step internal memory and option combinations are not enumerated.",
 ["solvers.go"],
 [("update rules and caches", "solvers.go Step methods"), ("options", "solvers.go With* functions")],
 ["trainable values and gradients after every step"],
 state=[("solver memory", "velocity, accumulated squares, moment estimates, step counter", "solvers.go")])

prop("C17", "Graph queries and transformations agree with the expression structure",
 "After every step of building a graph or removing an unused node, the topological order contains every node once with every node before its operands, inputs and roots are exactly those of the expression structure, and look-ups, edges and parent/child queries agree with it and with each other. A sub-graph holds exactly the nodes its roots need. Cloning a graph gives an independent graph of the same structure that computes the same values, and later changes to one do not show in the other.",
 ["programs", "histories"],
 "every DAG up to the size bound built in every admissible order, queried after every construction step",
 "Tests use one or two fixed graphs and query only the finished graph.",
 ["graph.go", "node.go", "collections.go", "walker.go", "node_set.go"],
 [("adjacency bookkeeping", "graph.go"), ("topological sort and walks", "collections.go, walker.go, gorgonia.go")],
 ["results of graph query methods"])

prop("C18", "Compiling a chosen part of a graph computes that part correctly",
 "Compiling only the sub-graph needed for selected outputs, or a function from selected inputs to selected outputs, and running the result gives those outputs the same values as running the whole graph. Every node needed is included whatever else the graph contains, and one compiled program can be executed any number of times.",
 ["programs", "configurations", "histories"],
 "every DAG up to the size bound crossed with every non-empty choice of outputs, run repeatedly with different inputs",
 "Tests compile one fixed sub-graph.",
 ["compile.go", "graph.go", "vm_tape.go"],
 [("sub-graph extraction", "graph.go SubgraphRoots, ExactSubgraphRoots"), ("function compilation", "compile.go CompileFunction"), ("execution of precompiled programs", "vm_tape.go")],
 ["values after a run"])

prop("C19", "NaN and infinity watches fire exactly when one appears",
 "With the NaN (or infinity) watch enabled, a run reports an error if and only if some executed operation produced a NaN (or infinite) element, whichever operation and element it is. With the watches off the same run succeeds and delivers the IEEE value.",
 ["inputs", "programs", "configurations"],
 "every DAG up to the size bound over operations that can produce such values, every position of the offending element, all watch settings, both machines",
 "Tests plant one NaN at one place.",
 ["vm_tape.go", "vm_genera.go", "vm.go", "values.go", "values_utils.go"],
 [("watch checks", "vm_tape.go exec, vm_genera.go"), ("NaN and infinity detection", "values_utils.go")],
 ["error returned by a run"])

prop("C20", "A failing operation is reported and leaves the machine reusable",
 "If any operation fails at any point of a run, forwards or backwards, the run returns an error instead of hanging, crashing or reporting success, and nothing it was told to compute after the failure is delivered as if it had succeeded. An error that names the node at fault names the one that failed. After a reset and once the cause is gone, the same machine on the same graph computes correct results again.",
 ["fault_sequences", "programs", "histories"],
 "every program of a bounded family, every operation position at which a fault (error result) is injected, every sequence of faulty and healthy runs up to the depth bound, both machines",
 "Tests hardly ever make an operation fail, never at each position and never followed by recovery.",
 ["vm_tape.go", "vm_genera.go", "vm.go", "errors.go"],
 [("error propagation from instructions", "vm_tape.go runall, exec"), ("error propagation in the interpreter", "vm_genera.go runall")],
 ["error returned by a run", "values after recovery"])

prop("C21", "Copies of values are independent and bindings are validated",
 "Cloning or copying a value, scalar or tensor, gives an equal value of the same type and shape whose later modification never shows in the original, and equality and closeness comparisons agree with element-wise comparison. Binding a value to an input is accepted exactly when type and shape agree, and a refused binding leaves the input as it was.",
 ["inputs", "histories"],
 "every pair of values from a catalogue covering each element type, scalar and tensor shape, view and plain layout; every binding of each to each input kind",
 "Tests cover single examples of each function.",
 ["values.go", "values_utils.go", "values_primitives.go", "gorgonia.go", "dual.go", "equalities.go", "node.go"],
 [("copy and clone", "values_utils.go"), ("binding", "gorgonia.go Let, node.go bind"), ("dual values", "dual.go")],
 ["values after mutation of the copy", "errors returned by binding"])

prop("C22", "The concurrent machine computes every node in every schedule",
 "For every expression graph and every interleaving of its goroutines, a run of the concurrent machine without cancellation terminates and leaves in every node the value obtained by evaluating the expression directly. Operands arrive in their own positions whatever order they are delivered in, and repeated runs of one machine behave like the first.",
 ["schedules", "programs", "histories"],
 "every interleaving up to the stated preemption bound of goroutines, channel operations and select choices, for every DAG up to the size bound",
 "The test suite sees the one schedule the Go runtime happens to choose.",
 ["x/vm/machine.go", "x/vm/node.go", "x/vm/pubsub.go"],
 [("per-node state machine", "x/vm/node.go"), ("publish/subscribe plumbing", "x/vm/pubsub.go"), ("coordination", "x/vm/machine.go")],
 ["return of a run", "results stored in nodes"])

prop("C23", "The concurrent machine stops cleanly on failure or cancellation",
 "If an operation fails or the caller cancels at any moment, a run of the concurrent machine returns in every schedule, reports the failure (or the cancellation if work remained), and leaves no goroutine of the run behind. Tracing reports, for every state a node goes through, a start and an end event in order and never changes the outcome.",
 ["schedules", "fault_sequences", "crash_points"],
 "every interleaving up to the stated preemption bound, crossed with every position of a failing operation and every point at which the caller cancels, with and without tracing",
 "Cancellation and failure races depend on the schedule; the tests exercise one.",
 ["x/vm/machine.go", "x/vm/node.go", "x/vm/pubsub.go", "x/vm/tracer.go"],
 [("fail-fast cancellation", "x/vm/machine.go runAllNodes"), ("context handling", "x/vm/node.go, x/vm/pubsub.go"), ("tracing", "x/vm/tracer.go")],
 ["error returned by a run", "live goroutines after a run", "trace events"])

prop("C24", "Independent graphs and machines never disturb each other",
 "Building, differentiating and running one graph while another, unrelated graph is built, differentiated, run or discarded gives both the results they have alone, for every interleaving of their steps. Recycling of internal objects by one never shows in the other.",
 ["schedules", "histories", "programs"],
 "every interleaving of the steps of two independent client scripts up to the step bound, at the granularity of API calls and of individual operations inside a run",
 "Tests use one graph at a time, so pooled and global state is never exercised across graphs.",
 ["perf.go", "graph.go", "node.go", "dual.go", "vm_tape.go", "vm_genera.go", "differentiation.go"],
 [("object pools", "perf.go"), ("global counters and options", "opt.go, internal/encoding/groups.go")],
 ["values and gradients of both clients"])

prop("C25", "The device memory allocator hands out disjoint, aligned, reusable memory",
 "Over any sequence of allocations and frees, every live allocation is aligned, lies inside the reserved region and overlaps no other live allocation, unknown frees are ignored, and an impossible request is refused without disturbing the rest. When everything has been freed, the whole reserved region can be allocated again.",
 ["histories", "inputs"],
 "every sequence of allocate and free calls up to the depth bound over a set of sizes around the alignment boundaries, for several region sizes and alignments",
 "The allocator's own tests live in a package that cannot be built without a GPU toolkit, and follow one fixed sequence.",
 ["cuda/bfc.go"],
 [("free list with splitting", "cuda/bfc.go freelist"), ("coalescing", "cuda/bfc.go coalesce")],
 ["addresses returned by the allocator"],
 state=[("free list", "ordered blocks of free memory", "cuda/bfc.go")])

prop("C26", "The batched linear-algebra queue executes every call once, in order",
 "Every linear-algebra call handed to the batching library has taken effect exactly once, with its own arguments and in submission order, by the time the queue has been flushed, whoever flushes it and whatever the caller did with its own references to the operands meanwhile. This holds for any number of queued calls relative to the queue capacity (given a goroutine that flushes when work is announced), any placement of flushes, any interleaving of clients and flushers, and all transposition flags, shapes, strides and scalars.",
 ["histories", "schedules", "inputs"],
 "every sequence of batched calls and flushes up to the depth bound around the queue capacity, with shapes and transposition flags enumerated",
 "The one queue test follows a single sequence and is already unreliable.",
 ["blase/work.go", "blase/blas.go", "blase/fn.go"],
 [("queueing and flushing", "blase/work.go"), ("argument marshalling", "blase/blas.go")],
 ["contents of result slices after a flush"])

prop("C27", "Exported graph descriptions list exactly the graph's nodes and edges",
 "Exporting any expression graph to the dot format yields a syntactically valid document in which every node and every operand edge of the graph appears exactly once and nothing else does. Exporting never changes the graph or its later results.",
 ["programs"],
 "every DAG up to the size bound, with inputs, constants, operators, gradients and names containing special characters",
 "Tests compare the export of one graph.",
 ["encoding/dot/encode.go", "encoding/dot/topgraph.go", "encoding/dot/node.go", "encoding/dot/copy.go", "internal/encoding/groups.go"],
 [("copy into an export graph", "encoding/dot/copy.go"), ("grouping", "encoding/dot/topgraph.go")],
 ["the exported document, parsed back"])

prop("C28", "The sequence loss equals the sum over all alignments",
 "The connectionist temporal classification loss equals the negative logarithm of the summed probability of every alignment of the target with the input frames, with blanks and repeats handled as defined, for every target and input length. Its gradient is the derivative of that quantity, and batch reduction options combine per-sequence losses as named.",
 ["inputs", "configurations"],
 "every target sequence up to the length bound over a small label set, every input length, batch composition and reduction, with all alignments enumerated explicitly",
 "Tests compare two fixed examples; repeats, empty or full-length targets and mixed batch lengths are not enumerated.",
 ["op_ctc_loss.go"],
 [("forward variables", "op_ctc_loss.go"), ("gradient", "op_ctc_loss.go")],
 ["loss and gradient after a run"])

prop("C29", "Declared nodes carry exactly the declared value",
 "Declaring an input or constant with any combination of name, shape, element type, value or initialiser yields a node with exactly that name, shape, type and content, and contradictory declarations are refused. Deterministic initialisers fill every element as they are named, for every element type and shape.",
 ["inputs", "configurations"],
 "every constructor crossed with every subset of options, element type and shape with small extents",
 "Tests build nodes in a handful of ways.",
 ["gorgonia.go", "node.go", "weights.go", "op_infidel.go", "const.go"],
 [("constructors and options", "gorgonia.go, node.go"), ("initialisers", "weights.go")],
 ["name, shape, type and value of the node"])

prop("C30", "Collections of nodes behave as the sets they stand for",
 "Union, difference, intersection, membership, equality, uniquification and the other operations on node lists and node sets give exactly the nodes that the same operation on mathematical sets gives, whatever the order of the operands' elements. An operation does not change which nodes its operands hold, nor memory that belongs to neither, and a clone is independent of its original.",
 ["inputs", "histories"],
 "every pair of lists of distinct nodes up to the bound in every order with and without spare capacity, every pair of subsets, every sequence of additions, removals and clearings up to the depth bound",
 "Tests use one pair of lists; ordering by address and spare capacity behind a slice decide which memory is touched.",
 ["collections.go", "node_set.go"],
 [("lists", "collections.go Nodes"), ("sets", "node_set.go NodeSet")],
 ["results of the operations and contents of the operands"])

prop("C31", "Group normalisation normalises every group of every sample",
 "Group normalisation subtracts from every element the mean of its sample's group of channels, divides by the root of that group's variance plus epsilon, and applies the per-channel scale and bias, for every number of groups dividing the channels and every size of a group. Gradients of input, scale and bias are the derivatives of that definition on both machines, and repeated runs do not depend on earlier ones.",
 ["inputs", "configurations", "histories"],
 "every batch, channel, group and image size within small extents, both float widths, and every group size up to several hundred elements",
 "Tests use small images; the moments are accumulated in vectors, chunks and a tree of chunks whose deeper levels only large groups reach.",
 ["op_group_norm.go", "utils.go"],
 [("forward", "op_group_norm.go GroupNormOp"), ("moments", "op_group_norm.go rowwiseMomentsF64, rowwiseMomentsF32"), ("gradient", "op_group_norm.go groupNormDiffOp")],
 ["values and gradients after a run"])

prop("C32", "Conversion between element types converts every element and nothing else",
 "Converting a node between integer and floating-point element types yields a value of the announced shape and element type whose every element is the source element converted (towards zero), for scalars, tensors and views and on every run. Gradients that reach a conversion are converted back, and conversions that are not provided, or whose declared source type is not the operand's, are refused with an error.",
 ["inputs", "configurations"],
 "every source, declared and destination element type, every small shape, a catalogue of boundary values rotated through all positions, repeated runs and both machines",
 "No test runs a conversion of a scalar or chains conversions.",
 ["op_types.go"],
 [("conversion", "op_types.go dtConvOp")],
 ["values, shapes, element types and gradients after a run"])

prop("C33", "The detection layer decodes every box of its grid",
 "In inference the YOLO detection layer turns the attributes of every grid cell and every chosen anchor of every image into one box: centre as the cell position plus the logistic of the offset, extent as the exponential times the anchor its mask names, objectness and class scores as logistics, scaled by the stride. Boxes are listed cell by cell and anchor by anchor, the input is left unchanged, repeated runs are independent, and masks outside the anchor list are refused.",
 ["inputs", "configurations"],
 "every batch, grid, ordered choice of anchors, number of classes and stride within small bounds, on both machines and on repeated runs",
 "Tests use one batch with the anchors in their order.",
 ["op_yolo.go"],
 [("inference", "op_yolo.go yoloOp.Do, evaluateYOLO_f32")],
 ["values and announced shapes after a run"])

prop("C34", "Lifted functions compute what they lift and pass failures on",
 "A function lifted with Lift1, Lift1Axial, Lift2 or Lift2Broadcast calls the function it lifts exactly once with the nodes its operands stand for, with the given axes or patterns, and its result stands for the node that call returned. When an operand stands for a failure (the first one, counting from the left) or the call fails, the function is not called again, nothing is made of it, and the result stands for that failure. Operands that make new versions of themselves are asked to, in order, once each. NodesFromInputs returns the nodes in order or the first failure.",
 ["histories", "inputs"],
 "every chain of lifted calls with every choice of operands among nodes, failures, foreign inputs and earlier results; every list of inputs",
 "No test of the repository calls them.",
 ["ermagerdmonards.go"],
 [("lifting", "ermagerdmonards.go Lift1, Lift1Axial, Lift2, Lift2Broadcast"), ("results", "ermagerdmonards.go LiftResult, TransformResult, CheckOne, NodesFromInputs")],
 ["results, their failures, and the calls of the lifted function"])

prop("C35", "Watching a machine does not change what it computes",
 "A machine given a logger, a watch list (everything, nodes, registers), a value format, directions to log, tracing or watches for NaN and Inf computes the same values and derivatives as one that is not watched, on the first and on later runs with other inputs. With tracing every node of the graph holds the value of its expression after a run, also where the machine reuses the memory; with a watch list of nodes the watched ones do.",
 ["configurations", "inputs"],
 "every program within bounds on both machines, with and without derivatives, under every way of watching and for every node watched",
 "Tests log a handful of graphs and do not compare the values with and without.",
 ["vm.go", "vm_tape.go", "vm_genera.go"],
 [("options", "vm.go WithLogger, WithWatchlist, WithValueFmt, TraceExec, LogFwd, LogBwd"), ("logging", "vm_tape.go watchedLogf, execOp.exec; vm_genera.go watchedLogf, forward, backward")],
 ["readings, derivatives and node values after a run"])

prop("C36", "A trace dump holds every finished step exactly once",
 "DumpTrace writes a JSON list with one group per state of the machine that has a finished step; the group holds every finished event of that state exactly once, in the order of the events, with the name and number of its node and its start and end times. Unfinished events are left out, nothing is made up, the events given are not changed. This holds for every list of events and for the events of a traced run of the concurrent machine.",
 ["histories", "inputs"],
 "every sequence of events over three nodes, two states, finished or not, up to four (five) events; the events of every run of a small program",
 "The only example of the repository dumps an empty trace.",
 ["x/dataviz/traces.go", "x/vm/tracer.go"],
 [("dump", "x/dataviz/traces.go DumpTrace"), ("tracing", "x/vm/tracer.go WithTracing, CloseTracing, trace")],
 ["the JSON document"])

prop("C37", "Random weights, random nodes and dropout are what their draws stand for",
 "As a function of the draws of the random source: a Gaussian initialiser gives mean plus spread times a standard normal draw for every element, a uniform one low plus a draw times the width, a binomial one the number of its draws below the probability; Glorot and He initialisers do so with the spread their scheme gives for the shape and gain, the uniform ones within plus or minus root three spreads, in single as in double precision; unsupported element types and shapes are refused. A random node has the declared shape and type, draws anew in every run and once per run however often it is used, and derivatives flow past it. Dropout in training drops the named share of the draws and scales the rest.",
 ["inputs", "histories"],
 "every sequence of draws from a small table for up to four (seven) values, every shape, element type, initialiser, machine and form of graph within bounds, several runs",
 "Tests cannot judge random values and do not look at them.",
 ["weights.go", "op_nn.go", "gorgonia.go", "op_dropout.go", "nn.go"],
 [("initialisers", "weights.go Gaussian, Uniform, GlorotN, GlorotU, HeN, HeU, Binomial64, Binomial32"), ("random nodes", "gorgonia.go UniformRandomNode, GaussianRandomNode, BinomialRandomNode; op_nn.go randomOp.Do"), ("dropout", "nn.go Dropout; op_dropout.go do")],
 ["values, shapes and types"])

import sys
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
