#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of built checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 'C01': 'bounded: programs of up to 5 instructions (6 thorough) over stated alphabets and shapes, compared with a reference evaluator',
 'C04': 'bounded: gradient expressions of programs of up to 4 instructions (and second derivatives) compared with forward-mode reference derivatives',
 'C05': 'bounded: backward runs of the interpreting machine over programs of up to 4 instructions (and second derivatives of scalar ones) compared with forward-mode reference derivatives',
 'C02': 'bounded: programs of up to 3 instructions (4 thorough), four kinds of run, three memory layouts; caller-owned memory compared bit by bit after every step',
 'C03': 'bounded: programs of up to 4 instructions interpreted forwards and in full; every node compared with a reference evaluator',
 'C06': 'bounded: all event histories of length 5 (7 thorough) over few programs, fixed three-run histories over all programs of up to 2 instructions',
 'C08': 'bounded: every exported elementwise and broadcasting operation over stated shapes, element types and special values, integers included, compared element by element',
 'C09': 'bounded: every reduction over every ordered axis list of every shape up to 4 dimensions with extents 1..3, values and both kinds of gradient',
 'C10': 'bounded: every structural operation with every parameterisation on shapes up to 4 dimensions, and all compositions of two (three thorough); unstepped slices re-targeted between runs',
 'C11': 'bounded: every product and contraction over all conforming small shapes, transposition flags and axis pairings, operands plain or views, with gradients, plus chains of two',
    "C12": 'Reference: direct sliding-window sum and window maximum with dual numbers. Every pair of row and column geometry (extent <=3, kernel <=3, padding <=2, stride <=3, dilation <=2; pooling also uneven padding, extent <=4), in both float widths, batches, channels and filters <=3, views as operands, compositions of two layers and images used twice, on both machines with gradients. Thorough: extents <=4/5. Windows that cover only padding are excluded.',
    "C13": 'Reference: definitions of softmax, log-softmax, sparsemax (exact simplex projection by support enumeration) and of the batch-normalisation/dropout state machines. Every shape with extents <=3 and axis, operand views, all event sequences (train/evaluate machine, run, new input) up to depth 5 (6 thorough) for the running statistics, all 2^n dropout masks of small inputs observed. The dropout gradient factor is an open finding (pinned by the existing suite); BatchNorm on vectors is excluded.',
    "C16": 'Reference: the update rules element by element in double precision. Every subset of the options each solver supports x parameter sets (scalars, tensors with 1 to 6 elements, lazily transposed weights or gradients, 1-3 parameters of mixed kinds and widths) x every gradient sequence of length 3 over 3 letters (thorough: 4 over 4); parameters free standing or nodes differentiated by a tape machine; missing gradients.',
    "C25": "The allocator's own source is compiled from the working tree without the GPU files. Every sequence of up to 6 (thorough 7) allocate (5 sizes around the alignment), free, double free, unknown-free, release and reserve calls (stale addresses included) on 6 regions; after every sequence everything is freed and the whole region requested. The model knows only live blocks: alignment, containment, disjointness, and a request that fits a gap is granted.",
    "C22": "The concurrent machine's own source is rewritten at check time onto a controlled runtime (goroutines, channels, select, contexts, sync become scheduling decisions) and every inequivalent schedule is executed: all DAGs over Sub and Neg with up to 5 nodes (thorough also 4 operations), constants, variadic operations, one example of every operation kind, random nodes, repeated runs. Dynamic partial order reduction, itself validated against unreduced enumeration on all small programs of a family (mc/vs/gen_test.go). Each graph also runs natively.",
    "C23": 'Same controlled runtime as C22: every schedule of every DAG with up to 3 nodes (thorough 4), crossed with every set of failing operations, cancellation before or at any moment of the run, tracing off, drained by a sink, by a reader, or abandoned after 0 to 2 events, and a healthy second run after a broken one. Executed states are compared with trace events.',
    "C28": 'exhaustive over label paths, words, lengths and batches within the stated bounds on the real operation',
    "C20": 'exhaustive over programs, machines and fault sequences within the stated bounds on the real machines',
    "C17": 'Every program up to the bound is built step by step on the real graph with every placement of a Read, of the removal of an unused node and of a clone; after each step every query is compared with a reference model of the graph. Trusted: the reference model in mc/c17.go.',
    "C18": 'Every program up to the bound with every non-empty choice of outputs is compiled in six ways on the real compiler and run repeatedly with different inputs; values are compared with the reference evaluator. Trusted: the reference evaluator in mc.',
    "C19": 'Every program up to the bound with every placement of exceptional inputs is run under every watch setting on the real machines; the oracle is the value of every executed node in an unwatched run. Trusted: node values recorded by TraceExec and by the lisp machine.',
    "C14": 'a catalogue of about 500 expressions, every pair in one graph',
    "C15": 'every program of the recognised operations up to the stated length, and the programs of two and three operations that resemble them, over constants and operands on either side of one, in graphs that do and do not hold the constants of the library',
    "C07": '735k calls: every operation and parameterisation (axes, ranges, coordinates, patterns from outside the valid range too) crossed with 17 operand shapes and 7 element types, mixed types included; built, probed and run on the real tape machine, the announced shape and element type compared with the value and with the reference definition, the node predicates with the announced shape.',
    "C21": '686k cases: every value of a catalogue of 7 element types, 13 (thorough 22) shapes, 5 memory layouts and 5 contents through cloning, copying, zeroing and node cloning with later modification of either side; every pair through equality, closeness and copying; every value bound to every input kind with and without earlier value and gradient; every pair of value and gradient at construction.',
    "C24": 'Every interleaving with at most 4 (thorough 6) switches of every pair of 14 client scripts; a step is an API call or the stretch of a run between two operations. Everything observed is compared with the observations of the script alone.',
    "C26": "explicit-state: every history of batched calls and flushes up to 8 (thorough 10) events, all argument combinations, and every inequivalent schedule of up to two clients and two flushing goroutines, on the library's own source compiled onto a controlled runtime; reference executes each call at once",
    "C27": 'explicit-state: every graph of programs up to the length bound with constants, gradients and watched values, all pairs (thorough: triples) of special characters in names; every exported document is parsed and compared with the graph',
    "C29": 'explicit-state: every constructor with every combination and order of options and values; the node built is compared with what was asked for, contradictions must be refused',
    "C30": 'explicit-state: every pair of lists of up to 4 (thorough 5) distinct nodes in every order with three amounts of spare capacity, every pair of subsets of 5 (7) nodes, every sequence of up to 5 (6) set updates; every exported operation compared with sets of numbers',
    "C31": 'explicit-state: every batch up to 2 (3), channel count up to 4 (6), number of groups and image up to 3x3 (4x4), and every group size up to 700 (1600) elements, forward, repeated, with gradients and on views, on both machines, against dual-number arithmetic',
    "C32": 'explicit-state: every declared, actual and destination element type, 9 (14) shapes, a catalogue of values (up to 53 bits) in every rotation, fresh, repeated and view operands on both machines, chains and gradients',
    "C33": 'explicit-state: every batch up to 2 (thorough 3), grid up to 3 (5), ordered choice of up to 3 of 4 anchors, up to 2 (4) classes and 3 strides, on both machines and repeated; every box compared with the formula',
    "C34": 'explicit-state: every chain of two lifted calls (thorough three) of eight functions, with every choice of operands among eight inputs and the earlier results, compared with a model that tracks nodes, failures and makers; every list of up to four (six) inputs; every result with up to three operands',
    "C35": 'explicit-state: every one-operation program of the wide alphabet over all shape pairs in both float types and every two-operation program of the core alphabet (thorough: three, and wide pairs), on both machines with and without derivatives, under eleven ways of watching, each node watched in turn, two runs with different inputs',
    "C36": 'explicit-state: every sequence of up to 4 (thorough 5) trace events over three nodes, two machine states, unfinished, finished or finished at once, dumped and decoded again; and the events of a traced run of every one-operation program of the core alphabet on the concurrent machine',
    "C37": 'explicit-state with the nondeterminism of the random source resolved by the explorer: every sequence of draws from a table of three for up to 4 (thorough 7) values (two long sequences beyond) x 20 initialisers x 5 element types x 20 shapes; binomial weights; 6 random-node distributions x 2 types x 8 shapes x 6 graphs x 4 machines x 3 runs; dropout with probabilities k/8 over even grids of draws',
}
NA = {}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in NOTE:
        checks.append({'property': i, 'quick_cmd': f'./run.sh {i}', 'thorough_cmd': f'./run.sh {i}', 'evidence_file': f'evidence/{i}.json',
            'technique': 'explicit-state model checking: exhaustive bounded enumeration executed on the real code and compared with a reference model',
            'level': 'model_checking', 'level_note': NOTE[i]})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
hooks = {'guard': 'verif', 'enable': 'no hooks are needed: the checks drive the exported API and generated copies of the sources', 'source_commits': []}
m = {'version': 1, 'setup_cmd': './setup.sh', 'hooks': hooks, 'checks': checks, 'not_applicable': na,
     'notes': 'run.sh rebuilds the explorer in mc/ against /repo and runs one property; known-findings.jsonl lists open and fixed findings'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
