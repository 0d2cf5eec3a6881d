#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
N="src/neuralnet.c"; M="src/matrix_operations.c"; A="src/activation.c"; O="src/optimizer.c"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
              "why_tests_cant":why,"anchors":a})

p("P01","Inference computes exactly the documented layered function",
 "For every network (any number of layers, any layer sizes, any built-in activation per layer) and every finite input, predicting one sample yields for each layer activation(input x weights + bias), equal to the exact real-valued result up to float32 rounding. It writes exactly the network's output count of floats and changes neither the input nor the network, whatever the alignment of the caller's input and output buffers.",
 ["inputs","configurations"],"all layer counts, layer sizes (including every remainder modulo the SIMD widths), activations, finite parameters and inputs (including exact 0 and 1 inputs), buffer alignments",
 "Tests use a handful of fixed shapes, aligned buffers and random dense inputs; off-by-one tails, special-cased input values and misaligned buffers are only visible over all sizes, values and addresses.",
 [N,M,A],[("forward pass","neuralnet_predict"),("weights times input","vector_matrix_multiply")],["output vector of a prediction, bytes around it, parameters before and after"])

p("P02","All CPU builds of the library compute the same results",
 "The scalar/SSE, AVX, AVX2, AVX2+FMA, AVX-512 and BLAS builds of the library produce, for identical networks, data and settings, the same predictions, gradients, metric values and optimizer steps up to float32 rounding, and a build for prediction only (PREDICTION_ONLY) loads every saved model and predicts the same. The elementary vector and matrix routines agree in all builds with their elementwise definition for every length and leave everything outside the given range untouched.",
 ["configurations","inputs"],"every build configuration the machine can run, every vector/matrix size incl. 0 and all remainders, all finite values",
 "The test suite is compiled for one CPU configuration only, so a fault in the code for any other configuration is never executed.",
 [M,A,O,"src/RMSprop.c","src/adam.c","src/adagrad.c","src/SGD.c","src/neuralnet_predict_batch.c","src/evaluate.c"],
 [("SIMD branches per instruction set",M),("BLAS branch","src/neuralnet_predict_batch.c")],["predictions, gradients, metrics, parameters after a training step, per build"])

p("P03","Batch prediction equals predicting each sample by itself",
 "Predicting a batch of any size gives, row by row, the same result as predicting each sample alone (up to float32 rounding), in the order of the inputs. It writes exactly samples x outputs floats, leaves the inputs and the network unchanged, and works for any batch size from zero samples up, any network and any buffer alignment.",
 ["inputs","configurations"],"all batch sizes (including 0, 1 and sizes exceeding the internal work memory), network shapes, activations incl. softmax, OpenMP and BLAS builds",
 "No test calls batch prediction with more than one shape and batch size, nor the BLAS build with its divide-and-conquer over work memory.",
 ["src/neuralnet_predict_batch.c",N,M],[("parallel loop / sgemm with recursive halving","neuralnet_predict_batch")],["output matrix versus single predictions"])

p("P04","Activation functions and derivatives match their mathematical definition",
 "Each built-in activation (sigmoid, tanh, softmax, softplus, softsign, hard_sigmoid, relu, linear, exponential) maps every element of a vector of any length and alignment to its mathematical definition within float32 accuracy for every finite input, also very large ones (softmax outputs are nonnegative and sum to one; nothing overflows unless the true value does). Each derivative multiplies the incoming gradient in place by the function's slope expressed through the activation value (linear and softmax leave it unchanged), touching only the given elements, and names and functions map to each other one to one.",
 ["inputs","configurations"],"all nine activations, all lengths and alignments, all finite floats incl. large magnitudes, subnormals and the kinks",
 "Generated tests check a few random vectors of moderate values, so ranges where exponentials saturate, vector remainders and misaligned vectors are not reached.",
 [A],[("activation lookup","get_activation_func / get_activation_name / get_activation_derivative"),("vectorised exponential","exp256_ps")],["vector after applying the activation / derivative; returned names"])

p("P05","Backpropagation returns the exact gradient of the configured loss",
 "For every network and sample, the returned vector is the gradient of the configured loss for that sample with respect to every parameter, biases before weights for each layer from input to output, up to float32 rounding. This holds for every loss with every output activation it supports (cross-entropies paired with sigmoid and softmax) and every hidden activation other than softmax, for all layer sizes, for a gradient buffer with arbitrary previous content, and without writing beyond the parameter count.",
 ["inputs","configurations"],"all layer counts and sizes, activations, losses, parameter and sample values, stale gradient buffers",
 "The tests check gradients of a few fixed networks and sizes; misplacement between layers, tails of odd sizes, exact zeros in inputs and saturated units depend on the shape and values.",
 [N,M,A,"src/loss.c"],[("backward pass","neuralnet_backpropagation"),("pairing of loss and output activation","neuralnet_set_loss")],["gradient vector versus exact reference gradient"])

p("P06","Losses and metrics equal their definitions and are found by name",
 "Each metric (mean squared error, mean absolute error, mean absolute percentage error, binary and categorical cross-entropy, binary and categorical accuracy) returns its textbook value for predictions and targets of any length, including negative targets and predictions outside [0,1] (clipped for the cross-entropies and for binary accuracy), averaged over the components. Each loss returns the derivative, with respect to the prediction, of the metric of the same name (for the cross-entropies: prediction minus target, averaged for the binary one), and every documented name and short alias resolves to the right function, whose name is reported back, while unknown names resolve to nothing.",
 ["inputs"],"all vector lengths, finite predictions and targets of either sign, ties, values at and beyond the clip limits, all names",
 "Generated tests compare a few random vectors with nonnegative targets and in-range predictions.",
 ["src/loss.c","src/metrics.c"],[("metric functions","src/metrics.c"),("loss derivative functions","src/loss.c")],["returned metric value, loss vector, returned names"])

p("P07","Evaluation reports the mean of each metric over exactly the given samples",
 "Evaluating a network on a data set of at least one sample returns, for each requested metric in order, the arithmetic mean over exactly those samples of the metric of the network's prediction against that sample's target. After an epoch, the result vector holds these means for the training data, computed with the parameters at the end of the epoch, followed by those for the validation data when (and only when) validation data is given; nothing else is written.",
 ["inputs","configurations"],"all sample counts, metric lists, networks, with and without validation data, OpenMP and BLAS builds",
 "Tests look at one metric on one data set; wrong divisors, skipped samples or swapped slots depend on sample count, number of metrics and presence of validation data.",
 ["src/evaluate.c",O],[("parallel mean","evaluate"),("train / validation results","optimizer_run_epoch")],["result vector of an evaluation or epoch"])

p("P08","Every epoch trains on every sample exactly once, in batches as configured",
 "In each epoch (of at least one sample) every training sample contributes to exactly one batch: all batches have the configured size except a smaller last one, and each batch gradient is the mean of its samples' gradients. With shuffling off the samples are taken in their given order; with shuffling on their order is a fresh, uniformly random permutation in every epoch. Progress is reported after every batch with the number of samples done so far and the total.",
 ["inputs","histories","configurations"],"all sample counts, batch sizes (also larger than the data), shuffle settings, optimizers, sequences of epochs also with changing sample counts",
 "The tests run one optimizer with fixed counts and look only at the final parameters, so lost or repeated samples, wrong last batches or a biased order go unnoticed.",
 [O,"src/SGD.c","src/RMSprop.c","src/adagrad.c","src/adam.c"],[("sample order","prepare_shuffle_pivot / fisher_yates_shuffle"),("batch gradient","optimizer_calc_batch_gradient")],["samples seen by the loss function, progress calls, parameter change per batch"],
 [("pivot","order in which the samples of this optimizer are visited","src/optimizer.h")])

p("P09","Optimizers follow their published update rules step by step",
 "Each parameter update equals, up to float32 rounding, the rule of the optimizer for the mean gradient of the current batch: SGD with optional momentum, Nesterov momentum and learning-rate decay; RMSprop with the same options; Adagrad with decay; Adam with bias correction and decoupled weight decay. State (moments, accumulated squares, iteration counts, learning rate) carries over between batches and epochs, settings not given take the documented defaults, and the last partial batch follows the same rule.",
 ["histories","inputs","configurations"],"all optimizers, all settings, sequences of epochs and batches of any size, all parameter counts",
 "Tests compare one SGD run with a reference; other optimizers, option combinations, later epochs and the numbers of parameters that exercise vector remainders are not compared.",
 ["src/SGD.c","src/RMSprop.c","src/adagrad.c","src/adam.c",O,"src/optimizer.h"],[("update rules","*_run_epoch"),("defaults","*_PROPERTIES macros")],["parameters before and after every batch"],
 [("velocity, r, s, n_iterations, learning_rate","per-optimizer state","src/SGD.c")])

p("P10","Objects in one process are independent of each other",
 "Networks, optimizers and callbacks behave exactly as if each were the only one in the process: creating, using or freeing any number of other networks, optimizers, early-stopping monitors, checkpoint writers and loggers, in any interleaving, changes neither the results nor the decisions of this one.",
 ["histories"],"all interleavings of operations on several networks, optimizers and callbacks of different kinds, sizes and settings",
 "Every test uses one optimizer and at most one callback per process, so state shared between instances never shows.",
 [O,"src/adam.c","src/earlystopping.c","src/modelcheckpoint.c","src/logger.c"],[("per-instance state","optimizer and callback structures")],["results of an instance alone versus in company of others"])

p("P11","Results do not depend on the number of threads or on concurrent callers",
 "Predictions, gradients, evaluations, training epochs and the loading of models give the same values (up to the rounding of a reordered sum) for every number of OpenMP threads, and any number of threads may predict and compute gradients with the same network, and use different networks, at the same time and get the values they would get alone. Repeating a prediction, a gradient or a batch prediction gives bit-identical results.",
 ["schedules","configurations","inputs"],"all thread counts, batch sizes below and above the thread count, concurrent callers on shared and separate networks",
 "Tests run single-threaded callers with the default number of threads on sizes where races and reduction mistakes rarely show.",
 [O,"src/evaluate.c","src/neuralnet_predict_batch.c",N],[("OpenMP reduction of batch gradients","optimizer_calc_batch_gradient"),("parallel evaluation","evaluate")],["values with 1 thread versus n threads and versus concurrent callers"])

p("P12","Saving and loading a model preserves it exactly, in numpy's format",
 "Saving any network and loading the file gives a network with the same layer sizes, activation names and bit-identical parameters, hence bit-identical predictions. The file is a valid numpy archive holding for each layer from input to output the weights (inputs x outputs) and then the biases as little-endian float32 arrays, and an array of activation names as byte strings; conversely an archive in this layout written by numpy, compressed or not and with the activation names at any position, loads as that network. File names are formatted printf-style and limited to 128 characters.",
 ["inputs","configurations"],"all networks, parameter bit patterns incl. special floats, file names, archives written by numpy in any entry order of the activations, compressed or not",
 "Tests save and load one or two small networks and load a few files made by one numpy version.",
 [N,"npy_array/npy_array.c","npy_array/npy_array_list.c"],[("writer","neuralnet_save"),("reader","neuralnet_load")],["file contents read by numpy; reloaded network"])

p("P13","Malformed or inconsistent model files are refused without harm",
 "Whatever bytes a file contains, loading it as a model returns either nothing or a complete network that can be used, saved and freed; it never crashes, aborts, hangs, leaks or touches memory outside its own. A file whose arrays do not describe one consistent network (wrong element type, size or byte order, column-major order, missing or surplus arrays, sizes that do not chain, missing activation names) is refused.",
 ["inputs"],"arbitrary bytes, mutated valid archives, archives of well-formed arrays that do not fit together",
 "Tests load well-formed files only.",
 [N,"npy_array/npy_array.c","npy_array/npy_array_list.c"],[("consistency of the arrays","neuralnet_load"),("archive entries","npy_array_list_load")],["return value, process survival, sanitizer reports"])

p("P14","Arrays survive saving, loading and mapping and are exchangeable with numpy",
 "Any array of at most eight dimensions of numeric, boolean or byte-string type, in row- or column-major order, including zero-dimensional and empty ones, is preserved (shape, type, order, bytes) when saved and loaded, or memory-mapped, or stored in an archive plain or compressed. Files written here are read by numpy with identical contents, and files written by numpy are read here with identical contents; requested compression is applied. Arrays described by the convenience macros (NPY_ARRAY_BUILDER, SHAPE, NPY_DTYPE_...) are saved as just that, from memory that stays the caller's, and printing an array shows its dimensions, shape, type and order.",
 ["inputs","configurations"],"all dtypes, shapes with up to eight dimensions incl. zero sizes, memory orders, byte contents, single files, maps and archives with any entry names",
 "Only a few small float matrices are saved and loaded by the examples and tests.",
 ["npy_array/npy_array.c","npy_array/npy_array_list.c","npy_array/npy_array.h"],[("header writer","npy_array_get_header"),("reader","_read_matrix"),("archive writer","npy_array_list_save_compressed")],["array fields and bytes; numpy's view of the same file"])

p("P15","Malformed array files are refused without harm",
 "Whatever bytes an array file or archive contains, loading or mapping it returns either nothing or an array whose whole data, as announced by its shape and element size, is present and readable; truncated files are refused. It never crashes, aborts, hangs, leaks or touches memory outside its own, and the result can be printed, saved and freed.",
 ["inputs"],"arbitrary bytes, mutated headers (lengths, versions, types, shapes with overflowing products, missing keys or brackets), truncation at every byte, archive entry names of any content and length",
 "Tests only load well-formed files.",
 ["npy_array/npy_array.c","npy_array/npy_array_list.c"],[("header parser","_read_matrix"),("map reader","read_mapped")],["return value, accessibility of the data, process survival, sanitizer reports"])

p("P16","A failed or interrupted save never destroys the previous model",
 "If saving a model fails at any point (target cannot be opened or created, write error or full disk at any byte, rename failure), the call warns on standard error and returns, the program goes on, and a model previously stored under that name is still complete and loadable; if the process dies at any point during the save, the name holds either the complete old or the complete new model.",
 ["fault_sequences","crash_points"],"every file-system operation of a save failing or being the last one executed, every file-size limit, unwritable targets, directories as targets, networks of all sizes",
 "Tests never inject failures; they save to a writable directory and exit normally.",
 [N,"npy_array/npy_array_list.c"],[("archive writing through a temporary file","npy_array_list_save_compressed")],["file under the target name after the fault, standard error, process survival"])

p("P17","Early stopping triggers exactly when patience is exceeded",
 "An early-stopping monitor asks to stop after an epoch if and only if the monitored (finite) value has failed to improve strictly on its best so far for more than the configured patience of consecutive epochs (at any time up to now), for both directions of improvement. By default it monitors the first validation value when validation data is given and the first training value otherwise; a chosen index selects any other value; defaults are patience 10 and smaller-is-better.",
 ["histories","configurations"],"all sequences of result vectors (ties, negatives, huge values), patience values, directions, monitored indices, with and without validation",
 "No test runs early stopping.",
 ["src/earlystopping.c","src/earlystopping.h"],[("monitor","earlystopping_callback_run")],["stop flag after every epoch"],
 [("best value so far, epochs since improvement","history of the monitored value","src/earlystopping.c")])

p("P18","The checkpoint file always holds the model of the best epoch",
 "After every epoch the checkpoint file contains exactly the model of the first epoch with the best monitored (finite) value so far, in either direction of improvement, and is rewritten only on strict improvement; the first epoch always writes it. The monitored value is chosen as for early stopping, and the file is the one configured (any name, taken literally) or checkpoint.npz by default.",
 ["histories","configurations"],"all sequences of results and models, directions, monitored indices, file names incl. ones with percent signs, with and without validation",
 "No test runs the checkpoint callback.",
 ["src/modelcheckpoint.c","src/modelcheckpoint.h",N],[("save on improvement","modelcheckpoint_callback_run")],["checkpoint file contents after every epoch"],
 [("best value so far","history of the monitored value","src/modelcheckpoint.c")])

p("P19","The training log records every epoch and continues where it ended",
 "For each epoch the logger appends exactly one line to its file (and to standard output unless disabled) with time of day, epoch number, and every metric's name and value, training first, then validation values prefixed with val_, for any number of metrics. Earlier lines are never changed; numbering starts at the configured number, or, if that is zero and the log file already exists with epochs in it, at the number after the last one, whatever the previous file contains.",
 ["histories","inputs","configurations"],"all metric lists, result values, runs and restarts, pre-existing log files with any content (empty, one line, long lines, no final newline)",
 "No test runs the logger; resuming depends on the content of files from earlier runs.",
 ["src/logger.c","src/logger.h"],[("line writer","logger_callback_run"),("resume","find_last_epoch_from_logfile")],["log file, standard output"],
 [("epoch_count","number of the next epoch","src/logger.c")])

p("P20","The flat parameter vector is a faithful view of the network",
 "The parameter count is the sum over the layers of (inputs + 1) x outputs; reading the parameters yields, per layer from input to output, its biases followed by its weights row by row, in the same layout as gradients and updates. An update adds the given vector elementwise in float32 to exactly the corresponding parameters and nothing else, for any alignment of the vector.",
 ["inputs","histories"],"all network shapes, sequences of updates and reads, parameter values, alignments",
 "Tests use update and read-out only indirectly on a fixed shape, where transposed or shifted layouts can cancel out.",
 [N,"src/neuralnet.h",M],[("update","neuralnet_update"),("read-out","neuralnet_get_parameters"),("count","neuralnet_total_n_parameters")],["parameter vector before and after, layer matrices"])

p("P21","New networks are well-formed and initialised by the documented schemes",
 "Creating a network succeeds with exactly the requested layers, sizes and activations for every valid request and returns nothing for non-positive layer counts or sizes; unknown activation names fall back to linear with a warning. Initialisation sets all biases to zero and draws all weights independently: Xavier uniform within +-sqrt(6/(inputs+outputs)), Kaiming normal with standard deviation sqrt(2/inputs), chosen per layer by name or else by the activation (Xavier for sigmoid, tanh, softmax, hard_sigmoid, softsign; Kaiming for relu, softplus; otherwise standard normal), always finite.",
 ["inputs","configurations"],"all layer counts, sizes incl. invalid ones, names, initialiser lists, random number streams",
 "Tests create a few valid networks and never look at the distribution of initial weights.",
 [N,A],[("construction","neuralnet_create"),("initialisation","neuralnet_initialize")],["fields of the new network, distribution of its parameters"])

p("P22","Any valid use of the library is free of memory errors and leaks",
 "Every sequence of valid calls (create, load, initialise, predict singly or in batches, set loss, backpropagate, update, train, evaluate, run callbacks, save, free, in any order and for any sizes and buffer alignments) reads and writes only memory belonging to the objects involved and the caller's buffers, executes no undefined behaviour, and returns all memory and file handles when the objects are freed.",
 ["histories","inputs","configurations"],"all histories of API calls on any number of objects, all sizes",
 "Tests run without memory checkers on a few fixed sequences; overruns into padding and leaks do not change their results.",
 [N,O,M,"npy_array/npy_array.c","npy_array/npy_array_list.c","src/evaluate.c"],[("allocation and release","neuralnet_create / neuralnet_free / optimizer_free / callback_free")],["sanitizer reports, guard pages, allocator and descriptor counts"])

p("P23","User-supplied activation functions work like built-in ones",
 "An activation named symbol@library is loaded from that shared library, applied in predictions, batch predictions and training with the derivative that library provides, keeps its full name when the model is saved and is found again when the model is loaded, also when several libraries provide functions with the same symbol name. A missing library or function falls back to linear with a warning, a missing derivative only to the inability to train, and no name of any form or length does harm.",
 ["inputs","histories","configurations"],"all combinations of custom and built-in activations, libraries, missing files/symbols/derivatives, names of any length and form, save/load cycles",
 "Tests do not load any custom activation.",
 [A,N],[("dynamic lookup","get_activation_func_dynamic"),("registry of loaded functions","src/activation.c")],["predictions, gradients, reported names, saved files"],
 [("records","loaded functions with names and derivatives","src/activation.c")])

p("P24","The progress bar is a correct picture of the progress",
 "On a terminal, each progress report prints one line of exactly the terminal's width: the formatted label, a bar filled in proportion to the completed fraction, and the percentage, ending in carriage return, or in a newline exactly when everything is done. When standard output is not a terminal, or too narrow for the label, nothing is printed.",
 ["inputs","configurations"],"all counts 0..n, label texts, terminal widths, terminal or not",
 "Tests run without a terminal, where the code returns at once.",
 ["src/progress.c"],[("rendering","progress_ascii")],["bytes written to a pseudo-terminal"])

p("P25","Array lists behave as ordered sequences and keep their order on disk",
 "A list built by any sequence of appends and prepends holds exactly those arrays under their printf-formatted names (up to 80 characters) in the resulting order, and its length is their number. Saving writes one archive entry per array in list order under its name, naming unnamed ones by position, returns how many arrays were written, and loading gives the same list again; freeing a list frees all of it.",
 ["histories","inputs"],"all sequences of append and prepend, names of any content and length, list lengths, save/load cycles",
 "Tests only build the one list a model save needs.",
 ["npy_array/npy_array_list.c","npy_array/npy_array_list.h"],[("append / prepend","npy_array_list_append / npy_array_list_prepend"),("archive reader and writer","npy_array_list_load / npy_array_list_save")],["list contents, archive directory, return values"])

p("P26","Running out of memory is reported and does no harm",
 "When any allocation fails, once or from then on, while a network is created, loaded, saved or evaluated, a checkpoint or an archive is written, an array or archive is loaded or mapped, a list is extended, or a callback is created, the call does not crash: it either does all it should, or says so on standard error or output and gives nothing (a loaded archive may lack elements, a custom activation may fall back to linear, each with a warning). It leaks none of the library's own memory and no open file, leaves all other objects and lists as they were, and a file being replaced is then either still the old one or completely the new one. The same call works once memory is available again. (Creating the state of optimizers and running training epochs is outside this property: these assert.)",
 ["inputs","fault_sequences"],"all these calls, each of their allocations failing (once, or every one from there on), in the library itself or in libzip and the C library on its behalf",
 "Tests never let an allocation fail.",
 [N,A,"npy_array/npy_array.c","npy_array/npy_array_list.c","src/callback.h","src/evaluate.c"],[("all-or-nothing save","neuralnet_save / npy_array_list_save_compressed"),("release of partial results","neuralnet_load / _weights_memory_allocate"),("registry of loaded functions","get_activation_func_dynamic")],["return values, messages, allocator and descriptor counts, files"])

p("P27","User-written optimizers, callbacks, losses and metrics work like built-in ones",
 "An optimizer defined with the public macros holds the network and every setting it was created with, or the documented default (batches of 32, shuffling, progress bar, the metric of the network's loss); each epoch calls its function once with exactly the training data, the batch function gives it the consecutive batches and their mean gradients, the epoch's results are those of its metrics, and freeing it calls its own release function exactly once. One that implements a built-in rule trains like the built-in optimizer. A callback defined with the public macros is called exactly once per run with itself, the optimizer, the results and the validation flag as given, keeps its own data whatever other callbacks do, and is released exactly once by its own function or by default. A user's loss or metric is used wherever a built-in one is, with the same effect if it computes the same.",
 ["inputs","histories","configurations"],"all networks, data, settings given or left out, numbers of epochs, samples and threads, mixtures and lifetimes of user-written and built-in callbacks",
 "Tests use only the built-in optimizers and losses and no callbacks at all.",
 [O,"src/optimizer.h","src/callback.h","src/evaluate.c",N],[("definition macros","OPTIMIZER_DEFINE / CALLBACK_DEFINE"),("epoch and batch gradient","optimizer_run_epoch / optimizer_calc_batch_gradient"),("release","optimizer_free / callback_free")],["calls and arguments the user's functions receive, parameters, results"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
