#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

prop('P01', 'Sparse text (svm) files are read back exactly as written in the file',
 'For every well-formed svm-format text file, reading it yields one data point per line, in file order, with the line\'s label, and with exactly the line\'s index:value pairs, sorted by increasing index and each value still paired with its index; values equal the decimal number in the text to float precision (relative error below 1e-5). This holds for any line length, any blanks (spaces, tabs, CR) around tokens, signs, decimals and exponents, indices up to 2^32-1, labels over the 32-bit range, and with or without a final newline; a line of hundreds of thousands of features is read in seconds whatever the order of its indices. Rewinding the reader at any point and reading again gives the same sequence.',
 ['inputs', 'histories'], 'every well-formed svm text, every rewind point',
 'test_datareader reads one fixed small sample file and prints it; no generated numbers, long lines, unsorted lines or rewinds.',
 ['src/sol/pario/svm_reader.cc', 'include/sol/pario/numeric_parser.h', 'src/sol/pario/file_reader.cc', 'src/sol/pario/data_point.cc'],
 [('line reading with buffer growth', 'FileReader::ReadLine'), ('number parsing', 'NumericParser::ParseInt/ParseUint/ParseFloat'), ('index sort', 'DataPoint::Sort'), ('line grammar', 'SVMReader::Next')],
 ['DataReader::Create("svm"), Open, Next, Rewind, Close'])

prop('P02', 'CSV files are read column by column and rewind past the header',
 'For every well-formed csv file (one header line, then label,value,... lines) reading yields one data point per data line in order, whose label is the first column and whose features are exactly the non-zero value columns, the k-th value column having index k and the decimal value of its text to float precision. The header line is never delivered as data, neither on the first pass nor after any rewind.',
 ['inputs', 'histories'], 'every well-formed csv text of any width and length, every rewind point',
 'Only one fixed csv sample is read once by the existing tests.',
 ['src/sol/pario/csv_reader.cc', 'include/sol/pario/numeric_parser.h', 'src/sol/pario/file_reader.cc'],
 [('header skipping', 'CSVReader::Open/Rewind/LoadFeatDim'), ('column numbering and zero dropping', 'CSVReader::Next')],
 ['DataReader::Create("csv"), Open, Next, Rewind'])

prop('P03', 'Writing data and reading it back preserves every example in every format',
 'For any sequence of data points (any label, any increasing feature indices from 1 up to 2^32-1, any finite float values, any number of features including none) written with the bin writer, reading the file with the bin reader gives back the same sequence bit for bit, for any gaps between indices. Written with the svm or csv writer and read with the matching reader it gives back the same labels and indices (csv: the features with non-zero written value, inside the announced dimension) and the same values to the 6 significant digits the text formats carry. A csv file is a table: its header and every line have one column for the label and one for each index up to the announced dimension. Compressing any non-decreasing list of 16-, 32- or 64-bit indices and decompressing it returns the list.',
 ['inputs', 'histories'], 'every sequence of data points, every index list',
 'test_datawriter converts the one sample file and compares nothing beyond it; large index gaps, empty examples and extreme values are never written.',
 ['src/sol/pario/binary_writer.cc', 'src/sol/pario/binary_reader.cc', 'include/sol/pario/compress.h', 'src/sol/pario/svm_writer.cc', 'src/sol/pario/csv_writer.cc', 'src/sol/pario/file_writer.cc'],
 [('delta + variable length index code', 'comp_index/decomp_index, run_len_encode/run_len_decode'), ('record layout', 'BinaryWriter::Write, BinaryReader::Next'), ('text writers', 'SVMWriter::Write, CSVWriter::Write/SetExtraInfo')],
 ['DataWriter::Create/Open/Write/Close then DataReader'])

prop('P04', 'Malformed data files are rejected safely: no crash, hang, or invented data',
 'Whatever bytes a data file contains, reading it through the svm, csv or bin reader terminates without crashing, without undefined memory access or arithmetic and without exhausting memory, and the records before the first malformed one are delivered unchanged. A missing colon or separator, a missing or non-numeric label, index or value, or a label or index outside the range of its integer type is reported as an error status, not as a record. A binary file truncated at any byte yields exactly the complete records before the cut, and a cut inside a record is reported as an error and never as a successful record or a clean end of file.',
 ['inputs', 'fault_sequences'], 'every byte string as file content; every truncation point and mutation of every valid file',
 'No existing test reads a damaged file.',
 ['src/sol/pario/svm_reader.cc', 'src/sol/pario/csv_reader.cc', 'src/sol/pario/binary_reader.cc', 'include/sol/pario/compress.h', 'include/sol/pario/numeric_parser.h', 'src/sol/pario/file_reader.cc'],
 [('format checks', 'SVMReader::Next, CSVReader::Next, BinaryReader::Next'), ('short read detection', 'FileReader::Read')],
 ['DataReader::Next status codes, data delivered, sanitizers'])

prop('P05', 'A data iterator delivers every example exactly once per pass, in order',
 'For any batch size, buffer count, list of files (of any format, including none or empty ones) and pass counts, concatenating the mini-batches returned by the iterator gives exactly the examples of the first file repeated for its passes, then those of the second, and so on, with no example lost, duplicated, reordered or altered, and batches never larger than the batch size (sizes and counts below 1 count as 1). This holds whatever the relative speed of the reading threads and the consumer; after the last example the iterator reports the end however often it is asked, and a file added after that is delivered next.',
 ['schedules', 'inputs', 'histories', 'configurations'], 'every batch size, buffer size, file list, pass count, thread schedule and sequence of next/add calls',
 'test_dataiter runs one file with one configuration under whatever schedule the OS happens to give.',
 ['src/sol/pario/data_iter.cc', 'src/sol/pario/data_read_task.cc', 'include/sol/util/block_queue.h', 'include/sol/util/thread_task.h'],
 [('hand-over queues', 'DataIter::mini_batch_factory_/mini_batch_buf_'), ('reader sequencing', 'DataIter::Next'), ('pass loop', 'DataReadTask::run')],
 ['DataIter::AddReader, DataIter::Next'])

prop('P06', 'Loading threads never deadlock or leak, even when iteration is abandoned',
 'Whatever the thread schedule, and wherever the consumer stops (before the first batch, in the middle of any file, while a reader is blocked on a full or empty buffer, or after the end), destroying the data iterator terminates: every reader thread finishes and is joined and every mini-batch is released exactly once. No call to fetch the next batch blocks forever.',
 ['schedules', 'histories'], 'every thread interleaving at synchronisation points, every abandonment point',
 'The existing test always drains the iterator and sees a single OS schedule.',
 ['src/sol/pario/data_iter.cc', 'src/sol/pario/data_read_task.cc', 'include/sol/util/block_queue.h', 'include/sol/util/monitor.h'],
 [('shutdown protocol', 'DataIter::~DataIter, exit signal through the factory queue'), ('end-of-reader marker', 'DataReadTask::run')],
 ['DataIter destructor, thread and allocation accounting'])

prop('P07', 'The blocking queue is a bounded FIFO under every thread schedule',
 'For any number of producers and consumers using the blocking queue, every enqueued element is dequeued exactly once, elements of one producer come out in the order it put them in, the queue never holds more than its capacity or fewer than zero elements, and no thread stays blocked while it could proceed (a producer while there is room, a consumer while there are elements), for single and list operations alike. A forced list dequeue returns the requested number of elements unless an end marker (null element) comes first.',
 ['schedules', 'histories'], 'every interleaving (and spurious wake-up) of every small producer/consumer program over every capacity',
 'test_block_queue runs one producer/consumer program under the OS scheduler.',
 ['include/sol/util/block_queue.h', 'include/sol/util/monitor.h', 'include/sol/util/mutex.h'],
 [('guarded waits', 'BlockQueue::Enqueue/Dequeue'), ('wake-ups', 'Monitor::notify/notify_all')],
 ['BlockQueue<T>::Enqueue/Dequeue/size'])

prop('P08', 'Dataset tools neither lose, duplicate, alter nor reorder examples wrongly',
 'Converting a data set between the svm, bin and csv formats keeps every example, in order, with unchanged label and features to the target format\'s precision; with binarisation at a threshold, each stored feature value becomes 1 if above the threshold and -1 otherwise. Data without any feature cannot be converted to csv and is refused. Concatenating files gives the examples of the inputs in input order; splitting n examples into k parts gives consecutive, non-overlapping parts of ceil(n/k) examples (the last ones smaller or empty) whose concatenation is the input; shuffling gives a permutation of the input. A tool that cannot do all of this (a source that is missing, unreadable or damaged, an output that cannot be created or written completely, an unknown format, no parts to split into) reports a non-zero status through every interface.',
 ['inputs', 'configurations'], 'every data set, format pair, fold count and option combination',
 'No existing test runs the tools on generated data; convert is only exercised on the sample file.',
 ['tools/converter.cc', 'tools/concat.cc', 'tools/split.cc', 'tools/shuffle.cc', 'src/sol/tools.cc', 'src/sol/c_api.cc'],
 [('conversion', 'sol_convert_data / tools'), ('splitting', 'sol_split_data'), ('shuffling', 'sol_shuffle_data'), ('concatenation', 'tools/concat.cc')],
 ['the command line tools and the C API, output files'])

prop('P09', 'Dataset analysis reports the exact statistics of the data',
 'For every data set in any supported format the analysis reports the exact number of examples, of stored (non-zero) features in total, of distinct feature indices that occur, the dimension (largest index that occurs, 0 if none), the number of distinct labels, and the sparsity in percent, 100 - 100 * distinct indices / (dimension + 1). If the data is missing, unreadable or damaged, or the report cannot be written completely, the analysis reports a non-zero status instead.',
 ['inputs'], 'every data set',
 'Only the sample data is ever analysed by the existing tests.',
 ['src/sol/tools.cc', 'tools/analyze.cc', 'src/sol/c_api.cc'],
 [('counting', 'analyze')],
 ['tools/analyze output, sol_analyze_data'])

prop('P10', 'First-order learners perform exactly their published update on each example',
 'On every stream of examples and every valid setting, the weights and bias after each training example of perceptron, ogd, pa, pa1, pa2, alma2 and rda equal those of the algorithm\'s published update applied to the preceding weights (to float rounding): same decision to update, same step size (including its dependence on the iteration count and initial step t), same direction, with the bias updated at its own rate. Both binary and multi-class problems and every loss the learner accepts are covered; the update count reported is the number of examples on which an update was made.',
 ['inputs', 'histories', 'configurations'], 'every example stream, parameter setting, loss and class count',
 'test_model only checks that training on a sample file runs; weights are never compared with a reference.',
 ['src/sol/model/olm/perceptron.cc', 'src/sol/model/olm/ogd.cc', 'src/sol/model/olm/pa.cc', 'src/sol/model/olm/alma2.cc', 'src/sol/model/olm/rda.cc', 'src/sol/model/online_linear_model.cc', 'src/sol/model/online_model.cc'],
 [('per-example iteration', 'OnlineLinearModel::Iterate'), ('updates', 'the learners\' Update/TrainPredict/EndTrain')],
 ['model weights after each example, scores, update_num'])

prop('P11', 'Second-order learners perform exactly their published update',
 'On every stream of examples and every valid setting, the weights, bias and scores after each training example of sop, cw, eccw, arow, ada-fobos and ada-rda equal those of the published diagonal second-order update (eccw: margin phi times the standard deviation) replayed in double precision (to float rounding), for binary and multi-class problems: same update decision, same confidence (variance) or accumulated-gradient update on every feature and the bias, features never seen keeping their initial confidence.',
 ['inputs', 'histories', 'configurations'], 'every example stream, parameter setting, loss and class count',
 'test_model only checks that training on a sample file runs; weights are never compared with a reference.',
 ['src/sol/model/olm/sop.cc', 'src/sol/model/olm/cw.cc', 'src/sol/model/olm/eccw.cc', 'src/sol/model/olm/arow.cc', 'src/sol/model/olm/ada_fobos.cc', 'src/sol/model/olm/ada_rda.cc'],
 [('per-feature confidence state', 'Sigmas_/H_/X_'), ('updates', 'the learners\' Update/TrainPredict/EndTrain')],
 ['model weights after each example, scores, saved parameters'])

prop('P12', 'L1-regularised learners apply their shrinkage exactly once per example',
 'On every stream of examples the sparse learners stg, fobos-l1, rda-l1, erda-l1, ada-fobos-l1 and ada-rda-l1 end training with the weights of their published algorithm: every weight, of every class and whether or not its feature occurred recently, has been shrunk towards zero for every example seen (stg: every k examples), never past zero and never more than once for the same example; shrinkage deferred for a feature that does not occur is made up for, at the latest step size, when the feature occurs next or training ends, and the bias is shrunk with its own step size. With a zero penalty they give the weights of the unregularised learner, and the reported sparsity is the fraction of exactly zero weights.',
 ['inputs', 'histories', 'configurations'], 'every example stream, penalty, period k, loss and class count',
 'The existing tests train on a sample and never compare weights of lazily regularised features.',
 ['src/sol/model/olm/ogd.cc', 'src/sol/model/olm/rda.cc', 'src/sol/model/olm/ada_fobos.cc', 'src/sol/model/olm/ada_rda.cc', 'src/sol/model/regularizer.cc'],
 [('lazy shrinkage bookkeeping', 'LazyOnlineL1Regularizer, STG::last_trunc_time_'), ('final shrinkage', 'EndTrain')],
 ['model weights after training, model_sparsity'])

prop('P13', 'Feature-selecting learners never keep more than B features, and keep the best',
 'For pet, fofs, sofs, adafobos-ofs and adarda-ofs with budget B, at every point of every training history (including after loading a saved model and training on, and after the dimension grows) at most B features have non-zero weight in the trained model, in each class all non-zero weights being on the same at most B features; a budget changed between trainings takes hold with the next selection. The features kept are the B best by the learner\'s criterion at the last selection (largest total weight magnitude, smallest variance, largest accumulated gradient), and the kept weights are those of the underlying learner\'s update.',
 ['inputs', 'histories', 'configurations'], 'every example stream, budget, class count and save/load point',
 'The existing tests never look at the number of selected features.',
 ['src/sol/model/olm/ogd.cc', 'src/sol/model/olm/fofs.cc', 'src/sol/model/olm/arow.cc', 'src/sol/model/olm/ada_fobos.cc', 'src/sol/model/olm/ada_rda.cc', 'include/sol/util/heap.h'],
 [('top-B heap', 'Heap::UpdateHeap'), ('weight clearing', 'Update of the feature-selecting learners')],
 ['model weights after each example, model_sparsity'])

prop('P14', 'Loss functions return the defined loss and its exact gradient',
 'For every registered loss, every label, score vector and class count, the loss value equals its mathematical definition (zero exactly when no update is due), the gradient call returns that same loss value and (whenever the loss is positive) fills one gradient per class that is the (sub)gradient of the loss with respect to the class scores, gradients over all classes sum to zero for multi-class losses, and all results stay finite for scores up to 1e14 in magnitude. The uniform losses average over the classes scoring at least the label\'s score (less the margin for hinge) and are zero when there is none. Changing the hinge margin changes loss and gradient consistently.',
 ['inputs', 'configurations'], 'every loss, label, finite score vector, class count and margin',
 'test_loss evaluates a handful of fixed scores for some of the losses.',
 ['src/sol/loss/hinge_loss.cc', 'src/sol/loss/logistic_loss.cc', 'src/sol/loss/square_loss.cc', 'src/sol/loss/bool_loss.cc', 'src/sol/loss/loss.cc'],
 [('loss and gradient', 'Loss::loss / Loss::gradient of each class')],
 ['Loss::Create, loss, gradient'])

prop('P15', 'A saved model loads to an equivalent model',
 'For every learner, configuration and training history that leaves finite weights, saving the model and loading it back succeeds and gives a model with the same description (learner, classes, loss, normalisation and all learner parameters, to the 6 significant digits in which they are reported), bit for bit the same weights, hence the same labels and scores on every example, the same sparsity, and saves to an equivalent file again. A feature filter is not part of a saved model. Training the loaded model on further examples gives the model that uninterrupted training would give, provided its settings fit into 6 digits, except for feature-selecting learners (ties) and, under a decaying step size or a period k above 1, stg and fobos-l1.',
 ['inputs', 'histories', 'configurations'], 'every learner, parameter setting, class count, training history and save point',
 'test_model saves a model but never compares predictions or continued training of the reloaded model.',
 ['src/sol/model/model.cc', 'src/sol/model/online_model.cc', 'src/sol/model/online_linear_model.cc', 'src/sol/model/olm/*.cc', 'include/sol/math/vector.h', 'include/sol/math/matrix.h'],
 [('model text format', 'Model::Save/Load, GetModelInfo/SetModelInfo, GetModelParam/SetModelParam')],
 ['Model::Save, Model::Load, Predict, model_info'])

prop('P16', 'A damaged model file is refused cleanly, never crashes or hangs the loader',
 'Whatever bytes a model file contains (missing, empty, truncated at any point, with lines removed, values replaced or fields of the wrong type), loading it terminates in bounded time and memory without crash or escaping exception, and either returns no model or returns a usable model that can predict; memory used stays proportional to the file size. A file cut before the end of its parameters is never accepted.',
 ['inputs', 'fault_sequences'], 'every mutation and truncation of every saved model file',
 'No existing test loads a damaged model.',
 ['src/sol/model/model.cc', 'src/sol/model/online_model.cc', 'src/sol/model/online_linear_model.cc', 'src/sol/c_api.cc', 'include/sol/math/matrix.h'],
 [('format checks', 'Model::Load, SetModelInfo, SetModelParam')],
 ['Model::Load / sol_RestoreModel result'])

prop('P17', 'Prediction is the linear decision rule and testing never changes the model',
 'For every trained model and example, the predicted label is the sign of the score (non-negative counts as +1) for binary problems and the first class of maximal score for multi-class problems, where each score is the dot product of the class weights with the preprocessed example plus the bias; features beyond the model\'s dimension contribute nothing. Testing reports exactly the fraction of examples whose predicted label differs from the (calibrated) true label and writes one line per example, in order, with its label, prediction and scores; testing and predicting any number of times leaves the weights, and any later test result, unchanged, and testing in the middle of training does not alter the further training (for learners whose L1 regularisation is applied lazily: beyond applying it). Weights stay finite for finite data unless the chosen step sizes make the algorithm itself diverge.',
 ['inputs', 'histories', 'configurations'], 'every model, every example, every interleaving of train/test/predict calls',
 'Existing tests print an accuracy on one sample and compare it with nothing.',
 ['src/sol/model/online_linear_model.cc', 'src/sol/model/model.cc', 'src/sol/c_api.cc', 'include/sol/math/sparse_vector.h'],
 [('decision rule', 'OnlineLinearModel::Predict'), ('test loop', 'Model::Test')],
 ['Predict, Test, test output file'])

prop('P18', 'Training depends only on the sequence of examples, not on how it is delivered',
 'For every learner and setting, the trained model is bit-identical whether the same examples arrive from svm, csv or binary files or in-memory dense (rows at any distance, also beyond 2 GB) or CSR arrays, one file or several, with any mini-batch size and buffer count, in one training call or several consecutive ones, and k passes over a data set equal one pass over the data set repeated k times. The training error rate, iteration and update counts reported (also through the progress callback, which fires at exactly the configured example counts) are the ones of that sequence.',
 ['inputs', 'histories', 'configurations', 'schedules'], 'every learner, data set, delivery format, batching, split into calls and pass count',
 'The existing tests train from one file with one batch size.',
 ['src/sol/model/online_model.cc', 'src/sol/pario/data_iter.cc', 'src/sol/pario/numpy_reader.cc', 'src/sol/pario/csr_matrix_reader.cc', 'src/sol/c_api.cc'],
 [('training loop', 'OnlineModel::Train'), ('readers', 'DataReader implementations')],
 ['weights, Train return value, callback, update_num'])

prop('P19', 'Settings are validated, stored and reported faithfully',
 'For every learner, setting a parameter to a valid value makes the model description report that value and training use it; an unknown parameter name, an unparsable value, one outside the documented range, or one that cannot go with the current settings (a loss the learner cannot use, a cost margin with a loss that has no margin) is refused with an error, and a refused setting leaves the model as it was: same description, same behaviour, still usable. Exactly the registered learners, losses, readers and writers can be created by name, an unknown name or an impossible class count gives no object, and creating one object does not affect another.',
 ['inputs', 'histories', 'configurations'], 'every learner, every sequence of valid and invalid settings',
 'The existing tests set a few valid parameters.',
 ['src/sol/model/model.cc', 'src/sol/model/online_model.cc', 'src/sol/model/olm/*.cc', 'src/sol/util/reflector.cc', 'src/sol/c_api.cc'],
 [('parameter dispatch', 'SetParameter chain'), ('registry', 'ClassFactory / CreateObject')],
 ['SetParameter, model_info, sol_SetModelParameter'])

prop('P20', 'Examples are preprocessed as configured: label, feature filter, normalisation',
 'Before training or testing, every example of a binary problem has its label mapped to +1 if it is 1 and to -1 otherwise (multi-class labels unchanged); with a pre-selected feature list every feature not on the list counts as zero and every listed one is unchanged; with L1 or L2 normalisation the values are then divided by that norm, so the result has norm 1 and the same direction. Without these options the example is unchanged, and no example, even an empty or all-zero one, ever turns into non-finite values. An example whose label is none of the classes of a multi-class model is counted as a training mistake, teaches the model nothing and corrupts no memory.',
 ['inputs', 'configurations'], 'every example, feature list and norm setting',
 'No existing test examines preprocessed examples.',
 ['src/sol/model/model.cc', 'src/sol/model/online_linear_model.cc'],
 [('preprocessing', 'Model::PreProcess, FilterFeatures, LoadPreSelFeatures, CalibrateLabel')],
 ['Model::PreProcess, training result'])

prop('P21', 'The top-K heap always holds exactly the K best elements',
 'For every value array, K, and sequence of value changes, index updates and enlargements used as documented (member values that improve are re-sifted, any other change of members is followed by a rebuild, and changed or new outside elements are then offered), the heap holds K distinct elements and no element outside is strictly better than one inside; offering an element returns the element left outside, or nothing if it was inside already; its position maps stay inverse to each other.',
 ['inputs', 'histories'], 'every array, K and operation sequence',
 'There is no heap test over generated sequences.',
 ['include/sol/util/heap.h'],
 [('sift down', 'Heap::AdjustHeap'), ('exchange with the root', 'Heap::UpdateHeap')],
 ['Heap::Init/BuildHeap/UpdateHeap/set_N, isTopK, value_by_pos'])

prop('P22', 'Vector, matrix and sparse expressions compute the element-wise definition',
 'For every combination of dense vectors, matrices, sparse vectors and scalars with the library\'s operators (+ - * /, compound assignment, dot products, norms, sqrt, abs, truncation, top selection by slice, reductions) the result of an expression equals evaluating its definition element by element; a sparse operand touches only the elements at its indices, and operands that are not assigned to are unchanged. Resizing keeps the old elements, a copy made by construction or assignment shares the content of the original, which lives as long as any of them, and writing a vector or matrix to text and reading it back returns it.',
 ['inputs', 'programs'], 'every operand shape, index set and expression from the supported grammar',
 'test_vector/test_matrix/test_sparse_vector check one fixed example per operator.',
 ['include/sol/math/expression.h', 'include/sol/math/matrix_expression.h', 'include/sol/math/operator.h', 'include/sol/math/sparse_vector.h', 'include/sol/math/vector.h', 'include/sol/math/matrix.h'],
 [('expression templates', 'matrix_expression.h'), ('operators', 'operator.h')],
 ['sol::math public types'])

prop('P23', 'The command line programs do what the library does on the same data',
 'For every data set and options, the training program writes a model equal to the one library training with those options gives, and prints its accuracy (1 minus the error rate) and sparsity; the test program, given a model and a data set, reports the accuracy and writes the predictions the library gives. An unknown learner, an impossible class number, a malformed or refused parameter, a missing data or feature file, training data that are damaged (for the training program), a missing or broken model, or an output that cannot be written makes the programs stop with a non-zero exit status rather than crash, and write no model.',
 ['inputs', 'configurations'], 'every data set and option combination accepted by the programs',
 'The existing tests do not run the programs.',
 ['tools/sol_train.cc', 'tools/sol_test.cc', 'tools/lsol_c.cc', 'src/sol/c_api.cc'],
 [('option handling', 'tools/sol_train.cc, tools/sol_test.cc'), ('C API', 'src/sol/c_api.cc')],
 ['model file, standard output, prediction file, exit status'])

prop('P24', 'Lazy updates, active querying and cost margins alter training only as defined',
 'With lazy update on, a learner changes its weights only on examples it misclassified, and then as without the option; with cost-sensitive learning, for learners using the unit hinge margin, the loss margin is the configured one for positive examples and 1 for negative ones, so a cost margin of 1 changes nothing; with active learning of smoothness s an example with score margin m is queried with probability s/(s+m), an example whose label is not queried changes neither the weights nor any counter, so that the final model is the one passive training on only the queried examples gives; an example with zero margin is always queried.',
 ['inputs', 'histories', 'configurations'], 'every learner, example stream and option value',
 'None of these options is used by the existing tests.',
 ['src/sol/model/online_linear_model.cc', 'src/sol/model/online_model.cc', 'src/sol/loss/hinge_loss.cc'],
 [('query and update decision', 'OnlineLinearModel::Iterate')],
 ['weights after each example, cur_iter_num, update_num'])

prop('P25', 'The Python module gives the results of the C interface and keeps memory intact',
 'For every learner, setting and history of calls on the Python SOL object (fit, score, decision_function, predict, set/get parameters, progress handler, save, load), the accuracies, scores, predicted and true labels, parameters, sparsity, saved model text and progress reports (printed if the object is verbose and has no handler) are those the C interface gives on the same examples from files, whether the data are given as file paths, float64 arrays of any memory layout (C, Fortran, strided, reversed or sliced views) or CSR matrices with 32- or 64-bit indices, sorted or not. Wrong types, shapes, files or settings raise an exception and leave the object as it was; an object without a model raises an exception when used; no history touches freed memory or leaves a model or iterator behind. The module functions analyse, convert, shuffle and split as the data tools do.',
 ['inputs', 'histories'], 'every learner, array layout, CSR matrix, data file and sequence of calls on the Python objects',
 'No existing test builds or imports the Python module.',
 ['python/pysol.pyx', 'python/pysol.pxd', 'src/sol/c_api.cc', 'src/sol/pario/numpy_reader.cc', 'src/sol/pario/csr_matrix_reader.cc'],
 [('array hand-over', 'SOL.__load_data, sol_loadArray, sol_loadCsrMatrix'), ('ownership of model, data and handler', 'SOL.load, SOL.inspect_learning, SOL.__dealloc__'), ('call-backs', 'get_parameter, desicion_function_callback, predict_callback, inspect_iteration')],
 ['pysol.SOL methods and properties, pysol.analyze_data/convert_data/shuffle_data/split_data'])

prop('P26', 'Cross validation and the Python scripts evaluate and pick parameters correctly',
 'For every parameter grid, fold count, pass count, number of worker processes and data set: the grid enumerates every combination exactly once; the folds partition the data; the table of a cross validation holds, for every combination and fold, the training and validation accuracy of a fresh model trained for all passes on the other folds only (the training script sets B and lambda aside meanwhile), and their mean; the chosen combination is one with the highest mean validation accuracy and is what the result file says when loaded again; a refused parameter value is reported instead of waiting forever. Data sets report the right size, dimension and class count, and their converted, shuffled, binarised and split files hold the data of the file as asked for. The training script trains with the given and the chosen parameters, passes and data, saves where told, fine-tunes the given model with the given parameters, and the testing script writes the labels, predictions and scores of the model.',
 ['inputs', 'histories', 'configurations'], 'every grid, fold, pass and process count, data set, history of preparations and command line',
 'No existing test runs the Python code.',
 ['python/cv.py', 'python/dataset.py', 'python/sol_train.py', 'python/sol_test.py'],
 [('grid', 'SearchSpace'), ('fold loop and worker processes', 'CV.train_val, train_val_executor'), ('choice and result file', 'CV.get_best_param/save_results/load_results'), ('prepared files', 'DataSet'), ('scripts', 'train, train_test, finetune, main')],
 ['CV.train_scores/val_scores, result file, prepared files, calls made on the model'])

prop('P27', 'Every object and operation gives back all memory, files and threads it took',
 'However a reader, writer, iterator, learner, loss, vector, matrix, sparse vector or example is used before it goes away (opened again without closing, read partly, on missing or damaged sources, with outputs that cannot be created or written, released with data pending, with refused parameters, after failed saving, loading or testing), once it is gone the memory, open files and threads it took are given back; the same holds for each run of a data tool, successful or not, and for each failed creation or loading of a learner. Repeating any such history any number of times therefore does not grow the process. Mini-batches still in the hands of the caller are the caller\'s.',
 ['inputs', 'histories', 'fault_sequences'], 'every history of one object or operation, with failures at any step',
 'The existing tests look at results only; a leak changes none of them.',
 ['src/sol/pario/data_reader.cc', 'src/sol/pario/data_writer.cc', 'src/sol/pario/file_reader.cc', 'src/sol/pario/file_writer.cc', 'src/sol/pario/data_iter.cc', 'src/sol/model/model.cc', 'src/sol/model/online_model.cc', 'src/sol/model/online_linear_model.cc', 'src/sol/tools.cc', 'src/sol/c_api.cc', 'include/sol/math/matrix.h', 'include/sol/math/sparse_vector.h'],
 [('readers and writers', 'DataReader/DataWriter/FileReader/FileWriter Open/Close and destructors'), ('iterator', 'DataIter::~DataIter'), ('learners', 'Model::Create/Load, learner destructors, OnlineModel::SetParameter'), ('shared storage', 'Matrix::release, SVector::release'), ('tools', 'convert, shuffle, split, analyze')],
 ['bytes allocated, open file descriptors and threads of the process before and after a repeated history'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
