"""the properties"""
U, T = 'hyperion/utils/', 'hyperion/utils/'
NA = {}
PROPS = [
dict(id='P01', title='Splitting a list partitions it',
     statement='Splitting any list into parts, with or without grouping keys, puts every element in exactly one part, keeps the original order within parts, and never separates elements that share a group key. Grouping by a key returns every element exactly once, under its own key.',
     quant='every list length, number of parts and equality pattern of the keys',
     why='tests use one list of fixed length and one or two numbers of parts; off-by-one boundaries depend on the length/parts ratio',
     files=[U + 'list_utils.py'], mech=[('split_list, split_list_group_by_key, list2ndarray', U + 'list_utils.py')]),
dict(id='P02', title='Membership, intersection and sorting of key lists',
     statement='Membership reports exactly the elements present in the reference list and the position of an equal element; intersection returns each common element with positions that hold it in both lists; sorting returns the elements in order together with the permutation that produces it. This holds with duplicates and empty lists.',
     quant='every pair of lists with any duplicates and order',
     why='tests use a few literal lists without duplicates on both sides',
     files=[U + 'list_utils.py'], mech=[('ismember, intersect, sort', U + 'list_utils.py')]),
dict(id='P03', title='Script lists keep each key tied to its file, offset and range',
     statement='Sorting, shuffling, filtering, splitting, merging and looking up a script list never pair a key with the file, byte offset or row range of another key, and lose or invent no entries, offsets or ranges. Writing a script list to text and reading it back gives an equal list in every supported form, with and without a path prefix.',
     quant='every list content and order, every selection and split, and every offset and range value', over=['inputs', 'histories'],
     why='tests use one fixed list of files; alignment of four parallel arrays must survive any permutation',
     files=[U + 'scp_list.py'], mech=[('SCPList', U + 'scp_list.py')]),
dict(id='P04', title='Utterance tables keep each utterance tied to its information',
     statement='Sorting, shuffling, filtering by key, information or position, splitting, merging and looking up an utterance table preserve the association between every utterance and all its fields, and select exactly the requested rows. Writing the table as text and reading it back gives the same table, whatever its words look like (numbers, NA, nan).',
     quant='every table content and order, every selection and split', over=['inputs', 'histories'],
     why='tests use one fixed table with one field',
     files=[U + 'utt2info.py'], mech=[('Utt2Info', U + 'utt2info.py')]),
dict(id='P05', title='Trial index operations preserve the set of trials',
     statement='Sorting, splitting, merging and filtering trial lists preserve exactly the selected (model, segment) trials: no trial is lost, invented or moved to another model or segment, and inputs are not modified. Applying a segmentation gives each derived segment the trials of its file, and evaluation subsets choose exactly the trials among the requested enrolment, test and cohort parts.',
     quant='every trial mask, name order, overlap between lists, selection and number of parts', over=['inputs', 'histories'],
     why='no test of the trial index covers arbitrary masks, orders and overlaps; existing ones check two fixed lists',
     files=[U + 'trial_ndx.py'], mech=[('TrialNdx', U + 'trial_ndx.py')]),
dict(id='P06', title='Trial keys keep labels and conditions attached to trials',
     statement='Sorting, filtering, splitting and merging trial keys keep the target/non-target label and all segment, model and trial conditions of every (model, segment) pair. Keys convert to an index that lists exactly the target and non-target trials, and two keys are equal exactly when all their contents are.',
     quant='every labelling, condition assignment, name order, overlap and selection', over=['inputs', 'histories'],
     why='a permuted axis shows only when names are not already sorted and conditions differ',
     files=[U + 'trial_key.py'], mech=[('TrialKey', U + 'trial_key.py')]),
dict(id='P07', title='Scores stay attached to their trials',
     statement='Sorting, filtering, splitting, merging and aligning score matrices to an index or key leave each available score at the trial it belongs to, mark exactly the missing ones as missing, and never modify their inputs. Target and non-target scores extracted with a key are exactly the scores of the trials the key labels, in any storage order.',
     quant='every score value, mask, name order, overlap, requested list and key labelling', over=['inputs', 'histories'],
     why='tests use fixed lists with a few scores; misaligned scores do not crash',
     files=[U + 'trial_scores.py'], mech=[('TrialScores', U + 'trial_scores.py')]),
dict(id='P08', title='Trial lists, keys and scores survive saving and loading',
     statement='Writing a trial index, key or score list and reading it back gives an equal object, in binary form including masks, conditions and all the digits of scores, and in text form (scores to 6 decimals) for every trial that the text lists.',
     quant='every mask, labelling, condition assignment and score value',
     why='tests write one fixed object',
     files=[U + 'trial_ndx.py', U + 'trial_key.py', U + 'trial_scores.py'],
     mech=[('save, load, save_h5, load_h5, save_txt, load_txt', U + 'trial_ndx.py, trial_key.py, trial_scores.py')]),
dict(id='P09', title='Segments and diarisation turns keep their file, times and speaker',
     statement='Looking up, filtering, splitting and merging segment lists and diarisation files keep every segment with its file, start, end, name and speaker, and select exactly the requested segments. The binary speech mask marks exactly the frames whose time lies inside a segment; converting a diarisation file to segments, naming its segments and merging adjacent turns (consecutive turns of a speaker that overlap or are closer than the margin become one) keep the speech time of each speaker, eliminating overlaps cuts both turns at the middle of the overlap, and a speaker matrix marks exactly the frames of the turns of each speaker; a diarisation file made from segments has their times; writing and reading as text gives the same table (times to the millisecond), whatever its names look like (numbers, NA, nan).',
     quant='every assignment of segments to files and speakers, every start and duration, every selection and split', over=['inputs', 'histories'],
     why='the segment list and diarisation file classes have no tests; the binary mask and the merge depend on arbitrary real boundaries',
     files=[U + 'segment_list.py', U + 'rttm.py'],
     mech=[('SegmentList', U + 'segment_list.py'), ('RTTM', U + 'rttm.py')]),
dict(id='P10', title='Cross-validation folds and train/val/eval parts are partitions',
     statement='Creating folds or parts assigns every unmasked segment to exactly one fold or part, keeps segments of a group together, and balances each class within one group of the requested share; the training side of a fold is exactly the rest of the unmasked segments. Aligning to a key list, saving and loading keep every segment in its fold or part.',
     quant='every grouping, class and mask pattern, shuffle, number of folds and proportions',
     why='the partition code has no test; balance and grouping depend on combinations of equality patterns and rounding',
     files=[U + 'fold_list.py', U + 'train_val_eval_list.py'],
     mech=[('FoldList.create, get_fold', U + 'fold_list.py'), ('TrainValEvalList.create, get_part', U + 'train_val_eval_list.py')]),
dict(id='P11', title='Kaldi matrices and vectors are read back as they were written',
  statement='Matrices and vectors written in binary come back bit for bit in order, whatever their memory layout, the buffering of the file and the reading mode; reading a range of rows, or only the shape, gives those rows or that shape of any declared size and leaves the stream at the next record when reading in sequence; rows that are not there are refused; text records, also those that Kaldi writes, are read back with their values.',
  quant='every value, every size in the header up to the bound, every row range and every number of bytes a peek of the stream may return', over=['inputs','histories'],
  why='the tests read one matrix of each kind with the peek of an in-memory file', files=['hyperion/utils/kaldi_matrix.py','hyperion/utils/kaldi_io_funcs.py'],
  mech=[('KaldiMatrix.read','hyperion/utils/kaldi_matrix.py'),('init_kaldi_input_stream','hyperion/utils/kaldi_io_funcs.py')]),
dict(id='P12', title='Compressed matrices stay within half a step of the original',
  statement='Every compression method keeps each value of a matrix to half of its quantization step (between the quartiles of the column for the speech method) and clips values outside of a fixed range to its ends; the codes mean what Kaldi defines for the three formats; compressed matrices are written and read back exactly; reading some of the rows, or the shape, agrees with reading all of them and leaves a stream read in sequence at the next record; the attributes rebuild the matrix.',
  quant='every value, code, quartile, minimum and range and every row range within the bound', over=['inputs'],
  why='the tests compress one matrix from a file', files=['hyperion/utils/kaldi_matrix.py'],
  mech=[('KaldiCompressedMatrix.compress','hyperion/utils/kaldi_matrix.py'),('KaldiCompressedMatrix.read','hyperion/utils/kaldi_matrix.py')]),
dict(id='P13', title='Feature archives return what was written, in any order and piece',
  statement='Readers of Ark and h5 archives and of their scripts return every record once, in order, in reads of any size and again after a reset, or the records asked for, any number of times and from any of the archives; ranges of rows given by the script and by the caller combine to rows inside of the range, or are refused; shapes, numbers of rows and dimensions agree with the data; missing keys are errors or, if permissive, empty or zeros; parts of a list make up the list; compressed archives hold the compressed matrices; transformations, prefixes, separators, specifiers and command line options do what they say.',
  quant='every value, number of records per read, key, row range and option within the bound', over=['inputs','histories'],
  why='the tests read and write one set of files with one row range per key and always start at the first missing-free key', files=['hyperion/io/ark_data_reader.py','hyperion/io/ark_data_writer.py','hyperion/io/h5_data_reader.py','hyperion/io/h5_data_writer.py','hyperion/io/data_reader.py','hyperion/io/rw_specifiers.py','hyperion/io/data_rw_factory.py'],
  mech=[('DataReader._combine_ranges','hyperion/io/data_reader.py'),('SequentialArkScriptDataReader.read','hyperion/io/ark_data_reader.py'),('RSpecifier.create','hyperion/io/rw_specifiers.py')]),
dict(id='P14', title='Copying and merging archives keeps every record',
     statement='Copying feature archives between formats, from archives or scripts, in chunks of any size, writes every record of the input once, in order and with its values, and the rows and paths that scripts, prefixes and separators tell. Merging several inputs writes the records of all of them; the copies of the parts of a list are together the copy of the list. Merging HDF5 files keeps every array. The legacy Kaldi and HDF5 readers return the requested records, pieces, slices and random rows, and know when they are at the end.',
     quant='every matrix value, list of inputs, chunk size, number of parts and sequence of reads within the bounds', over=['inputs', 'histories'],
     why='tests only run the copies without looking at what they write, and do not touch the merger and the legacy readers',
     files=['hyperion/io/copy_feats.py', 'hyperion/io/h5_merger.py', 'hyperion/io/kaldi_data_reader.py', 'hyperion/io/hyp_data_reader.py', 'hyperion/io/hyp_data_writer.py', 'hyperion/io/data_rw_factory.py'],
     mech=[('CopyFeats', 'hyperion/io/copy_feats.py'), ('H5Merger', 'hyperion/io/h5_merger.py'), ('KaldiDataReader', 'hyperion/io/kaldi_data_reader.py'), ('HypDataReader', 'hyperion/io/hyp_data_reader.py'), ('HypDataWriter', 'hyperion/io/hyp_data_writer.py')]),
dict(id='P15', title='Audio files are read back whole, in segments, in pieces and in parts',
     statement='A waveform written to an audio file in any supported integer or floating point format is read back with its name, sampling frequency and samples, times the scale of the reader, from files and pipes. Sequential readers return every recording, or every segment, once and in order, in reads of any size, and know when they are at the end; the parts of a list are together the list. A segment is the samples between its times, cut at the end of its own recording; segments that start after the end and unknown names are errors.',
     quant='every sample value, segment time, number of recordings and segments, and sequence of reads within the bounds', over=['inputs', 'histories'],
     why='tests read three fixed signals with segments of fixed length, in one order',
     files=['hyperion/io/audio_reader.py', 'hyperion/io/audio_writer.py'],
     mech=[('AudioReader, SequentialAudioReader, RandomAccessAudioReader', 'hyperion/io/audio_reader.py'), ('AudioWriter', 'hyperion/io/audio_writer.py')]),
dict(id='P16', title='ROC curves, their hull and equal error rates are exact',
     statement='The ROC contains the miss and false alarm rates of every threshold, is monotone and never better than a real threshold allows; the convex hull has only achievable operating points and is the lower-left hull of them; the equal error rate and the precision-recall break-even point are where the hull meets the diagonal, whatever the order and ties of the scores. Filtering a curve keeps its shape and its end points, and the area under a curve is its exact integral. Inputs are not modified.',
     quant='every set of target and non-target scores with any order and ties; every monotone curve',
     why='tests look at a few random score sets; ties and orders of the two classes decide the corner cases',
     files=['hyperion/metrics/roc.py', 'hyperion/metrics/eer.py', 'hyperion/metrics/utils.py'],
     mech=[('compute_roc, compute_rocch, rocch2eer, filter_roc, compute_area_under_rocch', 'hyperion/metrics/roc.py'), ('compute_eer, compute_prbep', 'hyperion/metrics/eer.py')]),
dict(id='P17', title='Detection costs are those of the best and of the Bayes threshold',
     statement='The detection cost of each operating point is prior weighted (and normalised by the best blind decision); the minimum cost is attained by a reported threshold and no threshold is cheaper; the actual cost counts exactly the errors at the Bayes threshold of each prior; the joint evaluation agrees with the separate ones and the minimum never exceeds the actual cost. The effective prior preserves relative costs.',
     quant='every set of scores, ties included, every prior or pair of priors and every cost',
     why='tests use dense grids of scores and three priors; a wrong rank or a tie at the threshold goes unnoticed',
     files=['hyperion/metrics/dcf.py', 'hyperion/metrics/utils.py'],
     mech=[('compute_dcf, compute_min_dcf, compute_act_dcf, fast_eval_dcf_eer', 'hyperion/metrics/dcf.py'), ('effective_prior', 'hyperion/metrics/utils.py')]),
dict(id='P18', title='Optimal calibration and Cllr are exact',
     statement='Pool-adjacent-violators returns the least squares non-decreasing fit with its bins; the optimal log-likelihood ratios are monotone in the score, equal for equal scores, returned in the order of the input, and equal to posterior minus prior log odds; Cllr penalises targets with low and non-targets with high scores by its defining formula without overflow, and minimum Cllr is the Cllr of the optimally calibrated scores and never above one.',
     quant='every sequence of values and every set of scores with any order and ties',
     why='tests only use all-zero or constant scores, for which a wrong sign or order is invisible',
     files=['hyperion/metrics/cllr.py', 'hyperion/metrics/utils.py', 'hyperion/utils/math.py'],
     mech=[('pavx, opt_loglr', 'hyperion/metrics/utils.py'), ('compute_cllr, compute_min_cllr', 'hyperion/metrics/cllr.py')]),
dict(id='P19', title='Confusion matrices and accuracy count the right pairs',
     statement='Each cell of a confusion matrix is the weight of the samples with that true and that predicted label, in the given or sorted label order, normalised by the true class when asked; with different train and test label sets no test class is confused with a train class; accuracy is the weight of the correct samples; written tables show every cell under its labels; inputs are not modified.',
     quant='every integer labelling and every equality pattern of string labels, every weight, any label order',
     why='tests use one small labelling; shifted labels collide only for particular label values',
     files=['hyperion/metrics/confusion_matrix.py', 'hyperion/metrics/acc.py'],
     mech=[('compute_confusion_matrix, compute_xlabel_confusion_matrix, write_confusion_matrix', 'hyperion/metrics/confusion_matrix.py'), ('compute_accuracy', 'hyperion/metrics/acc.py')]),
dict(id='P20', title='Mean and variance normalisation uses exactly the requested window',
     statement='Each normalised frame is the frame minus the mean of the frames in its window, divided by their standard deviation when asked, with the window clipped to the file and either side possibly unbounded; the three implementations agree; degenerate variances stay finite and the input is not modified.',
     quant='every feature value and every combination of context sizes relative to the file length',
     why='tests compare the implementations on one random matrix and two window sizes',
     files=['hyperion/feats/feature_normalization.py'],
     mech=[('MeanVarianceNorm', 'hyperion/feats/feature_normalization.py')]),
dict(id='P21', title='Frame selection and energy VAD take exactly the right frames',
     statement='Frame selection returns the selected frames in order, truncates to the shorter of features and decisions within the tolerance and rejects larger mismatches. The energy VAD marks exactly the frames whose log-energy exceeds the mean-dependent threshold, or the required proportion of the window around the frame, with the documented framing, edge handling, offset removal and dither; inputs are not modified.',
     quant='every wave, feature, decision pattern, threshold, scale, proportion, context and tolerance',
     why='tests use one signal with clear energy steps and no context',
     files=['hyperion/feats/frame_selector.py', 'hyperion/feats/energy_vad.py', 'hyperion/feats/stft.py'],
     mech=[('FrameSelector.select', 'hyperion/feats/frame_selector.py'), ('EnergyVAD.compute', 'hyperion/feats/energy_vad.py'), ('st_logE', 'hyperion/feats/stft.py')]),
dict(id='P22', title='Numeric helpers satisfy their defining equations',
     statement='Softmax is a positive normalised vector, log-sum-exp is the logarithm of the sum of exponentials and both are stable for large values; inverses, Cholesky factors and log-determinants of positive definite matrices and triangular matrices match the matrix; packing and unpacking triangular parts, sigmoid/logit pairs and one-hot codes are inverses of each other; flooring a covariance keeps its directions relative to the floor and leaves no variance below it, from covariances or Cholesky factors of either kind.',
     quant='every vector and every positive definite or triangular matrix of the checked dimensions',
     why='tests evaluate random matrices of one size and cannot show stability or equality for every value',
     files=['hyperion/utils/math.py'], mech=[('softmax, logsumexp, invert_pdmat, invert_trimat, symmat2vec, vec2symat, fisher_ratio, fullcov_varfloor, fullcov_varfloor_from_cholS, int2onehot', 'hyperion/utils/math.py')],
     note='Bounded symbolic execution over the reals (floating-point rounding outside the claim, exponent range included for softmax/log-sum-exp); every value within the stated dimensions.'),
dict(id='P23', title='Normal distributions: density, estimation and conversion',
     statement='For full and diagonal covariance normal distributions the log density equals the Gaussian formula however it is computed (natural or standard parameters, from statistics), converting between parameter forms loses nothing, accumulated statistics equal the weighted sums whatever the batching, estimation gives the maximum likelihood mean and covariance (respecting the floor and the update switches), normalizing statistics whitens them, and saving and loading restores the distribution. Arguments are not modified.',
     quant='every mean, positive definite precision, data, weights, batch size and options', over=['inputs', 'histories'],
     why='tests use one fixed three-dimensional distribution; weights with batches, fixed means, whitening and persistence are not tested',
     files=['hyperion/pdfs/core/normal.py', 'hyperion/pdfs/core/normal_diag_cov.py', 'hyperion/pdfs/core/exp_family.py', 'hyperion/hyp_model.py'], mech=[('Normal', 'hyperion/pdfs/core/normal.py'), ('NormalDiagCov', 'hyperion/pdfs/core/normal_diag_cov.py'), ('ExpFamily', 'hyperion/pdfs/core/exp_family.py')]),
dict(id='P24', title='Gaussian mixtures: posteriors, density, EM updates and statistics',
     statement='For full, diagonal and tied covariance mixtures, component posteriors are proportional to weight times density and sum to one, the log density is the log of the sum over components, statistics of the whole data, of segments, of soft segments and of sliding windows equal the posterior weighted sums for any batching and weights, each EM update sets weights, means and (floored) covariances to the weighted estimates and leaves no stale derived value, splitting keeps the weights and moves the means symmetrically, and saving and loading restores the mixture.',
     quant='every set of weights, means, precisions, data, sample weights, segments and options', over=['inputs', 'histories'],
     why='tests use one fixed mixture and compare implementations with each other; caches after an update, overlapping windows, fixed parameters and small components are not tested',
     files=['hyperion/pdfs/mixtures/gmm.py', 'hyperion/pdfs/mixtures/gmm_diag_cov.py', 'hyperion/pdfs/mixtures/gmm_tied_diag_cov.py', 'hyperion/pdfs/mixtures/exp_family_mixture.py'],
     mech=[('ExpFamilyMixture', 'hyperion/pdfs/mixtures/exp_family_mixture.py'), ('GMM', 'hyperion/pdfs/mixtures/gmm.py'), ('GMMDiagCov', 'hyperion/pdfs/mixtures/gmm_diag_cov.py'), ('GMMTiedDiagCov', 'hyperion/pdfs/mixtures/gmm_tied_diag_cov.py')]),
dict(id='P25', title='PLDA scores are the log likelihood ratio of the model',
     statement='For the full rank, simplified and full PLDA models, the score of two vectors, and of any numbers of enrollment and test vectors by the book, equals the log likelihood ratio between sharing and not sharing the class factor under the model; vector and score averaging evaluate what they say, with or without length normalization; class statistics from labels or responsibilities, with weights and scaling, are the weighted sums; model and arguments are not modified.',
     quant='every model parameter, vector, class count up to the bound, label, weight and scaling',
     why='tests compare scoring methods with each other on one fixed model; several counts at once, weights and multi-session scores of SPLDA and PLDA are not tested',
     files=['hyperion/pdfs/plda/plda_base.py', 'hyperion/pdfs/plda/frplda.py', 'hyperion/pdfs/plda/splda.py', 'hyperion/pdfs/plda/plda.py'], mech=[('llr_1vs1, llr_NvsM_book', 'hyperion/pdfs/plda/frplda.py'), ('llr_1vs1, llr_NvsM_book', 'hyperion/pdfs/plda/splda.py'), ('llr_1vs1, llr_NvsM_book', 'hyperion/pdfs/plda/plda.py'), ('llr_NvsM, llr_Nvs1, compute_stats_hard, compute_stats_soft, center_stats', 'hyperion/pdfs/plda/plda_base.py')]),
dict(id='P26', title='PLDA training: exact posteriors, exact objective and EM updates',
     statement='For the full rank, simplified and full PLDA models, class factor posteriors are exact for any counts, the reported objective is the log likelihood of the data, each maximum likelihood and minimum divergence step sets the parameters that are switched on to the EM optimum given the others and leaves the rest (and everything derived from them) consistent, training runs the steps asked on the weighted statistics of the data given, averaging models averages their covariances, sampling has the moments of the model, and saving and loading restores it. Arrays given to the model are not modified.',
     quant='every model parameter, statistics, combination of update switches, weights and draws', over=['inputs', 'histories'],
     why='tests train on one fixed data set with all the parameters updated and check only the value of the final objective',
     files=['hyperion/pdfs/plda/plda_base.py', 'hyperion/pdfs/plda/frplda.py', 'hyperion/pdfs/plda/splda.py', 'hyperion/pdfs/plda/plda.py'], mech=[('compute_py_g_x, Estep, elbo, MstepML, MstepMD', 'hyperion/pdfs/plda/frplda.py'), ('compute_py_g_x, Estep, elbo, MstepML, MstepMD', 'hyperion/pdfs/plda/splda.py'), ('compute_py_g_x, Estep, elbo, MstepML, MstepMD, compute_aux', 'hyperion/pdfs/plda/plda.py'), ('PLDABase.fit', 'hyperion/pdfs/plda/plda_base.py')]),
dict(id='P27', title='Vector transforms apply their parameters, estimate them right and survive saving',
     statement='Centering and whitening, length normalization (also with uncertainty), PCA, LDA, NDA, nuisance projection, mean-variance normalization and Gaussianization apply exactly their parameters and do not modify the input; estimated transforms whiten the covariance given or measured, diagonalize the pair of scatter matrices with the leading directions first, or remove the top within class direction; scatter statistics from any labels are the class averages and add up over parts; Gaussianization maps to the normal quantile of the rank; chains apply their members in order; saving and loading (also with unset parameters, switches and names, alone or in nested chains, repeatedly) restores the same transform.',
     quant='every mean, covariance or scatter matrix, data, labels and switches', over=['inputs', 'histories'],
     why='the repository has no tests of its vector transforms',
     files=['hyperion/transforms/' + f for f in ('cent_whiten.py', 'cent_whiten_up.py', 'lnorm.py', 'lnorm_up.py', 'pca.py', 'lda.py', 'nda.py', 'nap.py', 'mvn.py', 'sb_sw.py', 'gaussianizer.py', 'transform_list.py')] + ['hyperion/hyp_model.py'],
     mech=[('CentWhiten', 'hyperion/transforms/cent_whiten.py'), ('LNorm', 'hyperion/transforms/lnorm.py'), ('PCA', 'hyperion/transforms/pca.py'), ('LDA', 'hyperion/transforms/lda.py'), ('SbSw', 'hyperion/transforms/sb_sw.py'), ('NAP', 'hyperion/transforms/nap.py'), ('Gaussianizer', 'hyperion/transforms/gaussianizer.py'), ('TransformList', 'hyperion/transforms/transform_list.py')]),
dict(id='P28', title='Score normalization uses the statistics of the right cohort scores',
     statement='Z-norm and T-norm subtract from each score the mean and divide by the (floored) standard deviation of the cohort scores of its model or its test that the mask selects; S-norm is the sum of both over the square root of two; ZT- and TZ-norm apply them in sequence, the cohort scores being normalized with the cohort-cohort scores; adaptive S-norm takes the statistics over the closest cohort entries of the other side, after the discarded ones; shifting and scaling all the scores leaves S-norm unchanged; no argument is modified.',
     quant='every score, cohort score, mask, floor, and number of best and discarded cohort entries within the bound',
     why='the repository has no tests of its score normalizations',
     files=['hyperion/score_norm/' + f for f in ('t_norm.py', 'z_norm.py', 's_norm.py', 'zt_norm.py', 'tz_norm.py', 'adapt_s_norm.py', 'score_norm.py')],
     mech=[('TNorm.predict', 'hyperion/score_norm/t_norm.py'), ('ZNorm.predict', 'hyperion/score_norm/z_norm.py'), ('SNorm.predict', 'hyperion/score_norm/s_norm.py'), ('ZTNorm.predict', 'hyperion/score_norm/zt_norm.py'), ('TZNorm.predict', 'hyperion/score_norm/tz_norm.py'), ('AdaptSNorm.predict', 'hyperion/score_norm/adapt_s_norm.py')]),
dict(id='P29', title='Gaussian calibration gives log likelihood ratios',
     statement='A Gaussian calibration turns each score into the log likelihood ratio of its two Gaussians with common variance; supervised training sets the weighted means of both classes, the pooled weighted variance and the proportion of targets, whatever was there before; unsupervised training is that of a two component mixture with a tied variance started at the model or at the maximum and the mean of the scores; saving and loading restores the calibration and its prior. Arguments are not modified.',
     quant='every score, parameter, label and weight within the bound', over=['inputs', 'histories'],
     why='the repository has no tests of calibration',
     files=['hyperion/calibration/gauss_calibration.py', 'hyperion/calibration/unsup_gauss_calibration.py'],
     mech=[('GaussCalibration', 'hyperion/calibration/gauss_calibration.py'), ('UnsupGaussCalibration', 'hyperion/calibration/unsup_gauss_calibration.py')]),
dict(id='P30', title='Clustering merges the closest groups and labels them consistently',
     statement='Agglomerative clustering on log likelihood ratios, probabilities or distances merges at each step the two closest groups and reports the score of each merge on the scale of the input; the flat clusters for any number of clusters, or for any threshold, are the partition after the merges that number or threshold allows (a merge whose reported score is the threshold is allowed), labelled from zero, whether or not all the levels are computed before and whatever was fitted before; masked pairs join nothing with single linkage; impurities are the conditional entropies over the entropies. K-means starts at the farthest vectors, alternates nearest centers and means, stops when the loss settles, and never increases it. Inputs are not modified.',
     quant='every pairwise score (without ties), threshold, mask, vector and number of clusters within the bound', over=['inputs', 'histories'],
     why='the repository has no tests of its clustering',
     files=['hyperion/clustering/ahc.py', 'hyperion/clustering/kmeans.py'],
     mech=[('AHC', 'hyperion/clustering/ahc.py'), ('KMeans', 'hyperion/clustering/kmeans.py')]),
dict(id='P31', title='Programs write outputs that belong to the trials and files they name',
  statement='The command line programs give, in their output files, the result of the library operation for the named items of their input files, whatever the order of the inputs: arkvad2nist and h5vad2nist write intervals that tile each file and have the state of their frames; segments-to-bin-vad and rttm-to-bin-vad give each file the binary VAD of its own segments and frames, every file in exactly one part; vectors2scores and scores2lre_format keep every score at its class and segment and -100 for the missing ones; eval-cos-1vs1, eval-plda-1vs1 and eval-plda-nvs1 write for every trial the score of the enrolment vectors of the model against the vector of the segment after the preprocessing transform, with the requested kind of model and pooling; the eval programs of the classifiers write the score of each class for each segment; eval-score-norm normalises each trial by the cohort scores of its model and its segment; eval-2class-performance reports the equal error rate and numbers of the trials of the key; compute-mfcc-feats and compute-energy-vad write the features of each recording under its key from a fresh state; ark2hyp, copy-feats and merge-h5-files keep every record.',
  quant='every value of the vectors, scores, vad and samples, every order and subset of the names, every option value within the bound', over=['inputs', 'histories'],
  why='no test runs the programs',
  files=['hyperion/bin/arkvad2nist.py', 'hyperion/bin/h5vad2nist.py', 'hyperion/bin/segments-to-bin-vad.py', 'hyperion/bin/rttm-to-bin-vad.py', 'hyperion/bin/vectors2scores.py', 'hyperion/bin/scores2lre_format.py', 'hyperion/bin/eval-cos-1vs1.py', 'hyperion/bin/eval-plda-1vs1.py', 'hyperion/bin/eval-plda-nvs1.py', 'hyperion/bin/eval-linear-gbe.py', 'hyperion/bin/eval-linear-gbe-up.py', 'hyperion/bin/eval-linear-svmc.py', 'hyperion/bin/eval-logistic-regression.py', 'hyperion/bin/eval-q-scoring-homo-gbe.py', 'hyperion/bin/eval-score-norm.py', 'hyperion/bin/eval-2class-performance.py', 'hyperion/bin/compute-energy-vad.py', 'hyperion/bin/compute-mfcc-feats.py', 'hyperion/bin/ark2hyp.py', 'hyperion/bin/copy-feats.py', 'hyperion/bin/merge-h5-files.py'],
  mech=[('eval-cos-1vs1', 'hyperion/bin/eval-cos-1vs1.py'), ('eval-score-norm', 'hyperion/bin/eval-score-norm.py'), ('segments-to-bin-vad', 'hyperion/bin/segments-to-bin-vad.py'), ('compute-mfcc-feats', 'hyperion/bin/compute-mfcc-feats.py')]),
dict(id='P32', title='Training programs save the model of the listed vectors and options',
  statement='Every train program fits its model to exactly the vectors of its list, in its order, after the preprocessing transform if there is one, with the class numbers of the selected classes for the supervised ones and the vectors of the validation list for PLDA; every command line option, and every default, reaches the model that is trained, flags that negate included; --input-path continues from the model of that file or from the transform of that name in a list, whose fixed parameters are kept; the output is the trained model alone, a list of it, or the preprocessing with it at the end, as asked, under its name, and loads back; train-plda writes the bounds of each epoch.',
  quant='every value of the vectors, order and subset of the list, presence of preprocessing, output format and selection of classes within the bound; the fits themselves are decided by other properties', over=['inputs', 'histories'],
  why='no test runs the training programs',
  files=['hyperion/bin/train-cw.py', 'hyperion/bin/train-cw-up.py', 'hyperion/bin/train-gaussianizer.py', 'hyperion/bin/train-mvn.py', 'hyperion/bin/train-pca.py', 'hyperion/bin/train-lda.py', 'hyperion/bin/train-nda.py', 'hyperion/bin/train-plda.py', 'hyperion/bin/train-linear-gbe.py', 'hyperion/bin/train-linear-gbe-up.py', 'hyperion/bin/train-linear-svmc.py', 'hyperion/bin/train-logistic-regression.py', 'hyperion/bin/train-q-scoring-homo-gbe.py', 'hyperion/helpers/plda_factory.py', 'hyperion/transforms/transform_list.py'],
  mech=[('train-cw', 'hyperion/bin/train-cw.py'), ('train-plda', 'hyperion/bin/train-plda.py'), ('train-linear-gbe', 'hyperion/bin/train-linear-gbe.py'), ('PLDAFactory', 'hyperion/helpers/plda_factory.py')]),
dict(id='P33', title='Training batches hold valid, balanced and reproducible subsequences',
  statement='Each batch has the requested size; its subsequences lie inside their own sequences and within the limits of length (or are the whole sequence when it is shorter), and come with the right class and sequence labels, weights and padding. Sequences shorter than the pruning limit, or of another part of the list, are never used, and the others are read with their own lengths and classes also after pruning, balancing and shuffling. The first generator takes sequences in turns, each once per pass, covers them in order with the requested overlap in sequential mode, and repeats sequences of rare classes up to the allowed imbalance; the second draws the requested number of sequences of each class and subsequences of each sequence. The random numbers of an epoch depend only on its number and the seed, so a resumed training sees the batches it would have seen.',
  quant='every sequence length, limit, class, shuffle and draw within the bound', over=['inputs', 'histories', 'schedules'],
  why='tests sample a few draws of the generators and never several epochs, pruning or resumed ones together',
  files=['hyperion/generators/sequence_batch_generator_v1.py', 'hyperion/generators/sequence_batch_generator_v2.py'],
  mech=[('SequenceBatchGeneratorV1', 'hyperion/generators/sequence_batch_generator_v1.py'), ('SequenceBatchGeneratorV2', 'hyperion/generators/sequence_batch_generator_v2.py')]),
dict(id='P34', title='Vector and trial readers deliver the vectors of their lists, whole and in parts',
  statement='The vector readers return the vectors of their list in its order, transformed if asked. The class reader leaves out classes with fewer vectors than the minimum, prunes those over the maximum to exactly it (the first, the last or any), divides large classes into subclasses of bounded size and of one class each, which cover the class when they are sequential, drops too small subclasses, and returns class numbers, names, counts and padded tensors consistent with each other and with a given numbering; its command line arguments reach it. The trial readers return, for each evaluation set and each part of the models and segments, the trials of that part with their mask, exactly the enrollment vectors of its models with their names, and the vectors of its segments in order.',
  quant='every assignment of vectors to classes, models and segments, every mask, part and choice of the random generator within the bound', over=['inputs', 'histories'],
  why='the repository has no tests of its readers of vectors and trials',
  files=['hyperion/helpers/vector_reader.py', 'hyperion/helpers/vector_class_reader.py', 'hyperion/helpers/trial_data_reader.py', 'hyperion/helpers/multi_test_trial_data_reader.py', 'hyperion/helpers/classif_trial_data_reader.py', 'hyperion/utils/tensors.py'],
  mech=[('VectorClassReader', 'hyperion/helpers/vector_class_reader.py'), ('TrialDataReader', 'hyperion/helpers/trial_data_reader.py')]),
dict(id='P35', title='Spectral features follow their definitions at every step of the pipeline',
  statement='Short time transforms are the zero padded DFT of each windowed frame that fits in the signal (none for short signals), and their inverses recover the signal wherever the overlapped windows do not vanish. Every step of the MFCC pipeline follows from the one before as documented: dither, offset and preemphasis filters with state carried from call to call until reset, window, magnitude or power spectrum, log of the filter banks, orthonormal DCT cut and liftered; the log energy, raw or from the spectrum and floored, is the first feature. Without snipped edges there is a frame per shift over the reflected signal. Continuing from the fft, spectrum, log spectrum or log filter banks gives the same as computing from there, and the same as going straight from the wave (banks above the first bin). Requested intermediate results come back unchanged. Filter banks are triangles between cutoffs equally spaced in mel or frequency, high cutoffs not above zero counting from Nyquist; mel and frequency are inverse; normalized filters sum to one.',
  quant='every signal, window, spectrum and cutoff frequency within the bound', over=['inputs', 'histories'],
  why='tests compare a few noise signals between steps and invert one transform, with default options',
  files=['hyperion/feats/stft.py', 'hyperion/feats/mfcc.py', 'hyperion/feats/filter_banks.py', 'hyperion/feats/feature_windows.py'],
  mech=[('stft', 'hyperion/feats/stft.py'), ('MFCC.compute', 'hyperion/feats/mfcc.py'), ('FilterBankFactory.create', 'hyperion/feats/filter_banks.py'), ('FeatureWindowFactory.create', 'hyperion/feats/feature_windows.py')]),
dict(id='P36', title='Gaussian, quality aware and linear classifiers score as their models define',
  statement='A linear Gaussian back-end is fitted to the weighted maximum likelihood, or maximum a posteriori, means and shared covariance of its classes, balanced or not, with the counts it reports; its linear scores differ as log likelihoods, its log likelihoods and predictive densities are those of the Gaussian and Student distributions, and normalized outputs are log posteriors. The back-end for uncertain vectors removes their uncertainty from the covariance, keeps it positive, and adds it back when scoring; the quality aware scoring gives log likelihood ratios of its posterior classes. Logistic regression weights the classes by their priors, without changing the inputs, and returns scores calibrated to log likelihoods, and posteriors that sum to one; the linear support vector machine returns its scores and their posteriors. Saved models are loaded with the same scores.',
  quant='every vector, label weight, prior, coefficient and uncertainty within the bound; the optimizers of scikit-learn are arbitrary functions', over=['inputs', 'histories'],
  why='the repository has no tests of its classifiers',
  files=['hyperion/classifiers/linear_gbe.py', 'hyperion/classifiers/linear_gbe_up.py', 'hyperion/classifiers/q_scoring_homo_gbe.py', 'hyperion/classifiers/logistic_regression.py', 'hyperion/classifiers/binary_logistic_regression.py', 'hyperion/classifiers/linear_svmc.py'],
  mech=[('LinearGBE', 'hyperion/classifiers/linear_gbe.py'), ('LinearGBEUP', 'hyperion/classifiers/linear_gbe_up.py'), ('QScoringHomoGBE', 'hyperion/classifiers/q_scoring_homo_gbe.py'), ('LogisticRegression', 'hyperion/classifiers/logistic_regression.py')]),
dict(id='P37', title='The background queue delivers the items of its generator',
  statement='With one worker thread a generator queue delivers to its consumer the items of the generator in their order, each once, leaving out the empty ones, and holds no more than the requested number at any time, however the operations of worker and consumer interleave; with several workers every item is delivered at most once and the size is exceeded by at most one item for each further worker. A generator that fails stops the queue: the consumer ends after a prefix of the items and never waits for ever. Stopping ends the workers, after which nothing is taken from the generator, and the queue can be started again.',
  quant='every item, every position of the failure and every interleaving of operations on the shared objects within the bound', over=['inputs', 'schedules', 'fault_sequences'],
  why='no test uses the queues, and the interleavings of threads are not under the control of a test',
  files=['hyperion/utils/queues.py'],
  mech=[('GeneratorQueue', 'hyperion/utils/queues.py')]),
dict(id='P38', title='Sequence readers deliver every sequence and subsequence of an epoch',
  statement='An epoch of a sequence reader has every sequence of at least the minimum length once, whole, or its subsequences in full batches: sequential ones follow each other with the requested overlap, from the start of the sequence, taking turns between the sequences, up to a rest shorter than the minimum; random ones lie inside their sequence, are as long as the limit allows, and are as many per sequence as the mode gives. The features are those of the stored frames, preprocessed if asked; the posteriors are those of the same frames, in the columns of their components; labels and padding belong to their sequences, also after shuffling. Reading one by one follows the list or the requested part of it, the command line arguments reach the reader and work with their defaults, and the evaluation of a mixture reports the evidence of the preprocessed sequences.',
  quant='every length, minimum, value, shuffle, part and draw within the bound', over=['inputs', 'histories'],
  why='the repository has no tests of its sequence readers',
  files=['hyperion/helpers/sequence_reader.py', 'hyperion/helpers/sequence_class_reader.py', 'hyperion/helpers/sequence_post_reader.py', 'hyperion/helpers/sequence_post_class_reader.py', 'hyperion/io/hyp_data_reader.py', 'hyperion/bin/eval-elbo-ubm.py'],
  mech=[('SequenceReader', 'hyperion/helpers/sequence_reader.py'), ('SequencePostReader', 'hyperion/helpers/sequence_post_reader.py')]),
]
