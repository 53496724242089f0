PROPS = [
 dict(id="C01", title="Splitting a list yields ordered parts that tile it exactly once",
      statement="For every list and every number of parts, the parts returned for part 1..N are consecutive blocks in order, are disjoint, and together contain every element exactly once, part i being the elements from floor((i-1)n/N) up to floor(i*n/N); the returned indices always select the returned elements. With grouping by key the parts again contain every element exactly once and all elements that share a key land in the same part, the sorted distinct keys being dealt to the parts by the same floor rule.",
      quant="every list (any length, including empty), every number of parts and every part index, every key assignment",
      why="jobs of an experiment are split over thousands of list lengths and part counts; tests sample two, and a rounding slip shows only for some (length, parts) pairs",
      files=["hyperion/utils/list_utils.py"],
      mech=[("split_list", "hyperion/utils/list_utils.py:split_list"), ("split_list_group_by_key", "hyperion/utils/list_utils.py:split_list_group_by_key")],
      note="split_list proved for all lengths, parts and indices; group-by-key proved partly, remaining obligations decided by a bounded stand-in"),
 dict(id="C02", title="Score normalisation computes its defining statistics and nothing else",
      statement="T-, Z-, S-, ZT-, TZ-norm and adaptive S-norm return, for every trial, the score shifted and scaled by the mean and (floored) standard deviation of exactly the cohort scores their definition names, composed in the defined order, with adaptive S-norm using the N best cohort entries after the discarded ones. Cohort entries excluded by a mask never influence the result, each mask applies to its own cohort matrix, and no input array is modified.",
      quant="every score matrix, cohort matrices and masks of compatible shapes with at least one kept cohort score per line, every floor, every N and discard count",
      why="no test covers score normalisation; the formula must hold for every matrix shape, including non-square and single-entry cohorts and constant lines where the floor acts",
      files=["hyperion/score_norm/t_norm.py", "hyperion/score_norm/z_norm.py", "hyperion/score_norm/s_norm.py", "hyperion/score_norm/zt_norm.py", "hyperion/score_norm/tz_norm.py", "hyperion/score_norm/adapt_s_norm.py"],
      mech=[("TNorm.predict", "hyperion/score_norm/t_norm.py"), ("ZNorm.predict", "hyperion/score_norm/z_norm.py"), ("AdaptSNorm.predict", "hyperion/score_norm/adapt_s_norm.py")],
      note="all elementary and composed norms proved for all shapes over the reals; masked adaptive S-norm is a bounded stand-in"),
 dict(id="C03", title="Gaussian score calibration is the defining log likelihood ratio",
      statement="GaussCalibration.fit estimates, from scores with target/non-target labels and optional sample weights, the weighted means of both classes, the pooled weighted variance and the weighted prior; predict maps every score to the exact log likelihood ratio log N(x;mu1,s2) - log N(x;mu2,s2) of the stored parameters. A saved and re-loaded calibration has the same means and variance and produces the same outputs, and inputs are not modified.",
      quant="every score vector with both classes present, every positive weighting, every parameter triple with positive variance",
      why="a wrong weighting or a lost parameter in save/load passes any shape test and only shows in the numeric identity, which must hold for all data",
      files=["hyperion/calibration/gauss_calibration.py"],
      mech=[("GaussCalibration.fit/predict", "hyperion/calibration/gauss_calibration.py")],
      note="proved for all sample counts, weights and parameters over the reals"),
 dict(id="C04", title="Gaussian models: both parametrisations give the normal density and EM statistics are exact",
      statement="For NormalDiagCov and Normal: the log density returned by the standard form and by the natural (exponential family) form equals the normal log density of the stored mean and precision; natural and standard parameters convert to each other; accumulated sufficient statistics are the weighted sums over all frames, whatever the batch size, whether computed or given, and leave their inputs untouched; the M-step sets mean and covariance to the (floored, for the diagonal model) weighted moments around the mean in use, honouring update flags, and every cached quantity (covariance, factor, log determinant, natural parameters, partition function) agrees with the parameters afterwards; normalised statistics are those of the whitened data; the elbo is the weighted sum of the log densities; a saved model loads back with the same parameters and options.",
      quant="every dimension, number of frames, weights, batch size, mean and positive (definite) precision, every combination of update flags",
      why="tests run one random model; agreement of the two parametrisations, of the cached values after every parameter change, and of batched with unbatched statistics must hold for every sequence of calls and every size",
      files=["hyperion/pdfs/core/exp_family.py", "hyperion/pdfs/core/normal.py", "hyperion/pdfs/core/normal_diag_cov.py"],
      mech=[("ExpFamily", "hyperion/pdfs/core/exp_family.py"), ("Normal", "hyperion/pdfs/core/normal.py"), ("NormalDiagCov", "hyperion/pdfs/core/normal_diag_cov.py")],
      note="proved for all dimensions and frame counts over the reals; the double-loop packed statistics of Normal.compute_suff_stats are proved for dimensions 1 to 4 and all frame counts"),
 dict(id="C05", title="Gaussian mixtures: density, EM statistics, M-step and persistence are exact",
      statement="For GMMDiagCov, GMMTiedDiagCov and GMM (full covariance): the log density in standard and natural form is the log of the weighted sum of the component normal densities; the expectation step returns responsibility-weighted sums over exactly the given frames, whatever the batch size and with sample weights, for whole recordings, for segments, for soft segments and for sliding windows; the maximisation step sets means, precisions (with variance floor) and weights to the maximum likelihood values of the statistics for the parameters that are enabled, leaves the others alone, and every density computed afterwards uses the new parameters; normalised statistics, component splitting and the sum of statistics follow their definitions; a saved model is loaded with equal parameters and settings. None of these changes its inputs.",
      quant="every number of components, dimension, number of frames, batch size, segmentation, weights, every combination of update flags, statistics with positive counts",
      why="tests run one random two-component model on one data set; stale caches, mixed-up components, dropped batches and lost flags only show for particular sequences of calls, sizes and settings",
      files=["hyperion/pdfs/mixtures/exp_family_mixture.py", "hyperion/pdfs/mixtures/gmm.py", "hyperion/pdfs/mixtures/gmm_diag_cov.py", "hyperion/pdfs/mixtures/gmm_tied_diag_cov.py"],
      mech=[("ExpFamilyMixture", "hyperion/pdfs/mixtures/exp_family_mixture.py"), ("GMM", "hyperion/pdfs/mixtures/gmm.py"), ("GMMDiagCov", "hyperion/pdfs/mixtures/gmm_diag_cov.py")],
      note="proved for all sizes over the reals; the packed full-covariance statistics (dimensions 1 to 4) and the full-covariance split (1 to 3 components) are proved with that size fixed; the full-covariance floor itself is a bounded stand-in"),
 dict(id="C06", title="PLDA models: posteriors, scores, EM steps and persistence are exact",
      statement="For FRPLDA, SPLDA and PLDA: class statistics are the (weighted, scaled) sums over the given samples and centring is exact for them; the posterior of the latent variables given a class is the Gaussian posterior of the model with the class count; the log likelihood ratio of one against one and of averaged, by-the-book or score-averaged many against many enrolment is the one of the model; the expectation step accumulates posterior moments over all classes, the maximisation and minimum-divergence steps solve the normal equations of exactly the enabled parameters, keep the others and refresh cached values; the elbo is that of the model; adaptation interpolates the covariances and precisions as defined; a saved model is loaded with equal parameters and settings. Inputs are not modified.",
      quant="every feature, speaker and channel dimension, number of classes and samples, sample weights, class counts, every combination of update flags, every valid model",
      why="tests run one random model with balanced classes; wrong counts, swapped transposes, stale caches and lost flags only show with unbalanced classes, non zero means and particular flags",
      files=["hyperion/pdfs/plda/plda_base.py", "hyperion/pdfs/plda/frplda.py", "hyperion/pdfs/plda/splda.py", "hyperion/pdfs/plda/plda.py"],
      mech=[("PLDABase", "hyperion/pdfs/plda/plda_base.py"), ("FRPLDA", "hyperion/pdfs/plda/frplda.py"), ("SPLDA", "hyperion/pdfs/plda/splda.py"), ("PLDA", "hyperion/pdfs/plda/plda.py")],
      note="proved for all sizes over the reals; posteriors with integer counts, initialisation, whole fits, adaptation and sampling are bounded stand-ins"),
 dict(id="C07", title="Feature transforms apply and estimate exactly their defining projections",
      statement="Centring, whitening, LDA, PCA, NDA, NAP, length normalisation and MVN map every vector by the stored mean and projection, without changing the input; the uncertainty propagating variants transform means and variances by the same map and the same norm. Fitting obtains its directions from the class or total covariances of exactly the given data: the projected data have the defined covariance (identity within class for LDA, identity or decorrelated for whitening and PCA), the kept dimensions are the leading ones, and the between/within class statistics are those of the labelled samples, normalised and added as defined. A list of transforms applies them in order under their names, and every transform that is saved is loaded with equal parameters and settings.",
      quant="every number of samples, dimension, target dimension, class labelling, every combination of optional mean and projection, every list of transforms",
      why="tests compare one random data set with a stored array; a wrong axis, a dropped mean or a lost setting shows only for particular shapes, options and chains",
      files=["hyperion/transforms/lda.py", "hyperion/transforms/pca.py", "hyperion/transforms/nda.py", "hyperion/transforms/nap.py", "hyperion/transforms/cent_whiten.py", "hyperion/transforms/cent_whiten_up.py", "hyperion/transforms/lnorm.py", "hyperion/transforms/lnorm_up.py", "hyperion/transforms/mvn.py", "hyperion/transforms/sb_sw.py", "hyperion/transforms/gaussianizer.py", "hyperion/transforms/transform_list.py"],
      mech=[("LDA", "hyperion/transforms/lda.py"), ("PCA", "hyperion/transforms/pca.py"), ("CentWhiten", "hyperion/transforms/cent_whiten.py"), ("TransformList", "hyperion/transforms/transform_list.py")],
      note="proved for all sizes over the reals relative to the contract of the eigen solvers; SbSw.fit, NAP.fit and the Gaussianizer are bounded stand-ins"),
 dict(id="C08", title="Detection metrics are the defining error rates, costs and hulls of the scores",
      statement="For every pair of target and non-target score sets: the ROC gives misses and false alarms of every threshold; the ROC convex hull has exactly the vertices of the lower hull of the operating points, with equal scores never split; EER and the precision/recall break-even point are where that hull crosses the diagonal; the detection cost, its minimum over the hull with the operating point that reaches it, and the actual cost at the Bayes threshold of every prior (also repeated priors and scores equal to a threshold) follow their formulas, also when computed all together; isotonic regression and the optimal log likelihood ratios are those of the score order, returned in the order of the input; confusion matrices count by true and predicted label. No input is modified.",
      quant="every number of target and non-target scores, ties included, every prior or ascending vector of priors, every labelling",
      why="tests use one or two fixed score sets; ties, repeated priors, thresholds that hit a score and the order of the returned values are only settled for all inputs",
      files=["hyperion/metrics/roc.py", "hyperion/metrics/eer.py", "hyperion/metrics/dcf.py", "hyperion/metrics/cllr.py", "hyperion/metrics/utils.py", "hyperion/metrics/acc.py", "hyperion/metrics/confusion_matrix.py"],
      mech=[("compute_rocch", "hyperion/metrics/roc.py:compute_rocch"), ("compute_act_dcf", "hyperion/metrics/dcf.py:compute_act_dcf"), ("opt_loglr", "hyperion/metrics/utils.py:opt_loglr")],
      note="costs, ROC, hull vertices from the pooled widths, ratios and label handling proved for all sizes; pavx, rocch2eer, filter_roc and the scikit-learn counts are bounded stand-ins; the sign of the non-target half of Cllr is a known finding"),
 dict(id="C09", title="Matrix and probability helpers satisfy their defining identities",
      statement="For every symmetric positive definite matrix the helper returns products with the true inverse (from the left or the right), the upper Cholesky factor, the log determinant and the inverse; the same for triangular matrices. Softmax, log-sum-exp, sigmoid and its logarithms equal their definitions along the chosen axis, also for large values. Fisher ratios, one-hot coding and the packing of symmetric and triangular matrices into vectors are exact and invertible, and the full covariance variance floor returns the smallest covariance above the floor. Inputs are not modified.",
      quant="every size, axis and matrix that satisfies the precondition (positive definite, triangular with positive diagonal)",
      why="all models are built on these helpers; tests check one random matrix each, and mistakes in an option (right inverse, returned log determinant, axis) appear only with that option",
      files=["hyperion/utils/math.py"],
      mech=[("invert_pdmat", "hyperion/utils/math.py:invert_pdmat"), ("softmax", "hyperion/utils/math.py:softmax"), ("symmat2vec", "hyperion/utils/math.py:symmat2vec")],
      note="proved for all sizes over the reals relative to the contract of the Cholesky factorisation; the full covariance floor (SVD) is a bounded stand-in"),
 dict(id="C10", title="Script lists keep each key attached to its file, offset and row range",
      statement="In an SCPList the file path, byte offset and row range of an entry stay with its key through sorting, shuffling, splitting into parts, merging, filtering by key, path or index (keep or remove; unknown names are refused) and text round trips; no entry is lost, duplicated or moved to another key, look-up by key or position after any of these operations returns the entry of that key, entries that keep their order do so in the order of the list, and the operations that return a new list leave the old one as it was. The list helpers (ismember, sort, intersect) return what they document for every input.",
      quant="every list length, every presence of offsets and ranges, every set of filter keys, every number of parts",
      why="every feature, label and trial set is read through these lists; a row attached to the wrong key silently trains or scores on the wrong recording, and tests only check one small list",
      files=["hyperion/utils/scp_list.py", "hyperion/utils/list_utils.py"],
      mech=[("SCPList.filter", "hyperion/utils/scp_list.py:SCPList.filter"), ("SCPList.parse_script", "hyperion/utils/scp_list.py:SCPList.parse_script"), ("ismember", "hyperion/utils/list_utils.py:ismember")],
      note="proved for all list sizes; group_by_key splits and lists that mix range forms in one text file are bounded stand-ins"),
    dict(id="C11", title="Trial lists and keys keep every trial attached to its model and segment",
      statement="In a TrialNdx the trial mask, and in a TrialKey the target and non-target masks and the model, segment and trial conditions, stay with the pair of model and segment names through sorting, splitting into parts, filtering (keep or remove; unknown names are refused or, when allowed, give the names found), merging and saving and loading (HDF5 and text); merging lists gives exactly the union of their names and trials, the parts of a split put together give the list again, a key turned into an index has the trial of every target and non-target, comparison tells lists apart exactly when they differ, and lists whose parts do not fit together are refused. The list the operation starts from is left as it was.",
      quant="every number of models, segments, conditions and parts, every mask, every set of names",
      why="the evaluation protocol lives in these lists: one trial attached to another pair of names moves every error rate, and the tests check one list of a few dozen names in order",
      files=["hyperion/utils/trial_ndx.py", "hyperion/utils/trial_key.py"],
      mech=[("TrialNdx.filter", "hyperion/utils/trial_ndx.py:TrialNdx.filter"), ("TrialKey.filter", "hyperion/utils/trial_key.py:TrialKey.filter"), ("TrialKey.merge", "hyperion/utils/trial_key.py:TrialKey.merge")],
      note="proved for all sizes against the contracts of the list helpers (C10); merge is proved for two lists (the step of its loop); text formats are bounded stand-ins"),
    dict(id="C12", title="Scores stay attached to their trial and only valid scores are used",
      statement="In a TrialScores the score and the valid mark of a trial stay with its model and segment names through sorting, splitting, filtering, merging (a trial scored twice is refused) and saving and loading; aligning scores with an index or a key gives, in the order of the index, the score of every trial of the index and no other valid score; a trial of the index without score is refused, or marked as missing, or set to the given value when that is asked for; target and non-target scores taken with a key are exactly the scores of the key's target and non-target trials; a score transform changes valid scores only. The objects the operations start from are left as they were (transform excepted).",
      quant="every number of models and segments, every mask, every set of names, every score",
      why="calibration, fusion and every error measure take their numbers from these functions; a score of another trial or an invalid zero score among the non-targets shifts EER and DCF silently",
      files=["hyperion/utils/trial_scores.py"],
      mech=[("TrialScores.filter", "hyperion/utils/trial_scores.py:TrialScores.filter"), ("TrialScores.align_with_ndx", "hyperion/utils/trial_scores.py:TrialScores.align_with_ndx"), ("TrialScores.get_tar_non", "hyperion/utils/trial_scores.py:TrialScores.get_tar_non")],
      note="proved for all sizes against the contracts of the list helpers (C10); merge is proved for two objects (the step of its loop); text format and the refusal of twice scored trials are bounded stand-ins"),
    dict(id="C13", title="Feature archives give back what was written, by key and by rows",
      statement="A matrix or vector written to a Kaldi ark or hdf5 archive is read back with the same shape and values (single precision), in order by the sequential readers and by key, in any order, by the random access readers, also through the script file that the writer writes; a request of rows [o, o+n) gives exactly these rows, combined with the row range of the script line, and reading past the rows that exist or past the range is refused; shapes and dimensions read without the data agree with the data; the stream is left at the next entry. Read and write specifiers open the files, archive types and options they name. A missing key is refused, or gives an empty item (zeros when squeezed) in permissive mode.",
      quant="every shape, all values, every row range, every number of items read at a time, both archive types, every file name",
      why="every training and extraction tool moves its features through these classes; rows shifted by an offset or an item of another key corrupt everything after silently",
      files=["hyperion/io/ark_data_reader.py", "hyperion/io/ark_data_writer.py", "hyperion/io/h5_data_reader.py", "hyperion/io/h5_data_writer.py", "hyperion/io/data_reader.py", "hyperion/io/data_writer.py", "hyperion/io/data_rw_factory.py", "hyperion/io/rw_specifiers.py", "hyperion/utils/kaldi_matrix.py", "hyperion/utils/kaldi_io_funcs.py"],
      mech=[("KaldiMatrix.read", "hyperion/utils/kaldi_matrix.py:KaldiMatrix.read"), ("DataReader._combine_ranges", "hyperion/io/data_reader.py:DataReader._combine_ranges"), ("RandomAccessArkDataReader.read", "hyperion/io/ark_data_reader.py:RandomAccessArkDataReader.read"), ("_read_h5_data", "hyperion/io/h5_data_reader.py:_read_h5_data")],
      note="matrices of all shapes and all row ranges proved on a model of a binary stream; archives are proved with two or three items (the loop over items is unrolled); text mode, the factories and script readers of hdf5 are bounded stand-ins"),
    dict(id="C14", title="Compressed matrices stay within their error and code the same rows",
      statement="A matrix compressed with any of the Kaldi methods decodes to values within the error of the method (half a step of its range for one and two byte codes, half a level between the percentiles of the column for speech-feat), values out of the range of the method go to its closest end, and the decoding keeps the order of the values; header, size and shape agree with the codes; reading rows [o, o+n) of a compressed matrix gives exactly the decoded rows and leaves the stream at the next entry; the codes with their attributes (as hdf5 stores them) and the matrix scaled by a number decode accordingly.",
      quant="every shape, all values, every row range, all methods",
      why="features and embeddings are stored compressed by default options; a wrong row stride or header is not visible in any later step",
      files=["hyperion/utils/kaldi_matrix.py", "hyperion/utils/kaldi_io_funcs.py", "hyperion/io/ark_data_writer.py", "hyperion/io/h5_data_writer.py", "hyperion/io/h5_data_reader.py"],
      mech=[("KaldiCompressedMatrix.read", "hyperion/utils/kaldi_matrix.py:KaldiCompressedMatrix.read"), ("KaldiCompressedMatrix._float_to_char", "hyperion/utils/kaldi_matrix.py:KaldiCompressedMatrix._float_to_char"), ("KaldiCompressedMatrix._get_read_info", "hyperion/utils/kaldi_matrix.py:KaldiCompressedMatrix._get_read_info")],
      note="codes, decoding, header and sizes of every method are proved for all sizes; reading row ranges is proved for the formats without column headers; with column headers (a loop over columns that moves the file) it is a bounded stand-in. Byte packing of numbers is taken as exact"),
    dict(id="C15", title="Folds and train/validation/evaluation parts are disjoint, complete and keep groups together",
      statement="A FoldList puts every element in exactly one fold: over the folds the test sets are disjoint and cover the list, and the training set of a fold is every other element; a masked element is in none. Inside a balance class the elements of a group (speaker, session) are never in two folds, and the folds hold the same number of groups up to one; the same seed gives the same folds. A TrainValEvalList divides the elements in the same manner with the given proportions, and gives its parts by number or by name. The keys of a fold or part are those of its elements; aligning with a list of keys moves every element with its key and refuses unknown keys; the text files give back folds, parts and names.",
      quant="every number of elements, classes, groups, folds and parts, every mask",
      why="a group that is both in training and test, or an element lost from the folds, makes every cross-validated error rate wrong without any failure",
      files=["hyperion/utils/fold_list.py", "hyperion/utils/train_val_eval_list.py"],
      mech=[("FoldList.create", "hyperion/utils/fold_list.py:FoldList.create"), ("FoldList.get_fold_idx", "hyperion/utils/fold_list.py:FoldList.get_fold_idx"), ("TrainValEvalList.create", "hyperion/utils/train_val_eval_list.py:TrainValEvalList.create")],
      note="selection, alignment and text round trips proved for all sizes; create is proved for one class with up to three folds or parts; several classes, masks and shuffling are bounded stand-ins"),
    dict(id="C16", title="Feature normalization, frame selection and energy VAD work on the frames they say",
      statement="Mean and variance normalization subtracts from frame t the mean, and divides by the deviation (with its floor), of the frames t-left..t+right that exist, after the global normalization, for every context; with no context, or with a window over the whole signal, it is the global normalization, and the three implementations (cumulative sums, convolution, direct) agree. Frame selection returns exactly the frames with a positive decision in their order, accepts lengths that differ up to the tolerance (the frames both have) and refuses others. Energy VAD decides frame t from the proportion, in the frames within the context, of log-energies over the threshold (constant plus scaled mean). Inputs are left as they were and options reach the objects.",
      quant="every number of frames and dimensions, every left and right context, every threshold, all values",
      why="an off by one in a window shifts features against their labels at the borders of every file; tests compare the implementations among themselves on one signal with one context",
      files=["hyperion/feats/feature_normalization.py", "hyperion/feats/frame_selector.py", "hyperion/feats/energy_vad.py"],
      mech=[("MeanVarianceNorm.normalize_cumsum", "hyperion/feats/feature_normalization.py:MeanVarianceNorm.normalize_cumsum"), ("FrameSelector.select", "hyperion/feats/frame_selector.py:FrameSelector.select"), ("EnergyVAD.compute", "hyperion/feats/energy_vad.py:EnergyVAD.compute")],
      note="proved for all sizes over the reals against the contracts of the convolutions and the linear filter; a wave with reflected edges and the option parsing are bounded stand-ins"),
    dict(id="C17", title="Short-time spectra, filter banks and cepstra follow their definitions",
      statement="Frame i of a short-time transform or log-energy is the windowed signal at i*shift, for every frame that fits, and the inverse transform overlaps and adds the frames over the added windows, which gives the signal back wherever a window covers it. The triangular filters of the Kaldi, ETSI and linear banks have their defining centers and slopes, and the normalized ones add up to one. The MFCC pipeline (offset filter, energy, pre-emphasis, spectrum, filter bank, cosine transform, lifter, energy in the first coefficient) gives its definition at every output step, a pipeline cut at any intermediate step gives the same result as the whole, and inputs are left as they were.",
      quant="every signal, frame length, shift, transform length, number of filters and cepstra, every pair of input and output steps",
      why="tests run one noise signal with the default options and compare with another path of the same code; frame offsets, bins and options other than the defaults are not settled by them",
      files=["hyperion/feats/stft.py", "hyperion/feats/feature_windows.py", "hyperion/feats/filter_banks.py", "hyperion/feats/mfcc.py"],
      mech=[("istft", "hyperion/feats/stft.py:istft"), ("make_mel_kaldi", "hyperion/feats/filter_banks.py:FilterBankFactory.make_mel_kaldi"), ("MFCC.compute", "hyperion/feats/mfcc.py:MFCC.compute")],
      note="proved for all sizes over the reals with the Fourier and cosine transforms as linear kernels and complex numbers as field elements; the transforms themselves, the window shapes, dither and reflected edges are bounded stand-ins"),
    dict(id="C18", title="Classifiers score with the likelihoods and posteriors of the model they estimate",
      statement="LinearGBE.fit gives the maximum likelihood or, with a prior, the maximum a posteriori means, counts and within-class covariance for labels, soft labels and sample weights, pooled or balanced over classes, and keeps the parameters it is told not to update; the log-likelihood is the class Gaussian, the linear score differs from it by the same amount for every class, the predictive score is the Student t of the posterior, and normalized scores are their log-softmax. LinearGBEUP adds the uncertainty of the segment to the class covariance. QScoringHomoGBE scores the ratio of product and prior integrals. LogisticRegression, BinaryLogisticRegression and LinearSVMC pass the data, class-prior weights and options to the estimator and predict with its decision function, with the log prior (odds) removed for the logit and added back for the posteriors; loading a saved model scores the same. Inputs are left as they were.",
      quant="every number of classes, dimensions and samples, all values, all options of prior, balance and update",
      why="there are no tests of the classifiers; a wrong normalization or prior shifts the scores of some classes only and no step fails",
      files=["hyperion/classifiers/linear_gbe.py", "hyperion/classifiers/linear_gbe_up.py", "hyperion/classifiers/q_scoring_homo_gbe.py", "hyperion/classifiers/logistic_regression.py", "hyperion/classifiers/binary_logistic_regression.py", "hyperion/classifiers/linear_svmc.py"],
      mech=[("LinearGBE.fit", "hyperion/classifiers/linear_gbe.py:LinearGBE.fit"), ("LinearGBE.eval_predictive", "hyperion/classifiers/linear_gbe.py:LinearGBE.eval_predictive"), ("LogisticRegression.fit", "hyperion/classifiers/logistic_regression.py:LogisticRegression.fit"), ("QScoringHomoGBE.predict", "hyperion/classifiers/q_scoring_homo_gbe.py:QScoringHomoGBE.predict")],
      note="proved for all sizes over the reals against the contracts of the matrix inverse, determinant, softmax and one-hot helpers (C09) and with the sklearn estimators as arbitrary coefficients; the number of classes of the logistic regression is 3 and 4; saving and loading is a bounded stand-in"),
    dict(id="C19", title="Clustering assigns to the closest centre and cuts the tree where the threshold says",
      statement="KMeans.predict returns for every sample the index of a centre such that no other centre is closer, and the squared distance to it; the centroids are the means of their samples (zero when empty); the seeds after the first are the samples farthest from the seeds before; fit alternates both steps from the seeds, reports the mean error after each epoch, stops at the first relative change under rtol and returns the assignment that belongs to the final centres. AHC.fit hands the linkage one distance for every pair above the diagonal, decreasing in the score, with masked pairs at the lowest score, and stores the merge heights back in the units of the scores; cutting at a threshold does exactly the merges that are not worse than it, cutting at a number of clusters does the first N-K merges, the table of all partitions has the same partition for every number of clusters, and the impurity curves are 1-homogeneity and 1-completeness of these partitions. Inputs are left as they were.",
      quant="every number of samples, dimensions and clusters, all values, all thresholds, metrics and masks",
      why="there are no tests of the clustering; a wrong partition is still a partition, and the error only shows when the tree merges already merged clusters or an empty cluster appears",
      files=["hyperion/clustering/kmeans.py", "hyperion/clustering/ahc.py"],
      mech=[("KMeans.fit", "hyperion/clustering/kmeans.py:KMeans.fit"), ("KMeans.predict", "hyperion/clustering/kmeans.py:KMeans.predict"), ("AHC.fit", "hyperion/clustering/ahc.py:AHC.fit"), ("AHC.get_flat_clusters_from_num_clusters", "hyperion/clustering/ahc.py:AHC.get_flat_clusters_from_num_clusters")],
      note="proved over the reals for all numbers of samples and dimensions; scipy's linkage, sklearn's scores and numpy's unique are taken at their contracts (any tree, any score); the number of epochs (3), of seeds (3) and of leaves of the cut tree (4) is fixed in the contracts that name them, larger ones are bounded stand-ins"),
    dict(id="C20", title="Data loaders hand the models the vectors, classes and trials that the lists name",
      statement="VectorReader and VectorClassReader return the vectors of the keys of their list, in its order and after the preprocessing, with class numbers that follow the sorted names or the given map; classes with too few samples go and classes with too many are pruned at the stated end or split in parts of one class with the stated size and overlap, anew in each read when asked to. The 3D tensors hold each class or sequence in order, zero padded, with weight one for the real rows. The trial readers resolve the evaluation set, keep the enrollment of the models of their part and the segments (or sub-segments) of their part, and the parts together are all the trials exactly once. The sequence readers count as many slices as the sequence has room for and fill every batch with whole slices of the right sequence. Options go to the argument of the same name, with their prefix, and PLDAFactory builds the model of the given type with them.",
      quant="every list, number of classes, sequences and trials, all sizes, options and parts",
      why="there are no tests of the loaders; a mismatch between vectors and labels or between parts and trials trains and scores without any error",
      files=["hyperion/helpers/vector_reader.py", "hyperion/helpers/vector_class_reader.py", "hyperion/helpers/trial_data_reader.py", "hyperion/helpers/multi_test_trial_data_reader.py", "hyperion/helpers/sequence_reader.py", "hyperion/helpers/sequence_post_reader.py", "hyperion/helpers/plda_factory.py", "hyperion/utils/tensors.py", "hyperion/utils/trial_ndx.py"],
      mech=[("VectorClassReader.read", "hyperion/helpers/vector_class_reader.py:VectorClassReader.read"), ("TrialDataReader", "hyperion/helpers/trial_data_reader.py:TrialDataReader.__init__"), ("to3D_by_class", "hyperion/utils/tensors.py:to3D_by_class"), ("SequenceReader.num_subseqs", "hyperion/helpers/sequence_reader.py:SequenceReader.num_subseqs"), ("TrialNdx.parse_eval_set", "hyperion/utils/trial_ndx.py:TrialNdx.parse_eval_set")],
      note="proved modularly: archives and lists are taken at the contracts of C10, C11 and C13; up to 3 classes or sequences in the tensors; the class pruning and splitting and the batches of the sequence readers are bounded stand-ins"),
]
NA = []
