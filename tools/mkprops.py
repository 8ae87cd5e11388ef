"""writes properties.jsonl (kept as a script so the statements stay readable)"""
import json, os
M = 'sidetopics/model/'
U = 'sidetopics/util/'
P = []


def prop(id, title, st, over, q, why, files, mech, obs=(), state=()):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=list(over), text=q), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(obs), hook_needed=None)))


prop('C01', 'Token streams are exactly the bag of words',
     "Turning a document-term count matrix into per-document lists of word observations yields, for every document, each word exactly as often as the matrix counts it, and nothing else inside the document's length. "
     "The order may be any permutation of those observations, whatever the random generator returns, and no read or write falls outside the arrays. "
     "This holds for the list used by each collapsed variational model (32-bit integer, single and double precision counts) and for the flat streams of both Gibbs samplers.",
     ['inputs', 'schedules'], "all sparse count matrices (including empty rows, rows of one word) and all random-generator outputs",
     "The tests fit one fixed synthetic corpus with a fixed generator seed and only look at perplexity afterwards.",
     [M + 'lda_cvb0_fast.pyx', M + 'lda_cvb_fast.pyx', M + 'lda_gibbs_fast.pyx', M + 'dmr_fast.pyx', M + 'lda_cvb0.py', M + 'lda_cvb.py', M + 'lda_gibbs.py', M + 'dmr.py'],
     [('expand then swap-shuffle inside each document', 'toWordList_i32/f32/f64 in lda_cvb0_fast.pyx and lda_cvb_fast.pyx'),
      ('flatten a CSR matrix into a token vector', 'flatten/flatten_native in lda_gibbs_fast.pyx, dmr_fast.pyx')],
     ['return values of toWordList, flatten'])
prop('C02', 'Zero-order collapsed variational counts match responsibilities',
     "In the zero-order collapsed variational topic model, each token's topic responsibilities are non-negative and sum to one before and after any number of updates, and are zero past the end of a document. "
     "The document-topic counts, topic-word counts and topic totals always equal the sums of those responsibilities (plus the counts of the model being queried or resumed), so every document's counts sum to its length and the grand total equals the number of tokens.",
     ['inputs', 'histories'], "all corpora, responsibilities, priors, iteration counts, and prior model counts, for single and double precision",
     "Tests run one corpus to convergence and check a perplexity threshold; drifting or leaking counts still give plausible perplexities.",
     [M + 'lda_cvb0_fast.pyx', M + 'lda_cvb0.py'],
     [('remove token, reweigh, renormalise, add token', 'iterate_f32/iterate_f64'), ('initial aggregation', 'calculateCounts_f32/f64'),
      ('add and subtract model counts around a query; fold the counts into the model after training', 'train()')],
     ['query state and model counts returned by train, query and the count aggregation'])
prop('C03', 'Full collapsed variational means and variances match responsibilities',
     "In the second-order collapsed variational topic model, after every update the mean counts equal the sums of the token responsibilities, and the variance counts equal the sums of r*(1-r) over the same responsibilities, each plus those of the model being queried. "
     "Responsibilities are non-negative and sum to one per token, and variances are never negative. "
     "Resuming training leaves a model whose stored means and variances are those of all the data it has seen.",
     ['inputs', 'histories'], "all corpora, responsibilities, priors, iteration counts, for single and double precision",
     "The only test checks a perplexity bound on one corpus; a wrong variance merely changes convergence.",
     [M + 'lda_cvb_fast.pyx', M + 'lda_cvb.py'],
     [('remove token, Taylor-corrected weight, renormalise, add token', 'iterate_f32/iterate_f64'), ('aggregation of means and variances', 'calculateCounts'), ('resume / query bookkeeping', 'train()')],
     ['query state and model counts returned by train and query'])
prop('C04', 'Gibbs topic sampler keeps its counts and stays in range',
     "For every sequence of random numbers, after any sweep of the Gibbs topic sampler each token has a topic in range (the drawn topic being the one whose share of the cumulative weights contains the random number), and the document-topic, topic-word and topic totals are exactly the histograms of those assignments (plus the model's counts when querying, whose topic-word counts a query must leave as they were). "
     "Sample sums accumulated after burn-in contain exactly the counts of the retained (thinned) sweeps, and no index leaves its array.",
     ['inputs', 'schedules', 'histories'], "all token streams, priors, burn-in/thinning settings and random sequences",
     "The sampler has no stable test, and its random numbers come from one fixed seed.",
     [M + 'lda_gibbs_fast.pyx', M + 'lda_gibbs.py'],
     [('remove token, cumulative weights, inverse-cdf draw, add token', 'sample() in lda_gibbs_fast.pyx'), ('initial assignment', 'initialise()/newQueryState')],
     ['arrays passed to and returned from the sampler'])
prop('C05', 'Feature-conditioned (DMR) sampler and prior update are consistent',
     "For every random sequence the feature-conditioned sampler keeps every count equal to the histogram of the current topic assignments and keeps all topics in range. "
     "The gradient handed to the optimiser is the exact derivative of the objective handed to it with respect to every feature weight, and the document priors are the exponential of features times weights, hence strictly positive.",
     ['inputs', 'schedules'], "all token streams, priors, feature weights, features and random sequences",
     "There is no test of this model in the stable suite, and a wrong gradient merely makes the optimiser stop early.",
     [M + 'dmr_fast.pyx', M + 'dmr.py'],
     [('sampler', 'sample() in dmr_fast.pyx'), ('objective and gradient of the weights', 'dmr.py')],
     ['arrays passed to the sampler; objective and gradient callbacks'])
prop('C06', 'Reported topic and word distributions are distributions',
     "The per-document topic distributions and per-topic word distributions a trained or queried model reports are non-negative, sum to one along each row, have one row per document or topic, and are proportional to the model's own parameters (counts or Dirichlet/mixture parameters). "
     "Asking for them changes nothing: repeated calls return the same answer.",
     ['inputs', 'histories'], "all reachable model and query states",
     "Tests never inspect the distributions themselves beyond perplexity.",
     [M + 'lda_cvb0.py', M + 'lda_cvb.py', M + 'lda_vb_python.py', M + 'lda_gibbs.py', M + 'mom_em.py', M + 'mom_gibbs.py', M + 'rtm.py', M + 'sim_based_rec.py'],
     [('normalising accessors', 'topicDists/wordDists/vocab in each model module')], ['return values and arguments of the accessors'])
prop('C07', 'Querying never changes the trained model',
     "Inferring topics for unseen documents leaves every parameter of the trained model (counts, priors, word distributions) at the values it had, for any query corpus, number of iterations and random choices, so a model can be queried repeatedly with the same result.",
     ['inputs', 'histories'], "all models, query corpora and plans",
     "Tests query a model once and never compare the model before and after.",
     [M + 'lda_cvb0.py', M + 'lda_cvb.py', M + 'lda_vb_python.py', M + 'mom_em.py', M + 'mom_gibbs.py', M + 'lda_gibbs.py'],
     [('add then subtract model counts', 'train(query=True) in lda_cvb0.py, lda_cvb.py'), ('copy or skip of parameter updates', 'query() in lda_vb_python.py, mom_em.py, mom_gibbs.py, lda_gibbs.py')], ['model state before and after query()'])
prop('C08', 'Copying a model copies everything and shares nothing',
     "A model created from an existing one equals it field by field, and later in-place changes to either never show in the other.",
     ['inputs'], "all model states of each topic model", "No test copies a model.",
     [M + 'lda_cvb0.py', M + 'lda_cvb.py', M + 'lda_vb_python.py', M + 'lda_gibbs.py', M + 'mom_em.py', M + 'mom_gibbs.py', M + 'rtm.py', M + 'dmr.py', M + 'ctm_bohning.py'],
     [('field-wise copy', 'newModelFromExisting in each model module')], ['the copied model state'])
prop('C09', 'Variational Dirichlet LDA conserves mass in its updates',
     "In the mean-field variational topic model, each document's variational topic parameters equal the prior plus that document's expected token counts, so they sum to the prior mass plus the document length; and the topic-word parameters after a full batch equal the word prior plus all expected counts, so their total is the prior mass plus the number of words in the corpus. "
     "Stochastic updates move the word parameters by exactly the stated step size towards the batch estimate, with every step size in (0, 1], and converting between Dirichlet parameters and mean per-token assignments round-trips.",
     ['inputs', 'histories'], "all corpora, priors, batch sizes and step sizes", "Tests only bound the final perplexity on a fixed corpus.",
     [M + 'lda_vb_python.py'],
     [('per-document coordinate ascent', '_inplace_update_topics_for_mem/_update_topics…'), ('batch, mini-batch and stochastic schedules', 'train() and helpers')], ['query and model state after training'])
prop('C10', 'Mixture models assign each document a distribution over clusters',
     "In the mixture-of-multinomials models, a document's cluster responsibilities are the normalised product of cluster weight and word likelihoods (expectation maximisation uses the exponentiated expected logs of the Dirichlet parameters; the Gibbs sampler the smoothed counts of the other documents); they are non-negative and sum to one. "
     "Re-estimated cluster weights and word distributions are the smoothed responsibility-weighted counts, and are proper distributions.",
     ['inputs', 'schedules'], "all corpora, parameters and random choices", "Tests bound perplexity on one corpus.",
     [M + 'mom_em.py', M + 'mom_gibbs.py'], [('E-step / M-step', 'train() in mom_em.py'), ('Gibbs sweep', 'train() in mom_gibbs.py')], ['query and model state after training'])
prop('C11', 'Log-likelihood and perplexity equal their definitions and change nothing',
     "The reported word log-likelihood of a corpus equals the sum over word occurrences of the log of the topic-weighted word probability (for the EM mixture, the log of the sum over clusters) under the distributions of the model's (smoothed) parameters, words with zero count contributing nothing. "
     "Perplexity is the exponential of minus that per word (counting links as well when the model predicts links), and evaluating either leaves model and query parameters at their values.",
     ['inputs'], "all corpora and model states", "Tests compare perplexity to loose thresholds.",
     [M + 'evals.py', M + 'lda_cvb0.py', M + 'lda_cvb.py', M + 'lda_vb_python.py', M + 'lda_gibbs.py', M + 'mom_em.py', M + 'mom_gibbs.py'],
     [('perplexity', 'perplexity_from_like, word_perplexity'), ('point likelihood', 'log_likelihood_point in each model')], ['return values; state before and after'])
prop('C12', 'Cross-validation folds partition the corpus',
     "For every corpus size and number of folds, the query parts of the folds are disjoint and together contain every document exactly once, and for each fold the training part is exactly the documents not in the query part. "
     "The words, features, links, categories and original-position record of each part are the rows of those documents.",
     ['inputs', 'configurations'], "all document counts, fold counts and fold ids", "No stable test splits a corpus whose size is not a multiple of the number of folds.",
     [M + 'common.py'], [('fold index arithmetic', 'DataSet.cross_valid_split_indices'), ('row selection', 'DataSet.cross_valid_split')], ['the two data sets returned'])
prop('C13', 'Document-completion splits conserve word counts',
     "Splitting a corpus for document completion gives two parts of non-negative whole counts that add up, entry by entry, to the original counts, for any random jitter and split proportion. "
     "With a minimum number of unique words, exactly the documents meeting it in both parts are kept, in order; a corpus with features is returned whole on both sides.",
     ['inputs', 'schedules'], "all count matrices, proportions, thresholds and jitters", "No stable test covers the split; a fixed seed hides extreme jitters.",
     [M + 'common.py'], [('jitter, round, subtract', 'DataSet.doc_completion_split')], ['the two data sets returned'])
prop('C14', 'Link splits conserve links',
     "Splitting a link matrix at random, or by fold, yields two matrices of the same shape that sum to the original, no link being present in both, whatever the shuffle; symmetric splits of symmetric matrices are symmetric. "
     "Across the folds no link is held out twice; each fold holds out floor(n / folds) of the n links of each document having at least the minimum number of links, and documents with fewer links than the minimum lose none of theirs.",
     ['inputs', 'schedules', 'configurations'], "all link matrices, shuffles, folds and minimum counts", "No stable test covers link splits.",
     [M + 'common.py'], [('random split', '_split, _split_symm, _symm_csr'), ('fold split', '_folded_split')], ['the link matrices returned'])
prop('C15', 'Document rows stay aligned across words, features, links, labels',
     "Whenever documents are reordered, pruned, shuffled or selected by feature or frequency, row i of the words, features, links and categories still belongs to the same document, the recorded order names that document's original row, square link matrices are reindexed on both axes, and exactly the documents (or words) meeting the criterion remain (or the first of them, when their number is limited).",
     ['inputs', 'schedules', 'histories'], "all matrices, orders, thresholds and shuffles", "No stable test covers these transformations.",
     [M + 'common.py'], [('coherent reindexing', 'DataSet._reorder, prune_and_shuffle, split_on_feature, words_with_min_freq, _reorder_link_matrix, dropcols_fancy, dropcols_coo')], ['the resulting data set'])
prop('C16', 'Ranking metrics equal their definitions',
     "Mean reciprocal rank, precision and recall at m, and mean average precision equal their textbook definitions (reciprocal rank averaged over expected links; a link given no score counting as not retrieved) over the documents that have expected links, for every set of scores without ties, and lie between zero and one. "
     "Breaking precision and recall down by link-count groups assigns each document to the group whose range holds its link count and to the overall group, without changing the caller's arguments.",
     ['inputs'], "all expected-link sets and score matrices", "No stable test covers the metrics.",
     [M + 'evals.py'], [('metrics', 'mean_reciprocal_rank, mean_prec_rec_at, mean_average_prec')], ['return values'])
prop('C17', 'Sparse-at-nonzeros kernels equal the dense formula',
     "Computing a function of the low-rank product only at the non-zero entries of a sparse matrix (scalar product, quotient, product with safe logarithm, entropy, sum of logs) gives exactly the dense formula's value at those entries and keeps the sparsity pattern, for every precision and row range (the result holding the rows of the range), refusing mixed precisions and column-major matrices, writing into the supplied output when one is given. "
     "No read or write falls outside the arrays.",
     ['inputs', 'configurations'], "all sparse patterns, factor matrices, precisions, layouts, and row ranges", "Tests use one random matrix per kernel and no partial row ranges.",
     [U + 'sparse_elementwise.py', U + 'se_fast.pyx'], [('per-nonzero dot products', 'sparseScalar* in se_fast.pyx and their Python dispatch and fallbacks')], ['returned sparse matrix'])
prop('C18', 'Overflow-safe helpers equal the naive formula without overflow',
     "The overflow-safe log, exponential, log-sum-exp, sigmoid and normalisation helpers equal the plain mathematical formula wherever that is defined, the safe ones never return NaN or infinity for finite inputs in their documented domain, and normalising in place rows of non-negative values with a positive sum yields rows that sum to one and are non-negative.",
     ['inputs'], "all finite inputs, including extreme magnitudes", "No stable test covers these helpers.",
     [U + 'overflow_safe.py', U + 'sigmoid_utils.py'], [('shift by the maximum / branch on sign', 'functions of overflow_safe.py, sigmoid_utils.py')], ['return values'])
prop('C19', 'The vec-transpose operators are reshapes that undo each other',
     "The vec-transpose of a matrix holds the same entries at the positions its definition gives, for dense matrices of any layout and precision and for sparse ones; applying it twice with the same block size returns the original, the commutation identities relating vec, vec-transpose and transposition hold, and no index leaves its array.",
     ['inputs', 'configurations'], "all matrices whose height is a multiple of the block size", "Tests use a few fixed matrices.",
     [U + 'vectrans.py', U + 'vt_fast.pyx'], [('index permutation', 'vec_transpose, vec_transpose_csr, sp_vec_trans_matrix, vec, and vt_fast.pyx')], ['returned matrices'])
prop('C20', 'Weighted sigmoid self-product kernels equal the dense formula',
     "The scaled, weighted self inner-product kernels used by the logistic bound equal the dense matrix formula including the scale factor, for every supported precision, with no out-of-bounds access.",
     ['inputs', 'configurations'], "all matrices, weights and scales", "Tests check one random matrix without a scale.",
     [U + 'sigmoid_utils.py', U + 'sig_fast.pyx'], [('kernels and dispatch', 'selfSoftDot, scaledSelfSoftDot in sigmoid_utils.py and sig_fast.pyx')], ['returned matrices'])
prop('C21', 'Training runs the requested iterations and stops only on convergence',
     "For every plan, a training run performs exactly the requested number of sweeps unless the stated convergence test fires, evaluates the bound and likelihood at the stated points, and returns iteration, bound and likelihood records of equal length with increasing iteration numbers. "
     "The convergence helper reports convergence exactly when the last improvement falls within the threshold, and clamping truncates the records to the entries actually written. This covers the batch training of the collapsed, mean-field, mixture, Gibbs, relational and feature-conditioned models.",
     ['inputs', 'configurations', 'histories'], "all iteration counts, logging frequencies, thresholds and sequences of bounds", "Tests use a handful of plans.",
     [M + 'lda_cvb0.py', M + 'lda_cvb.py', U + 'misc.py'], [('segment arithmetic', 'train() in lda_cvb0.py, lda_cvb.py'), ('helpers', 'converged, clamp, constantArray in misc.py')], ['records returned by train; helper return values'])
prop('C22', 'Link predictors keep every expected link and the true minimum',
     "The per-document minimum link probability is the smallest probability that document's expected links receive, and the predicted link matrix given those minima retains every expected link with its model probability (cosine similarity for recommenders, zero for documents without weighted words) and no link below the document's minimum, up to rounding. "
     "This holds for the similarity recommenders (also after TF-IDF weighting) and for the link-predicting topic models rtm, lro_vb, mtm2 and mtm3.",
     ['inputs'], "all corpora, expected links and model states", "No stable test covers link prediction.",
     [M + 'sim_based_rec.py', M + 'rtm.py', M + 'lro_vb.py'], [('minimum and thresholded probabilities', 'min_link_probs, link_probs in sim_based_rec.py, rtm.py, lro_vb.py')], ['returned minima and sparse matrix'])
prop('C23', 'Contributor-group selection and result roll-ups respect their totals',
     "Each evaluation group contributes between zero and all of its available contributors, all groups not exhausted contribute equally, and together they meet the target (or give all there is) within one per group; selecting users for a group takes the fewest that meet its target, nobody twice and nobody outside its range, and reports totals equal to the sums over those selected. "
     "Rolling per-group results up into coarser groups gives the document-weighted average of the members (zero without documents), and the table written out holds the figures read, names quoted.",
     ['inputs'], "all contributor tables, group limits and result tables", "The script's tests are not in the stable suite.",
     ['sidetopics/run/selectusers.py', 'sidetopics/run/reshape_results.py'], [('greedy selection', 'select_group_contribs'), ('weighted average', 'roll-up functions of reshape_results.py')], ['return values'])
prop('C24', 'The scikit-learn style wrapper reports what the underlying model reports',
     "Fitting, transforming and scoring through the estimator wrapper gives the same topic distributions, word distributions, likelihood and perplexity as calling the underlying model directly, for each supported algorithm but stochastic variational Bayes (expected scores only where the model offers them). "
     "Wrapper calls never change the caller's data, transforming unseen documents never changes the fitted model, and combinations a model cannot serve are refused with an error.",
     ['inputs', 'configurations', 'histories'], "all algorithms, corpora and call sequences", "Tests check perplexity thresholds per algorithm on one corpus.",
     [M + 'sklearn/lda_cvb.py'], [('dispatch', 'wrapper class in sklearn/lda_cvb.py')], ['public methods of the wrapper'])
prop('C25', 'Logistic-normal topic models update, align and query as their model says',
     "In the correlated topic models with Bohning's bound (ctm_bohning, ctm_grad_arb) and their feature-conditioned relatives (stm_uv_vecy_bohning, stm_yv_bohning, stm_yv), a training round makes each topic's word distribution its expected counts plus prior, normalised; "
     "in the correlated models the prior's mean is the average of the documents' means and its covariance the covariance of those means plus their average variance (the diagonal of it in fast mode); "
     "and, except in stm_yv, each document's variance and mean are those maximising its bound given that prior (for the feature models, the mean predicted from the document's features). "
     "Every document's means, variances, exponentiated means and length stay with that document, whatever order documents are given in. "
     "Querying these models updates means and variances by the same formulas, returns what it inferred, infers each document from its own words only (also in ctm), and changes neither the model nor the corpus.",
     ['inputs', 'histories'], "all corpora, parameter values and starting states", "The tests of these models are not in the stable suite and only print the bound.",
     [M + 'ctm.py', M + 'ctm_bohning.py', M + 'ctm_grad_arb.py', M + 'stm_yv.py', M + 'stm_yv_bohning.py', M + 'stm_uv_vecy_bohning.py'],
     [('coordinate updates', 'train() of each module'), ('inference on new documents', 'query() of each module')], ['returned model and query state'])
prop('C26', 'The evaluation driver trains, queries and scores each fold on the right data',
     "When evaluating a topic model, every document is held out in exactly one fold, the model of a fold is trained from the untouched template on the other documents only, and queried and scored on the held-out ones (each split into the part inference sees and the part it is judged on where the evaluation says so); failing folds are skipped. "
     "Random splits of counts move only entries of the chosen columns, lose and invent nothing, and clipping caps counts at one. Reported figures are the totals they claim: perplexities from summed likelihoods over summed words, averages weighted by the number of documents, and precision and recall of links and hashtags over the documents that have any. "
     "Popular words are the columns with the highest totals, and saved folds hold the model and state of that fold.",
     ['inputs', 'configurations', 'failures'], "all corpora, folds, failing folds, draws of the random split and model outputs", "No test runs the evaluation driver.",
     ['sidetopics/run/__main__.py'], [('cross-validation loops', 'the *_cross_val_and_eval_* and *_split_* functions'), ('splits', 'soft_split_on_indices'), ('averages', 'combine_map')], ['returned figures and printed report'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    print(len(P))
