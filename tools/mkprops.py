'Write /verif/properties.jsonl (the table of the properties).'
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': files,
                    'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                    'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
                    'observe_at': list(observe), 'hook_needed': None}})

prop('P01', 'Exponential-family priors: parameter maps, moments and divergences agree',
 'For every supported prior/posterior distribution (Dirichlet, Gamma, the three Normal-Gamma/Wishart families, diagonal and full Normal), converting standard parameters to natural parameters and back returns the same distribution, the reported expected statistics are the gradient of the log-normalizer with respect to the natural parameters, and the expected value is the true mean. '
 'The Kullback-Leibler divergence of two members is non-negative, zero only for equal members and equals its integral definition, and the entropy (where the base measure is constant) equals its integral definition. '
 'A batch of distributions behaves, element by element and slice by slice, exactly as the individual ones. Drawing from the Normal families gives independent samples - over draws, members and dimensions - with the moments of each member.',
 ['inputs', 'configurations'], 'all valid parameter values, dimensions, batch sizes (including none) and both float precisions',
 'the shipped distribution tests do not run on the installed libraries, and use a handful of fixed parameters',
 ['beer/dists/basedist.py', 'beer/dists/dirichlet.py', 'beer/dists/gamma.py', 'beer/dists/normal.py', 'beer/dists/normaldiag.py', 'beer/dists/normalgamma.py', 'beer/dists/isonormalgamma.py', 'beer/dists/normalwishart.py'],
 [('natural_parameters / from_natural_parameters', 'beer/dists/*.py'), ('expected_sufficient_statistics, log_norm', 'beer/dists/*.py'), ('kl_div, entropy', 'beer/dists/basedist.py')],
 [('params', 'standard parameters of one distribution or a batch', 'beer/dists/*StdParams')], ['return values of the distribution API'])

prop('P02', 'Likelihood functions evaluate the true log-density of their data',
 'For each likelihood (categorical, Gamma, Normal with isotropic, diagonal and full covariance), the inner product of the statistics of any observation with the vector built from any real parameters is the log-density of that observation, and reading the parameters back from that vector recovers them. '
 'Scoring observations against a posterior over parameters gives the exact posterior expectation of the log-density, for one model and for sets of models alike, and the Normal distributions themselves evaluate to their log-density, all-against-all as well as pairwise.',
 ['inputs', 'configurations'], 'all observations in the support, all parameter values, batch sizes and float precisions',
 'a wrong constant, sign or transposed block changes every score by a finite amount that no shape test notices; needs a second, independent computation of the density on arbitrary inputs',
 ['beer/dists/dirichlet.py', 'beer/dists/gamma.py', 'beer/dists/isonormalgamma.py', 'beer/dists/normalgamma.py', 'beer/dists/normalwishart.py', 'beer/dists/normal.py', 'beer/dists/normaldiag.py', 'beer/models/normal.py', 'beer/models/normalset.py', 'beer/models/categorical.py', 'beer/models/categoricalset.py', 'beer/models/gamma.py'],
 [('pdfvectors_from_rvectors, parameters_from_pdfvector, sufficient_statistics', 'beer/dists/*Likelihood'), ('expected_log_likelihood', 'beer/models/*.py')],
 (), ['return values of the likelihood and model API'])

prop('P03', 'Conjugate updates compute the exact Bayesian posterior',
 'After one full update at unit learning rate on a data set, the posterior of every conjugate model (Normal with each covariance type, sets of Normals given responsibilities, Categorical, Gamma rate) is the exact Bayes posterior of its prior given those data, whatever the current posterior was. '
 'With any other rate r the natural parameters move to (1-r) old + r exact, so a history of updates is the corresponding exponentially weighted average; the prior never changes.',
 ['inputs', 'histories'], 'all data sets, priors, starting posteriors, learning rates and update histories',
 'needs an independent closed-form posterior on arbitrary data and long update histories',
 ['beer/models/parameters.py', 'beer/models/normal.py', 'beer/models/normalset.py', 'beer/models/categorical.py', 'beer/models/categoricalset.py', 'beer/models/gamma.py', 'beer/inference/objectives.py', 'beer/inference/optimizers.py'],
 [('natural_grad_update', 'beer/models/parameters.py'), ('accumulate', 'beer/models/*.py'), ('backward', 'beer/inference/objectives.py')],
 [('prior, posterior, stats', 'prior, current posterior and accumulated statistics of a parameter', 'beer/models/parameters.py')], ['parameters of the posterior after each step'])

prop('P04', 'The ELBO is a lower bound of the log evidence, tight when inference is exact',
 'For every model of independent observations (conjugate models and their mixtures) and every state of its posterior, the reported evidence lower bound never exceeds the log evidence of the data, and for a fully conjugate model it equals the log evidence once the posterior is the exact one. '
 'For every model, the value reported on a minibatch is the data-size-scaled expected log-likelihood minus one global divergence.',
 ['inputs', 'histories'], 'all data sets, priors, posterior states reached by any history of updates, and minibatch sizes',
 'a bound can only be refuted by comparing with the marginal likelihood computed some other way (closed form or exhaustive enumeration of the latent variables)',
 ['beer/inference/objectives.py', 'beer/models/mixture.py', 'beer/models/normal.py', 'beer/models/categorical.py', 'beer/models/gamma.py', 'beer/dists/basedist.py'],
 [('evidence_lower_bound', 'beer/inference/objectives.py'), ('kl_div_posterior_prior', 'beer/models/basemodel.py'), ('_local_kl_divergence', 'beer/models/mixture.py')],
 (), ['value of the ELBO object'])

prop('P05', 'Coordinate ascent never decreases the variational objective',
 'Training with full-data updates at unit learning rate never decreases the variational objective of a conjugate model, mixture, mixture with stick-breaking weights or hidden Markov model with fixed transitions (beyond rounding), from any initialisation and for any schedule of its parameter groups. '
 'With the objective no longer increasing, the posterior is a fixed point of the update.',
 ['histories', 'inputs', 'schedules'], 'all data sets, initialisations, numbers of components and lengths of the training history',
 'monotonicity is a statement on whole training histories; a slightly wrong statistic or divergence still "trains"',
 ['beer/inference/objectives.py', 'beer/inference/optimizers.py', 'beer/models/mixture.py', 'beer/models/hmm.py', 'beer/models/categorical.py', 'beer/models/mixtureset.py', 'beer/models/parameters.py'],
 [('backward / step', 'beer/inference'), ('accumulate', 'beer/models/*.py')],
 (), ['ELBO value before and after each step, posterior parameters'])

prop('P06', 'Accumulated statistics do not depend on how or in which order data are split',
 'Accumulating the objective over any partition of the data into batches (per frame for models of independent frames, per utterance for sequence models), in any order and any association, gives the same total statistics and the same parameter update as one pass over all of it; an empty accumulator is neutral. Objectives of several models add up the same way: every parameter gets the statistics of all the models it belongs to. '
 'When only part of the declared data size is seen, the applied statistics are those seen scaled by declared size over seen size, and objectives of different declared data sizes are refused.',
 ['histories', 'schedules', 'inputs'], 'all partitions, orders and groupings of batches, and all declared data sizes',
 'a test samples one split; the guarantee (which distributed training depends on) is over all of them',
 ['beer/inference/objectives.py', 'beer/models/hmm.py', 'beer/models/mixture.py', 'beer/models/phoneloop.py', 'beer/models/modelset.py'],
 [('EvidenceLowerBoundInstance.__add__, add_acc_stats, scale', 'beer/inference/objectives.py')],
 [('_acc_stats, _minibatchsize, _datasize', 'accumulated statistics and counts', 'beer/inference/objectives.py')], ['statistics stored in the parameters after the backward pass'])

prop('P07', 'Forward-backward inference returns the exact posteriors of the state graph',
 'For any compiled graph and any per-frame scores, the state posteriors, the transition posteriors and the normalizer are those obtained by summing over every state path weighted by initial, transition, final probability and scores. '
 'State posteriors sum to one in every frame and are the marginals of the transition posteriors, for sequences of any length (down to one frame) and scores of any magnitude, without overflow or NaN.',
 ['inputs', 'configurations'], 'all graphs with an admissible path, all score matrices and lengths',
 'exactness needs enumeration of all paths for many random graphs; stability needs long sequences and extreme scores',
 ['beer/graph.py', 'beer/models/hmm.py', 'beer/utils.py'],
 [('posteriors, forward/backward recursions', 'beer/graph.py'), ('HMM._inference, HMM.posteriors', 'beer/models/hmm.py')],
 (), ['returned posteriors'])

prop('P08', 'Decoding returns an admissible path of maximal score',
 'The decoded state path has one state per frame, starts in a possible initial state, only follows existing transitions, ends in a possible final state, and no other path has a higher total score. '
 'The decoded sequence of densities is that path read through the graph\'s state-to-density map, under any acoustic scale and any supplied alignment graph.',
 ['inputs', 'configurations'], 'all graphs, score matrices, lengths, scales and alignment graphs',
 'optimality is a statement on the exponentially many other paths',
 ['beer/graph.py', 'beer/models/hmm.py'],
 [('best_path', 'beer/graph.py'), ('decode', 'beer/models/hmm.py')], (), ['returned paths'])

prop('P09', 'Building, nesting and compiling a graph preserves its path distribution',
 'Substituting a graph for a state redirects exactly the arcs of that state to the entry and exit of the substitute, normalising makes outgoing weights of each state sum to one without changing their ratios, and neither alters anything else. '
 'Compiling gives initial, final and transition probabilities between emitting states equal to the total weight of the paths through non-emitting states (initial and final ones normalised, self-loop probabilities kept as written, the rest of the row scaled accordingly), and one entry per emitting state mapping it to its density.',
 ['inputs', 'programs'], 'all graphs (any number and nesting of non-emitting states and any order of construction)',
 'needs an independent computation of path weights for arbitrary construction histories',
 ['beer/graph.py', 'beer/cli/subcommands/hmm/mkaligraph.py', 'beer/cli/subcommands/hmm/mkdecodegraph.py'],
 [('replace_state, normalize, find_next_pdf_ids, find_previous_pdf_ids, compile', 'beer/graph.py')],
 [('_states, _arcs', 'states and weighted arcs of a graph', 'beer/graph.py')], ['arcs, states and compiled matrices'])

prop('P10', 'Sequence-model statistics are conserved and confined to the alignment graph',
 'The statistics an utterance contributes to a hidden Markov model are the per-frame density posteriors applied to the frame statistics: each frame contributes total mass one (times the acoustic scale), shared densities receive the sum over the states using them, and nothing else changes. '
 'With an alignment graph, a state path or Viterbi training, only densities reachable in that graph or on that path receive mass, and the statistics equal those of the exact posteriors restricted to it.',
 ['inputs', 'configurations'], 'all models, density sharing patterns, utterances, acoustic scales, alignment graphs and paths',
 'conservation and confinement must hold for each utterance and alignment, not the sampled ones',
 ['beer/models/hmm.py', 'beer/models/modelset.py', 'beer/models/mixtureset.py', 'beer/graph.py'],
 [('expected_log_likelihood / accumulate', 'beer/models/hmm.py'), ('DynamicallyOrderedModelSet.accumulate', 'beer/models/modelset.py')],
 [('cache', 'responsibilities of the last utterance', 'beer/models/basemodel.py')], ['accumulated statistics per parameter'])

prop('P11', 'Phone-loop transitions always follow the current unit weights',
 'After construction and after every update of the unit weights, the transition from the last state of a unit to the first state of a unit is (1 - self-loop probability) times the exponentiated expected log-weight of the entered unit (given the left unit for a bigram loop), and no other transition, self-loop or initial probability ever changes. '
 'The counts learned by the weights are the posterior expected number of entries in each unit (pairs of units for the bigram loop), and training with an alignment graph contributes no counts to them.',
 ['histories', 'inputs', 'configurations'], 'all update histories, weight priors, numbers of units and unit topologies with distinct first and last states',
 'the graph is synchronised through callbacks on update; only whole histories show a lost or repeated synchronisation',
 ['beer/models/phoneloop.py', 'beer/models/parameters.py', 'beer/models/categorical.py', 'beer/models/categoricalset.py'],
 [('_on_weights_update', 'beer/models/phoneloop.py'), ('register_callback / dispatch', 'beer/models/parameters.py')],
 [('graph.trans_log_probs', 'transition log-probabilities used for inference', 'beer/graph.py')], ['transition matrix after each step'])

prop('P12', 'Stick-breaking weights form a consistent truncated stick-breaking process',
 'For any counts, the update of a stick-breaking categorical gives each stick the counts of its own component and of all components later in the (size-descending) order, so the posterior is the exact Beta posterior; the mean weights are positive, sum to less than one, and are returned in the order of the components. '
 'Expected log-probabilities are the sums of expected log-sticks in that order, consistently for the score, the mean and the prior; with a hyper-prior the concentration posterior is the exact Gamma posterior given the sticks and the prior of the sticks follows its mean; the sets under a common root use the root\'s order and mean.',
 ['histories', 'inputs'], 'all count vectors (ties and zeros included), truncations, concentrations and update histories',
 'the ordering state changes with every update; only histories with reorderings reveal an inconsistent permutation',
 ['beer/models/categorical.py', 'beer/models/categoricalset.py', 'beer/models/parameters.py'],
 [('_transform_stats, _log_prob, mean', 'beer/models/categorical.py'), ('_on_stickbreaking_update', 'beer/models/categorical.py'), ('_default_set_sb_param', 'beer/models/categoricalset.py')],
 [('ordering', 'current order of the sticks', 'beer/models/categorical.py')], ['posterior parameters, mean and scores after each update'])

prop('P13', 'Composite models behave as their components do',
 'Indexing, slicing, concatenating, repeating or reordering sets of models gives models that score and accumulate exactly as the corresponding members on the same data; the score of a mixture is the log-sum of weighted member scores and its posteriors are the normalised weighted member likelihoods, for a mixture alone and within a set. '
 'Statistics of the members are responsibility-weighted, add up over shared members, and the mean-field groups of a composite contain each parameter exactly once.',
 ['inputs', 'configurations'], 'all nestings of sets, sizes, index expressions, responsibilities and data',
 'the combinations of set types and slices are unbounded; each must agree with its parts',
 ['beer/models/modelset.py', 'beer/models/mixture.py', 'beer/models/mixtureset.py', 'beer/models/normalset.py', 'beer/models/categoricalset.py', 'beer/models/basemodel.py'],
 [('expected_log_likelihood, accumulate, __getitem__, mean_field_factorization', 'beer/models/*set.py')], (), ['scores, statistics, posteriors'])

prop('P14', 'Distributed training by commands equals in-process training',
 'Accumulating disjoint parts of a data set in separate processes and updating from their files gives the model that in-process training gives on the whole data set, for any split, order of the parts and utterances, acoustic scale and alignments; the update also equals the corresponding single-command training. '
 'Utterances missing from the data set are skipped without any effect on the result, and the input model, data set and accumulator files are never modified.',
 ['histories', 'schedules', 'configurations'], 'all splits of the utterance list over processes, orders, iteration counts, missing utterances and alignment sets',
 'crosses process boundaries (serialised models and objectives re-linked by identity), out of reach of the unit tests',
 ['beer/cli/subcommands/hmm/accumulate.py', 'beer/cli/subcommands/hmm/update.py', 'beer/cli/subcommands/hmm/train.py', 'beer/inference/objectives.py', 'beer/models/parameters.py'],
 [('main', 'beer/cli/subcommands/hmm/accumulate.py'), ('main', 'beer/cli/subcommands/hmm/update.py'), ('sync', 'beer/inference/objectives.py')],
 (), ['model files after each command'])

prop('P15', 'Saved state resumes training exactly where it stopped',
 'Stopping after any number of training steps, saving model and optimizer state, and resuming in a fresh process yields the same parameters as training without interruption, for single-machine, distributed and subspace training. '
 'A model read back from disk scores, decodes and updates exactly as the one that was saved, with its update notifications still attached.',
 ['crash_points', 'histories'], 'all interruption points of all training histories, and all model types',
 'needs each interruption point compared with the uninterrupted run',
 ['beer/inference/optimizers.py', 'beer/cli/subcommands/hmm/update.py', 'beer/cli/subcommands/shmm/train.py', 'beer/models/parameters.py', 'beer/dists/basedist.py'],
 [('state_dict / load_state_dict', 'beer/inference/optimizers.py'), ('pickling of models, callbacks and views', 'beer/models/*.py')],
 [('update_count, lrate', 'position in the schedule of the groups', 'beer/inference/optimizers.py')], ['model parameters after resuming'])

prop('P16', 'Each optimizer step updates exactly one parameter group, in rotation',
 'Each step of the conjugate optimizer updates the parameters of exactly one mean-field group, all of them once, in round-robin order, and leaves every other posterior, every prior that is not itself derived from an updated parameter, and every accumulated statistic outside that group as they were; starting a step clears all accumulated statistics. '
 'Observers of a parameter are notified once before and once after each of its updates, and a combined optimizer makes one step of each of its optimizers.',
 ['schedules', 'histories'], 'all group structures, numbers of steps, interleavings of accumulation and steps, and registered observers',
 'a property of event sequences over many steps',
 ['beer/inference/optimizers.py', 'beer/models/parameters.py', 'beer/models/basemodel.py'],
 [('VBConjugateOptimizer.step/init_step', 'beer/inference/optimizers.py'), ('dispatch', 'beer/models/parameters.py')],
 [('update_count', 'number of steps made', 'beer/inference/optimizers.py')], ['event log of updates and notifications, posteriors after each step'])

prop('P17', 'Subspace models map latent vectors to densities and write them through',
 'The densities a generalized subspace model assigns to its units are those obtained by mapping the sampled latent vectors through the sampled affine transform and the likelihood\'s parameterisation, averaged over the samples, and updating a unit view changes exactly that unit\'s slice of the shared parameters. '
 'Its objective is the sum over units of the inner product of those densities with the unit\'s statistics minus the sampled latent divergence, minus the divergence of the shared parameters; statistics of the latent prior are those of the samples.',
 ['inputs', 'configurations', 'histories'], 'all unit models, latent dimensions, sample counts, posterior types and update histories, for the plain, class-structured and hierarchical variants',
 'stochastic objective over views of shared memory; needs recomputation from the recorded samples',
 ['beer/models/gsm.py', 'beer/models/parameters.py'],
 [('expected_log_likelihood, update_models, views', 'beer/models/gsm.py')],
 [('pdfvec, stats', 'expected density vector and statistics of a subspace parameter', 'beer/models/gsm.py')], ['objective value, densities of the units'])

prop('P18', 'Back-propagated gradients are those of the reported objective',
 'For models with gradient-trained parameters (variational auto-encoder, subspace models) the gradients left by the backward pass equal the derivative of minus the reported objective with respect to each parameter under the same random draws, the posteriors of hidden variables of a prior being held fixed, so a small step along them increases the objective accordingly. '
 'Statistics stored for the conjugate parameters carry no computation graph, and calling the pass for conjugate parameters only leaves all gradients untouched.',
 ['inputs', 'configurations'], 'all networks, data, sample counts and objective weights',
 'a detached or doubly counted term leaves values right and gradients wrong',
 ['beer/inference/objectives.py', 'beer/models/vae.py', 'beer/models/gsm.py', 'beer/models/mixture.py'],
 [('backward', 'beer/inference/objectives.py'), ('expected_log_likelihood', 'beer/models/vae.py')], (), ['gradients of the parameters'])

prop('P19', 'The variational auto-encoder objective and densities are what they claim',
 'The per-frame objective of the auto-encoder is the weighted mean, over latent samples, of the decoder log-density of the frame minus the weighted sampled divergence between the encoder posterior and the latent prior (of any kind, mixtures and hidden Markov models included, whose responsibilities are shared by the samples of a frame), each frame using only its own samples. '
 'Encoder and decoder outputs are proper diagonal Normals with positive variances computed row by row, samples follow them, and the statistics given to the prior are those of the samples.',
 ['inputs', 'configurations'], 'all encoders/decoders, priors, data, sample counts and weights',
 'errors that mix samples across frames or mis-scale one term only show against an independent recomputation from the drawn samples',
 ['beer/models/vae.py', 'beer/dists/normaldiag.py', 'beer/nnet/residual.py'],
 [('expected_log_likelihood, posteriors, pdfs', 'beer/models/vae.py')], (), ['objective per frame, statistics'])

prop('P20', 'Autoregressive networks are autoregressive and flow densities are exact',
 'Every output dimension of an autoregressive network depends only on strictly earlier input dimensions (and on the side input) and, with enough hidden units, on all of them, whatever the depth (one layer or more), width and random connectivity, and its variances stay within (0, 1.01]. '
 'The log-density returned with a sample of an inverse autoregressive flow is the exact log-density of that sample, i.e. the base density corrected by the log-determinant of the Jacobian of the flow.',
 ['inputs', 'configurations'], 'all input dimensions, depths, widths, random connectivities, weights and inputs',
 'connectivity is random at construction; the existing tests check masks built from fixed lists only',
 ['beer/nnet/arnet.py', 'beer/nnet/problayers.py', 'beer/nnet/neuralnetwork.py'],
 [('create_mask, create_final_mask, MaskedLinear', 'beer/nnet/arnet.py'), ('samples_and_llh', 'beer/nnet/problayers.py')], (), ['Jacobians of the network outputs, returned log-densities'])

prop('P21', 'Network descriptions build the described function; layers give true densities',
 'A network built from its textual description computes exactly the composition written there: elements with the given arguments in order, merged elements summed, residual connections added, blocks chained, without modifying its inputs. '
 'Probabilistic output layers return the parameters, samples and log-densities of the distribution they name, for all inputs.',
 ['programs', 'inputs'], 'all valid descriptions, layer kinds, arguments and inputs',
 'existing tests build single elements; composition, merging and densities over arbitrary descriptions are not covered',
 ['beer/nnet/neuralnetwork.py', 'beer/nnet/problayers.py', 'beer/nnet/residual.py'],
 [('create, create_nnet_block, create_nnet_element, MergeTransform', 'beer/nnet/neuralnetwork.py'), ('log_likelihood, samples_and_llh', 'beer/nnet/problayers.py')], (), ['outputs of the built network'])

prop('P22', 'Extracted features are the documented function of the signal',
 'For any signal of at least one frame, sampling rate and configuration, the extracted features equal the documented chain (framing, pre-emphasis, Hamming window, magnitude spectrum, triangular filters on the perceptual scale, log, cosine transform, liftering, energy, derivatives, mean normalisation) computed frame by frame, with one row per full frame and only finite values. '
 'The signal is left unmodified, and each utterance of a list is processed independently of the others.',
 ['inputs', 'configurations'], 'all signals (silence, clipping, impulses, noise), lengths, rates and option combinations',
 'strided framing and vectorised filters are easy to get subtly wrong at the edges; needs a slow reference over many configurations',
 ['beer/features.py', 'beer/cli/subcommands/features/extract.py'],
 [('short_term_mspec, fbank, create_fbank, add_deltas', 'beer/features.py'), ('main, compute_dct_bases', 'beer/cli/subcommands/features/extract.py')], (), ['feature matrices and files'])

prop('P23', 'A compiled data set describes its feature archive exactly',
 'The frame count, mean and variance of a compiled data set are those of all frames of its archive, every utterance is delivered exactly once per iteration with its own features under its own identifier, sorted by identifier or in an order that only depends on the seed, and random access returns the same features. '
 'Archiving a directory of features stores every matching file once, unchanged, under the name of its utterance.',
 ['inputs', 'histories'], 'all archives (utterance counts, lengths, dtypes, names) and access histories, including reload from disk',
 'needs comparison on arbitrary archives and access patterns across processes',
 ['beer/cli/dataset.py', 'beer/cli/subcommands/dataset/create.py', 'beer/cli/subcommands/features/archive.py'],
 [('accumulate', 'beer/cli/subcommands/dataset/create.py'), ('utterances, __getitem__', 'beer/cli/dataset.py'), ('main', 'beer/cli/subcommands/features/archive.py')], (), ['data set object, iteration log'])

prop('P24', 'Decoding and posterior commands report what the model computes',
 'The transcription printed for an utterance is the sequence of units entered along the model\'s best path (one label per frame on request), one line per utterance found, under the given acoustic scale, utterance list and alignments. '
 'Exported posteriors have one row per frame summing to one, per-unit values being the sums of those of the unit\'s states, in the order of the units, in the log domain on request.',
 ['inputs', 'configurations'], 'all models, unit inventories, data sets, scales, utterance lists and alignments',
 'end-to-end commands are not tested at all',
 ['beer/cli/subcommands/hmm/decode.py', 'beer/cli/subcommands/hmm/posteriors.py', 'beer/models/hmm.py'],
 [('state2phone, main', 'beer/cli/subcommands/hmm/decode.py'), ('state2phone, main', 'beer/cli/subcommands/hmm/posteriors.py')], (), ['standard output, saved arrays'])

prop('P25', 'Scoring tools report the defined metrics',
 'The token error rate is the total minimal edit distance over the total reference length, the boundary scores are the precision, recall, F-score of boundaries greedily matched to the nearest unmatched one within the tolerance, the mutual information is that of the aligned label counts, and label mapping and alignment conversion preserve every label. '
 'Identical transcriptions score perfectly, and scores do not depend on the order of the utterances in the files.',
 ['inputs'], 'all reference/hypothesis pairs (empty, repeated, unknown labels, missing utterances) and orders of the files',
 'one doctest covers a single pair; metrics must be right on all',
 ['recipes/aud/utils/ter.py', 'recipes/aud/utils/score_boundaries.py', 'recipes/aud/utils/nmi.py', 'recipes/aud/utils/maptrans.py', 'recipes/aud/utils/maxoverlap_mapping.py', 'recipes/aud/utils/ali2trans.py', 'recipes/aud/utils/convert_align.py'],
 [('wer', 'recipes/aud/utils/ter.py'), ('get_hits', 'recipes/aud/utils/score_boundaries.py')], (), ['printed scores'])

prop('P26', 'Model-building commands give every unit its own chain in a complete loop',
 'The commands building a phone loop from a unit list and a topology produce one chain per unit with its own consecutive densities (one per emitting state, initialised from the data statistics of its group\'s settings), a loop in which every unit can follow every unit and be first and last as configured, entry/exit maps naming each unit\'s first and last density, and a model ready for inference with unit weights at the mean of their prior (uniform unless stick-breaking). '
 'Alignment graphs accept exactly the state sequences of the given transcription.',
 ['configurations', 'inputs'], 'all unit lists, group layouts, topologies, prior types and transcriptions',
 'the chain of commands is never exercised by the tests',
 ['beer/cli/subcommands/hmm/mkphones.py', 'beer/cli/subcommands/hmm/mkphoneloopbigram.py', 'beer/cli/subcommands/hmm/mkphoneloopgraph.py', 'beer/cli/subcommands/hmm/mkdecodegraph.py', 'beer/cli/subcommands/hmm/mkphoneloop.py', 'beer/cli/subcommands/hmm/mkaligraph.py', 'beer/cli/subcommands/hmm/phonelist.py'],
 [('main', 'beer/cli/subcommands/hmm/mk*.py')], (), ['written files'])

prop('P27', 'Subspace phone-loop commands keep model, units and latent files consistent',
 'Building, initialising, setting the prior of and training a subspace phone loop only changes the emission densities of the modelled unit group and the subspace files: after each command every unit\'s densities are proper (normalised weights, positive variances), are the ones drawn from the subspace model and latent posteriors under the seed of the command (training, which equals in-process training, leaves those of its last objective), and all other parameters, transitions and groups are as in the input. '
 'Flags that freeze a part leave exactly that part unchanged.',
 ['configurations', 'histories'], 'all group layouts, latent dimensions, class assignments, freezing flags and sequences of these commands',
 'multi-command pipelines over views of shared memory are untested',
 ['beer/cli/subcommands/shmm/mksphoneloop.py', 'beer/cli/subcommands/shmm/init.py', 'beer/cli/subcommands/shmm/setprior.py', 'beer/cli/subcommands/shmm/train.py', 'beer/cli/subcommands/hshmm/mksphoneloop.py', 'beer/cli/subcommands/hshmm/init.py', 'beer/cli/subcommands/hshmm/train.py'],
 [('main', 'beer/cli/subcommands/shmm/*.py'), ('SubspaceBayesianParameterView', 'beer/models/gsm.py')], (), ['written files'])

prop('P28', 'Evaluating a model never changes it, and results are reproducible',
 'Scoring, decoding, computing posteriors or the objective and accumulating statistics change no parameter, no prior, no transition, no input tensor and no result of a later evaluation, and repeated evaluation gives identical results; only an optimizer step changes a model. '
 'The floating-point precision of the inputs is kept, derived quantities of models are valid (means, covariances positive definite, weights in the simplex), and sampling draws from the stated distribution reproducibly for a seed.',
 ['histories', 'inputs'], 'all interleavings of evaluations on all models and data',
 'aliasing of buffers (statistics, caches, slices) only shows in particular sequences of calls',
 ['beer/models/basemodel.py', 'beer/models/mixture.py', 'beer/models/hmm.py', 'beer/models/modelset.py', 'beer/dists/normaldiag.py', 'beer/dists/normal.py', 'beer/utils.py'],
 [('cache handling', 'beer/models/basemodel.py'), ('sample', 'beer/dists/*.py')], (), ['snapshots of all tensors before and after each call'])

prop('P29', 'Numerical helpers compute exactly what they document',
 'Log-sum-exp along any axis is exact to rounding for every scale of finite, impossible (-inf) and infinite entries and its gradient is the softmax; one-hot coding puts a single one per label; symmetrising gives the symmetric part and enforcing positive definiteness raises the eigenvalues below the given fraction of the largest to it and changes nothing else; samples of Normals have the stated shape, moments and re-parameterised gradients; the Jacobians are those of every output with respect to every input whatever was differentiated before, and the approximated Hessian is the sum of outer products. '
 'Reserving a GPU returns one that is not in use and on which memory could be allocated (and makes it the visible one), or raises after the given number of attempts. No helper changes its arguments.',
 ['inputs', 'histories'], 'all tensors, shapes, axes, precisions, label sequences, matrices and machine states',
 'helpers are tested on one small float matrix each; scale, axis, infinity and repeated differentiation only show on other inputs',
 ['beer/utils.py'],
 [('logsumexp, onehot, make_symposdef, sample_from_normals, jacobians, approximate_hessian, reserve_gpu', 'beer/utils.py')], (), ['return values', 'gradients', 'allocations requested'])

prop('P30', 'Recipe tools map, score and split data without losing or inventing any',
 'Splitting a list of utterances into parallel jobs processes every utterance exactly once, for every number of jobs and whatever was run in the directory before. '
 'The tools of the TIMIT recipe convert between phones, units and states losslessly (state labels, unit and phone sequences of alignments, phone mappings, speaker labels, stacked features), build the phone-loop decoding graph of the given phones with normalised weights, and report the phone error rate, the feature moments and the mutual information of exactly the utterances that both sides have. '
 'Preparing a corpus (the TIMIT layouts, read speech with transcriptions through a lexicon or in characters, archives) gives every set exactly its utterances, with their audio files, transcriptions, speakers and frame-level alignments, and names units one to one.',
 ['inputs', 'configurations', 'histories'], 'all transcriptions, alignments, mappings, feature archives, numbers of jobs and previous runs',
 'these scripts have no tests and their failures (an utterance lost or counted twice) only change a number',
 ['recipes/aud/utils/parallel/split.sh', 'recipes/aud/utils/parallel/submit_parallel.sh', 'recipes/aud/utils/parallel/sge/jobarray.qsub', 'recipes/timit_v2/utils/score.py', 'recipes/timit_v2/utils/pdf2unit.py', 'recipes/timit_v2/utils/convert_states_to_phone.py', 'recipes/timit_v2/utils/convert-ali-to-best-path.py', 'recipes/timit_v2/utils/compare-alignments.py', 'recipes/timit_v2/utils/mutual-information.py', 'recipes/timit_v2/utils/features-stack-parallel.py', 'recipes/timit_v2/utils/features-stats.py', 'recipes/timit_v2/utils/create-decode-graph.py', 'recipes/timit_v2/utils/prepare-decode-graph.py', 'recipes/timit_v2/local/timit-norm-trans.py', 'recipes/timit_v2/local/timit_lang_prep.py', 'recipes/timit_v2/utils/prepare_trans.py', 'recipes/timit_v2/utils/prepare_state_labels.py', 'recipes/timit_v2/utils/prepare-spk-labels.py', 'recipes/timit_v2/local/timit_data_prep.sh', 'recipes/aud/local/timit/prepare_data.sh', 'recipes/aud/local/timit/phone_ali.py', 'recipes/aud/local/timit/timit-norm-trans.py', 'recipes/aud/local/timit/timit_lang_prep.py', 'recipes/aud/local/alffa/prepare_transcripts.py', 'recipes/aud/local/google_lr/prepare_transcripts.py', 'recipes/aud/local/alffa/prepare_data.sh', 'recipes/aud/local/google_lr/prepare_data.sh', 'recipes/aud/local/mboshi/prepare_data.sh', 'recipes/aud/local/zrc2019/prepare_data.sh', 'recipes/zrc2019/local/zrc2019/prepare_data.sh'],
 [('main', 'recipes/timit_v2/utils/*.py'), ('split and array jobs', 'recipes/*/utils/parallel/*')], (), ['written files', 'standard output', 'utterances seen by the jobs'])

prop('P31', 'Factories create models with the requested prior, expectation and strength',
 'The documented factories (Normal.create, NormalSet.create, Categorical/CategoricalSet/Mixture/MixtureSet/PhoneLoop/Bigram default weights, Gamma.create, AffineTransform and GSM latent posteriors) create models whose prior and posterior have the requested mean, covariance (a value, a diagonal or a matrix), covariance type, weights and number of pseudo-observations, with the initial means scattered by exactly the requested noise; one update then weighs prior and data by these counts. '
 'Models made from the same arguments are independent of each other and of the arguments.',
 ['inputs', 'configurations'], 'all means, covariances, weights, strengths, noise levels, sizes, covariance types and precisions',
 'a wrong default or a shared tensor only shows in the values of later updates; tests create a few models of one size',
 ['beer/models/normal.py', 'beer/models/normalset.py', 'beer/models/categorical.py', 'beer/models/categoricalset.py', 'beer/models/gamma.py', 'beer/models/mixture.py', 'beer/models/mixtureset.py', 'beer/models/phoneloop.py', 'beer/models/gsm.py'],
 [('create', 'beer/models/*.py')], (), ['priors and posteriors after creation', 'parameters after one update'])

prop('P32', 'Recipe steps complete or fail, resume, and do not depend on the number of jobs',
 'The steps of the AUD recipe (monophone, unit discovery, bigram, subspace and hierarchical subspace training, alignment, decoding, posteriors, features, data set, scoring) run the documented sequence of commands with the given options: the models of every epoch, the transcriptions, posteriors, features and scores are those of the commands run directly on the same inputs, whatever the number of parallel jobs (more or fewer than utterances) and the order in which the jobs run. '
 'A failed command or job ends the step with a non-zero status; after a failure or an interruption between two commands (also with another number of jobs) the next run resumes and gives the same result; more epochs continue from the last model; a finished step called again does nothing; inputs are never changed. '
 'Corpora are merged and their units, transcriptions and prefixes prepared with exactly the selected utterances.',
 ['inputs', 'configurations', 'histories', 'crash_points', 'schedules'], 'all corpora, models, options, numbers of jobs, job orders, failing commands, interruptions and repeated or extended runs',
 'the scripts are not tested at all; a lost or doubled part of the data only changes numbers',
 ['recipes/aud/steps/aud.sh', 'recipes/aud/steps/aud_bigram.sh', 'recipes/aud/steps/monophone.sh', 'recipes/aud/steps/align.sh', 'recipes/aud/steps/decode.sh', 'recipes/aud/steps/posteriors.sh', 'recipes/aud/steps/extract_features.sh', 'recipes/aud/steps/create_dataset.sh', 'recipes/aud/steps/extract_mbn_features.sh', 'recipes/aud/steps/subspace_monophone.sh', 'recipes/aud/steps/subspace_aud.sh', 'recipes/aud/steps/hsubspace_monophone.sh', 'recipes/aud/steps/hsubspace_aud.sh', 'recipes/aud/steps/score_aud.sh', 'recipes/aud/steps/score_ter.sh', 'recipes/aud/utils/add_corpus.sh', 'recipes/aud/utils/add_prefix.py', 'recipes/aud/utils/entropy_rate.py', 'recipes/aud/utils/prepare_lang_aud.py', 'recipes/aud/utils/prepare_phone_trans.py', 'recipes/aud/utils/parallel/submit_parallel.sh', 'recipes/aud/utils/parallel/submit_single.sh', 'recipes/timit_v2/utils/parallel/sge/job.qsub', 'recipes/zrc2019/utils/parallel/sge/job.qsub'],
 [('scripts', 'recipes/aud/steps/*.sh'), ('jobs', 'recipes/*/utils/parallel/*')], (), ['exit statuses', 'commands run', 'models, transcriptions and archives written'])

out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
