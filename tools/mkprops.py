"""Writes properties.jsonl (kept as code so that the list stays easy to edit)."""
import json, os
P = []

def prop(id, title, statement, over, qtext, why, files, mech, state=()):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

NOTEST = ("The existing tests only evaluate a few transform Jacobians on fixed points; "
          "no test trains a model or fits an image. ")

prop('C01', 'A fit does not depend on what the fitter did before',
     "The outcome of a fit is determined by the trained fitter, the image, the initialisation, the options and the "
     "numbers of that one call. Whatever the same fitter did before - fits of other images, from other shapes or boxes, "
     "with other options, fits that raised an error or were interrupted at any point, queries of the model or the fitter, "
     "edits of earlier results - the next fit gives exactly what an identical, never used fitter gives. "
     "This holds for every fitter family (AAM, ATM, CLM, APS, unified AAM-CLM, Lucas-Kanade, supervised descent, dlib) and algorithm.",
     ['histories', 'fault_sequences', 'crash_points', 'configurations'],
     "All finite histories of calls on one fitter, including failed and interrupted ones, all fitter families, algorithms and options.",
     NOTEST + "A leak of state needs a particular earlier call (a certain option, failure point or image) before the observed one.",
     ['menpofit/fitter.py', 'menpofit/aam/algorithm/lk.py', 'menpofit/aam/algorithm/sd.py', 'menpofit/atm/algorithm.py',
      'menpofit/clm/algorithm/gd.py', 'menpofit/aps/algorithm/gn.py', 'menpofit/lk/algorithm.py', 'menpofit/lk/residual.py',
      'menpofit/unified_aam_clm/algorithm.py', 'menpofit/sdm/algorithm/base.py', 'menpofit/dlib/algorithm.py',
      'menpofit/modelinstance.py', 'menpofit/transform/modeldriven.py'],
     [('every run re-initialises transform and shape model from the initial shape', 'menpofit/aam/algorithm/lk.py run()'),
      ('solvers must not alter precomputed Hessians', 'menpofit/aam/algorithm/lk.py solve_shape_map, _solve_all_map'),
      ('per call image pyramid', 'menpofit/fitter.py _prepare_image')],
     [('transform / shape model instance', 'current estimate, left over by the previous fit', 'menpofit/modelinstance.py'),
      ('precomputed Jacobians and Hessians', 'built once per fitter', 'menpofit/*/algorithm')])

prop('C02', 'Fitting never changes what the caller passed in',
     "Fitting leaves the image (pixels, mask, landmarks), the initial shape or bounding box, the ground truth shape and "
     "every option container of the caller exactly as they were. This also holds when the fit raises an error or gets interrupted at any point.",
     ['inputs', 'crash_points', 'fault_sequences', 'configurations'],
     "All fitters, images, initialisations and options, and every point at which a fit can fail or be interrupted.",
     NOTEST + "Temporary state on the caller's image is only visible if the call ends at the wrong moment.",
     ['menpofit/fitter.py', 'menpofit/dlib/fitter.py', 'menpofit/lk/fitter.py', 'menpofit/io.py', 'menpofit/checks.py', 'menpofit/result.py'],
     [('images are prepared on a copy', 'menpofit/fitter.py _prepare_image'),
      ('options are normalised into new lists', 'menpofit/checks.py')])

prop('C03', 'Training never changes the training data',
     "Training, incrementing or constructing any model or fitter leaves the images (pixels, masks, landmark groups), shapes, "
     "bounding boxes, reference shape, template, models (other than the number of active components that a fitter is asked to use) "
     "and option containers handed in by the caller exactly as they were. "
     "This also holds when training raises an error, is fed from a failing stream, or gets interrupted at any point.",
     ['inputs', 'crash_points', 'fault_sequences', 'configurations'],
     "All model and fitter families, training sets and options, and every point at which training can fail or be interrupted.",
     NOTEST + "Training attaches temporary landmark groups and updates shapes in place; whether these are private copies depends on options and on where training stops.",
     ['menpofit/builder.py', 'menpofit/fitter.py', 'menpofit/sdm/fitter.py', 'menpofit/dlib/fitter.py', 'menpofit/aam/base.py',
      'menpofit/atm/base.py', 'menpofit/clm/base.py', 'menpofit/aps/base.py', 'menpofit/unified_aam_clm/base.py', 'menpofit/modelinstance.py'],
     [('images are rescaled (copied) before groups are attached', 'menpofit/builder.py rescale_images_to_reference_shape'),
      ('perturbed boxes are attached to the private copies', 'menpofit/fitter.py generate_perturbations_from_gt')])

prop('C04', 'A fit ends within its budget and returns a consistent trace',
     "Every fit that returns ran at most the requested number of iterations on every scale (an overall number is spread evenly over the scales and rounded), and its result is one consistent record: "
     "the iteration counts in total and per scale agree with the number of shapes, of parameter vectors and of costs (if available), the first shape "
     "is the initialisation that was given, the last one is the final shape, the parameters describe the shapes, every scale continues where the previous one ended, "
     "and everything is in the frame of the given image. A larger budget (or a longer cascade) only appends to the steps of a smaller one, and asking for costs or giving a ground truth changes none of them. "
     "This holds whatever the optimisation steps do: vanish, explode, become undefined, or keep going; a fit either ends with such a record or raises an error, it never hangs; training with valid options and valid fits of ordinary images only fail if the numerical optimisation itself breaks down (singular systems).",
     ['inputs', 'fault_sequences', 'configurations'],
     "All fitters, scales, iteration budgets (one number or one per scale), cost and ground truth options, images, and all sequences of numerical step outcomes.",
     NOTEST + "The bookkeeping differs per family and scale, and only disagrees for certain combinations of scales, early convergence and options.",
     ['menpofit/result.py', 'menpofit/aam/result.py', 'menpofit/lk/result.py', 'menpofit/aps/result.py', 'menpofit/unified_aam_clm/result.py',
      'menpofit/fitter.py', 'menpofit/aam/algorithm/lk.py', 'menpofit/clm/algorithm/gd.py', 'menpofit/sdm/algorithm/base.py'],
     [('loop bound and convergence test', 'the while k < max_iters and eps > self.eps loops'),
      ('concatenation over scales', 'menpofit/result.py MultiScale*Result')])

prop('C05', 'A returned fitting result is a finished record',
     "Once a fitting result was returned, the shapes, parameters, costs, iteration counts and image it reports never change by themselves. "
     "Neither reading it (in any order, any number of times), nor using the fitter or the model further (fits, failed fits, model increments, other fitters), "
     "nor modifying the image or the initialisation that was fitted alters it; what it derives on demand (errors under any metric, displacement statistics, light-weight copies, views) always follows from the same shapes and ground truth.",
     ['histories', 'fault_sequences', 'configurations'],
     "All results of all fitters and all later histories of reads, fits, failures, increments and modifications of the inputs.",
     NOTEST + "An aliased array only shows once a specific later operation overwrites it.",
     ['menpofit/result.py', 'menpofit/aam/result.py', 'menpofit/lk/result.py', 'menpofit/aps/result.py', 'menpofit/unified_aam_clm/result.py',
      'menpofit/modelinstance.py', 'menpofit/io.py', 'menpofit/aam/algorithm/lk.py'],
     [('results hold copies of the image', 'menpofit/result.py Result.__init__'),
      ('new parameter arrays per iteration', 'menpofit/*/algorithm')])

prop('C06', 'Streamed training consumes every batch once, in order and lazily',
     "Training from a stream with a batch size gives the same model as training on the first batch and incrementing with every following batch in order, "
     "with every element used exactly once (and the similarity frame of its shape models follows their updated mean). The stream is never read further than the batch that is being built, so that endless streams work. "
     "If the stream (or an interruption while waiting for it) ends the training, the model is the one after the last complete batch, and training can be resumed from there.",
     ['histories', 'crash_points', 'fault_sequences', 'configurations'],
     "All streams, lengths, batch sizes and points at which a stream ends or fails, for all models that can be trained in batches.",
     NOTEST + "Needs streams that are observed while they are consumed and that fail at a chosen element.",
     ['menpofit/base.py', 'menpofit/aam/base.py', 'menpofit/atm/base.py', 'menpofit/clm/base.py', 'menpofit/aps/base.py', 'menpofit/modelinstance.py',
      'menpofit/clm/expert/ensemble.py'],
     [('lazy fixed size batches', 'menpofit/base.py batch'),
      ('first batch trains, later ones increment', 'the _train methods of the models')])

prop('C07', 'Learning incrementally equals learning at once',
     "A regularised linear regression that is incremented with further samples gives the same predictions as one trained on all of them at once, "
     "for every regularisation, with or without bias, and for every split and order of the batches. "
     "The appearance model of an AAM that is incremented without forgetting (given a fixed reference shape, no trimming) spans and weighs the same appearance as one trained on all the images at once, "
     "and so do the correlation filters (MCCF, MOSSE) of the experts of a CLM, in which a forgetting factor scales what was learned before.",
     ['histories', 'inputs', 'configurations'],
     "All sample sets, all partitions into batches and batch orders, all regularisation and bias settings.",
     NOTEST + "Equivalence over all histories of increments cannot be settled by samples of one history.",
     ['menpofit/math/regression.py', 'menpofit/math/correlationfilter.py', 'menpofit/clm/expert/ensemble.py', 'menpofit/aam/base.py', 'menpofit/builder.py'],
     [('Woodbury update', 'menpofit/math/regression.py IRLRegression.increment'),
      ('incremental PCA in a fixed reference frame', 'menpofit/aam/base.py _train_batch')])

prop('C08', 'The cache of pretrained fitters survives crashes and faults',
     "Loading a pretrained fitter either returns the very fitter that was published or raises an error: never a partial, stale-mixed or different one. "
     "Whatever happened before - failing, stalling or truncating networks, servers that answer with something else, failing or full disks, a process killed at any point, concurrent loaders - "
     "an interrupted download is never mistaken for a cached fitter, a damaged cache file is discarded when it is hit, and as soon as faults stop a load succeeds after at most one failed attempt. "
     "A good cached fitter is used without touching the network.",
     ['crash_points', 'fault_sequences', 'schedules', 'histories'],
     "All sequences of network and disk faults, crash points within a load, interleavings of concurrent loaders, and all contents of the cache.",
     NOTEST + "Needs faults, crashes and interleavings at chosen system calls.",
     ['menpofit/io.py', 'menpofit/base.py'],
     [('download to a temporary file and atomic rename', 'menpofit/io.py load_fitter'),
      ('purge of files that do not load', 'menpofit/io.py load_fitter')],
     [('cache file', 'one pickle per fitter, shared by processes', 'menpofit/io.py path_of_fitter')])

prop('C09', 'Saved and restored models and fitters continue identically',
     "A model, fitter or fitting result that was pickled (or deep copied) at any point of its history - after training, between fits, after failed fits, between increments - "
     "and restored behaves exactly like the one that was saved: same fits, same instances, same reports, and the same model after further training. "
     "Saving does not disturb the original, and original and copy never influence each other.",
     ['histories', 'crash_points', 'configurations'],
     "All checkpoint positions in all histories of all model and fitter families.",
     NOTEST + "The state that must survive depends on the history before and the operations after the checkpoint.",
     ['menpofit/aam/base.py', 'menpofit/atm/base.py', 'menpofit/clm/base.py', 'menpofit/aps/base.py', 'menpofit/fitter.py', 'menpofit/modelinstance.py',
      'menpofit/clm/expert/ensemble.py', 'menpofit/io.py', 'menpofit/checks.py', 'menpofit/result.py'],
     [('plain picklable state', 'all models and fitters')])

prop('C10', 'Training and fitting are reproducible from the seed',
     "With the same inputs and the same state of the numpy random generator, training and fitting give the same results, whatever the hash seed, wall clock, verbosity, working directory, "
     "memory layout, or earlier work in the process. Fitting draws no random numbers, and nothing in training or fitting reseeds or replaces the global random generators.",
     ['histories', 'configurations', 'schedules'],
     "All model and fitter families, all seeds and all environments of the process.",
     NOTEST + "Hidden nondeterminism shows only between executions in different environments.",
     ['menpofit/fitter.py', 'menpofit/sdm/fitter.py', 'menpofit/aam/fitter.py', 'menpofit/builder.py', 'menpofit/dlib/fitter.py', 'menpofit/aam/base.py'],
     [('the numpy global generator is the only source of randomness', 'menpofit/fitter.py noisy_* functions')])

prop('C11', 'Reporting progress never changes the work',
     "Iterating with progress reports yields exactly the items of the wrapped iterable, once, in order and lazily, for any clock behaviour and whether reports are shown or not, and lets exceptions "
     "and early termination of either side through unchanged. Training with or without verbose output gives the same model from the same random numbers.",
     ['schedules', 'fault_sequences', 'configurations', 'histories'],
     "All iterables, clock sequences (jumps, standstills), exceptions and interruptions, and all verbose training runs.",
     NOTEST + "Depends on the clock and on where an iteration stops.",
     ['menpofit/visualize/textutils.py', 'menpofit/builder.py', 'menpofit/sdm/algorithm/base.py', 'menpofit/sdm/fitter.py', 'menpofit/fitter.py', 'menpofit/aam/base.py'],
     [('pass through generator', 'menpofit/visualize/textutils.py print_progress'),
      ('verbose only prints', 'all verbose branches of training')])

prop('C12', 'Independent fitters can work concurrently',
     "Threads that use different fitters, built from different models, get exactly the results they get alone, under every interleaving, "
     "even if they fit the same image object or start from the same shape object, and even if some of them fail. The same holds for models that are trained concurrently on the same images.",
     ['schedules', 'fault_sequences', 'configurations'],
     "All interleavings of threads that work with separate fitters and models on shared inputs.",
     NOTEST + "No test uses threads, and interleavings cannot be chosen by tests.",
     ['menpofit/fitter.py', 'menpofit/aam/algorithm/lk.py', 'menpofit/dlib/fitter.py', 'menpofit/builder.py', 'menpofit/math/fft_utils.py', 'menpofit/modelinstance.py'],
     [('no module level mutable state', 'whole package'),
      ('inputs are copied before they are annotated', 'menpofit/fitter.py _prepare_image')])

prop('C13', 'Fitters that share a model do not disturb each other',
     "Several fitters (of any algorithms that suit the model) built from one model - up front or while others are in use already - can be used in any interleaving of whole calls: each fit gives what it gives if the other fitters were never used, "
     "also after fits of the others failed or were interrupted. Using fitters never changes what the model itself generates and reports.",
     ['histories', 'schedules', 'fault_sequences', 'configurations'],
     "All interleavings of calls (complete, failed, interrupted) of fitters that were built from the same model with the same number of components.",
     NOTEST + "Needs two fitters and a particular alternation of calls.",
     ['menpofit/aam/fitter.py', 'menpofit/atm/fitter.py', 'menpofit/clm/fitter.py', 'menpofit/aps/fitter.py', 'menpofit/unified_aam_clm/fitter.py',
      'menpofit/modelinstance.py', 'menpofit/transform/modeldriven.py', 'menpofit/aam/base.py'],
     [('shared shape model instance is re-targeted by every fit', 'menpofit/modelinstance.py set_target')])

prop('C14', 'Wrapped pretrained fitters apply options per call only',
     "A wrapped fitter applies its stored options to every fit, options given at call time take precedence for that call only, and the stored options and those given never change. "
     "Its results are those of the wrapped fitter on the preprocessed image, reported in the frame of the image that was passed in, for every sequence of calls, including failing and interrupted ones.",
     ['histories', 'fault_sequences', 'inputs', 'configurations'],
     "All sequences of calls with all combinations of overrides, initialisations, images and preprocessing.",
     NOTEST + "An override that sticks only shows in a later call.",
     ['menpofit/io.py'],
     [('stored keyword arguments are copied per call', 'menpofit/io.py PickleWrappedFitter.fit_from_bb, fit_from_shape'),
      ('shapes are mapped back with the inverse transform', 'menpofit/io.py PickleWrappedFitter')])

prop('C15', 'Cascaded training keeps every initialisation and bounds its noise',
     "Training a cascade of regressors generates, for every training image and every starting box, exactly the requested number of random initialisations, and every level and iteration of every scale "
     "is trained with all of them (plus the starting boxes themselves if they were provided). Whatever the random draws, uniform noise stays within the requested amounts "
     "(at most half the given fraction in scale, at most the given fraction of half a turn in rotation), and the initial boxes stay within the image.",
     ['inputs', 'histories', 'configurations', 'fault_sequences'],
     "All outcomes of the random draws (including extreme ones), numbers of perturbations, boxes per image, scales, features and iterations.",
     NOTEST + "Extreme draws practically never occur by chance, and lost initialisations leave no visible trace but a worse model.",
     ['menpofit/fitter.py', 'menpofit/sdm/fitter.py', 'menpofit/sdm/algorithm/base.py', 'menpofit/aam/fitter.py', 'menpofit/dlib/fitter.py', 'menpofit/dlib/algorithm.py'],
     [('perturbation generator', 'menpofit/fitter.py generate_perturbations_from_gt'),
      ('carrying estimates to the next scale', 'menpofit/sdm/fitter.py _train_batch')])

prop('C16', 'Transform Jacobians and warps are mathematically correct',
     "The Jacobians of all differentiable transforms equal the derivatives of the transforms at every point and parameter vector.",
     ['inputs'], "All transforms, parameters and points.",
     "The existing tests compare a few Jacobians with stored values at fixed points.",
     ['menpofit/transform/homogeneous.py', 'menpofit/transform/thinsplatesplines.py', 'menpofit/transform/rbf.py', 'menpofit/transform/piecewiseaffine.py'],
     [('analytic derivatives', 'menpofit/transform')])

prop('C17', 'Error metrics and their statistics are correct',
     "Errors between shapes are non negative, zero exactly for equal shapes and normalised as documented, and cumulative error statistics are consistent with them.",
     ['inputs'], "All pairs of shapes and error lists.",
     "No test covers the error package.",
     ['menpofit/error/base.py', 'menpofit/error/stats.py', 'menpofit/error/human/face.py'],
     [('closed form metrics', 'menpofit/error')])

prop('C18', 'What was learned does not change when the training data are edited',
     "Once training, an increment or the construction of a fitter has returned (or failed), the model and every fitter built from it answer exactly as if the caller had never touched the data again, "
     "whatever is then done to the images, landmarks, reference shape, template, boxes or option lists that were handed over. "
     "Elements of a stream may be recycled as soon as the next batch is drawn; the same holds for shape models, regressions and correlation filters that are trained or incremented directly.",
     ['inputs', 'histories', 'configurations', 'fault_sequences'],
     "All families, options and histories of training, increments and fits, with edits at every point between the calls.",
     NOTEST + "No test touches training data after training, and aliasing shows only in later results.",
     ['menpofit/aam/base.py', 'menpofit/atm/base.py', 'menpofit/clm/base.py', 'menpofit/aps/base.py', 'menpofit/unified_aam_clm/base.py', 'menpofit/sdm/fitter.py', 'menpofit/dlib/fitter.py', 'menpofit/lk/fitter.py', 'menpofit/checks.py', 'menpofit/modelinstance.py', 'menpofit/math/regression.py', 'menpofit/math/correlationfilter.py', 'menpofit/clm/expert/ensemble.py'],
     [('reference shape of a model', 'menpofit/aam/base.py __init__'),
      ('option containers', 'menpofit/checks.py'),
      ('buffers of incremental learners', 'menpofit/math')])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        n = sum(p['statement'].count(x) for x in ('. ',)) + 1
        assert n <= 3, (p['id'], n)
        f.write(json.dumps(p) + '\n')
