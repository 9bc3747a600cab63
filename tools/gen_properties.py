"""Writes properties.jsonl (kept as a generator so that the texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = hook
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))
NS='cpnest/NestedSampling.py'; CP='cpnest/cpnest.py'; SA='cpnest/sampler.py'; PR='cpnest/proposal.py'
N2='cpnest/nest2pos.py'; MO='cpnest/model.py'; PA='cpnest/parameter.pyx'; UT='cpnest/utils.py'

prop('C01','The nested-sampling chain is ordered, complete and free of duplicates',
 'Whatever sequence of samples the workers return, the nested-sampling chain lists points in non-decreasing likelihood, and every point that ever entered the live set appears in it exactly once with its parameters and likelihood unchanged. A point enters the live set during the run only if its likelihood is strictly above the likelihood threshold in force, and that threshold is always the likelihood of the highest of the points being replaced in that step (one per worker, the lowest ones). The live set has exactly nlive points whenever a step ends, and a point whose likelihood is NaN or minus infinity (or whose prior is zero) never becomes a live point. The iterations count the points replaced, and the acceptance the fraction of answers that were accepted (one refusal being counted from the start).',
 ['histories','inputs'],'every sequence of worker answers (rejected, tied, NaN, minus infinity, just above the threshold, new maximum), every number of workers and live points',
 'The two tests run one random Gaussian problem and assert nothing about the chain; ties, rejections and invalid answers at particular positions are not produced on purpose.',
 [NS],[('consume_sample','%s NestedSampler.consume_sample'%NS),('population of the live set','%s NestedSampler.reset'%NS),('final live points','%s NestedSampler.nested_sampling_loop'%NS)],
 ['NestedSampler.nested_samples, logLmin, chain file'],[('params','ordered live points',NS),('nested_samples','dead points in order',NS)])

prop('C02','Evidence, prior volumes and information follow from the recorded chain',
 'The final log-evidence is the trapezoidal integral of likelihood over prior volume, starting from volume 1, where a step that replaces n of N live points at once shrinks the log-volume by n/N and contributes at the highest of the replaced likelihoods, and where the last N live points are then removed one at a time with N, N-1, ..., 1 live points. During the run the evidence is the running sum of likelihood times removed volume, and the information is the matching likelihood-weighted mean log-likelihood minus log-evidence. These hold for every sequence of likelihoods, including ties, minus infinity and values whose exponentials overflow or underflow.',
 ['histories','inputs'],'every sequence of accepted likelihoods, number of workers, number of live points',
 'No test asserts a number: the only stable tests print the evidence.',
 [NS,N2],[('integrator','%s _NSintegralState.increment/finalise'%NS),('trapezoid rule','%s log_integrate_log_trap, logsubexp'%N2)],
 ['NestedSampler.logZ, NestedSampler.state.logZ/info, evidence file'])

prop('C03','The run stops exactly when the remaining evidence is within tolerance',
 'The main loop keeps replacing points while the evidence could still grow, by the stated estimate (log of current evidence plus largest known likelihood times remaining prior volume, minus log of current evidence), by more than the requested tolerance, and stops at the first step where it could not. After it stops, all remaining live points are added, so the chain has one point per replacement plus nlive. In prior-sampling mode no point is replaced and exactly nlive points are returned.',
 ['histories','configurations'],'every sequence of worker answers and of largest-likelihood values, every tolerance, worker and live-point count, prior-sampling on or off',
 'The tests reach one random stopping point and do not compare it with anything.',
 [NS],[('termination condition','%s NestedSampler.consume_sample / nested_sampling_loop'%NS)],['number of iterations, length of nested_samples'])

prop('C04','Insertion indices are the normalised ranks of the accepted points',
 'For every point accepted during the main loop, one insertion index is recorded, in order of acceptance: the number of remaining live points whose likelihood does not exceed that of the new point, divided by the number of remaining live points (those being replaced in the step not counted, those already inserted in the step counted). It always lies between 0 and 1, and rejected points record nothing. The list that is written out or tested for uniformity over the whole run is this complete list, the rolling test uses its last nlive entries.',
 ['histories'],'every sequence of worker answers with ties and rejections, any number of workers below nlive',
 'No test looks at the indices; an off-by-one with several workers leaves them plausible.',
 [NS],[('insertion index bookkeeping','%s NestedSampler.consume_sample, check_insertion_indices'%NS),('ordered insertion','%s KeyOrderedList.add'%NS)],['NestedSampler.insertion_indices, insertion_indices.dat'])

prop('C05','A run never deadlocks and every worker exits, under every interleaving',
 'For every interleaving of the main process and its sampler processes, and any mix of Metropolis-Hastings, Hamiltonian and slice samplers, a run populates the live set, reaches its end, and every sampler process exits by itself with status 0, so that the final join returns. This includes populating from a likelihood that is minus infinity or NaN in part of the prior, numbers of live points that are not a multiple of the number of workers, and workers that are busy sampling when the run ends. A run interrupted by a signal at any point of populating or sampling also ends, with exit status 130, and leaves no sampler process behind.',
 ['schedules','configurations','histories'],'every schedule of main and worker processes at their communication points (within the preemption bound), every sampler mix, every answer pattern',
 'The tests run whatever schedule the machine gives; shutdown and population races need a worker at one particular instruction.',
 [CP,NS,SA],[('request/answer protocol','%s NestedSampler.reset/consume_sample; %s Sampler._produce_sample'%(NS,SA)),('shutdown by threshold infinity and None','%s nested_sampling_loop'%NS),('signals','%s sighandler, CPNest.run, CPNest.checkpoint'%CP)],['process exit'],
 [('logLmin/logLmax/checkpoint_flag','values shared between processes','%s RunManager'%CP)])

prop('C06','The shared largest likelihood is never lost or understated',
 'At any time, the largest likelihood shared between the processes is at least the likelihood of every sample that any worker has accepted or handed over, whatever the interleaving of the workers; it never decreases, and it is always the likelihood of a point that was really evaluated. The maximum likelihood written to the evidence file is therefore at least that of every point in the chain.',
 ['schedules'],'every interleaving of two or more workers updating the maximum, for each sampler type',
 'A lost update needs two workers inside the same read-modify-write; the tests never check the value.',
 [SA,CP,NS],[('update of logLmax','%s yield_sample of each sampler'%SA),('shared value','%s RunManager.start'%CP)],['manager.logLmax, evidence file'],[('logLmax','largest log-likelihood seen','%s RunManager'%CP)])

prop('C07','Workers answer every request once, with a self-consistent point',
 'A sampler process answers each request with exactly one sample, in order, and stops when told to. The sample carries the log-prior and log-likelihood that the model gives at its parameters; if it is a newly accepted point, it lies inside the bounds where the prior is non-zero and its likelihood is strictly above the threshold in force when it was asked for; otherwise it is a point that the sampler already had, unchanged (which the nested sampler refuses if it is below the threshold). The pool of the sampler keeps its size and never contains a point of zero prior. This holds for Metropolis-Hastings, Hamiltonian and slice samplers and for every outcome of their random draws.',
 ['inputs','histories'],'every outcome of the random draws (from a finite alphabet of draws), every request sequence and threshold history, each sampler type',
 'Only Metropolis-Hastings is exercised by the stable tests, on one random path, without checking the answers.',
 [SA,PR],[('answer loop','%s Sampler._produce_sample'%SA),('chains','%s yield_sample of each sampler'%SA),('reflections and trajectory','%s ConstrainedLeapFrog'%PR)],['what is sent through the worker pipe'])

prop('C08','Metropolis-Hastings steps leave the likelihood-constrained prior invariant',
 'One step of the Metropolis-Hastings sampler, as a Markov kernel on the states allowed by the prior and the likelihood threshold, satisfies detailed balance with respect to the prior restricted to likelihood above the threshold, for any prior, any threshold and any proposal that declares its Jacobian or proposal-density ratio correctly. A chain that has started above the threshold never leaves the constrained region, and a proposal with zero prior is never accepted.',
 ['inputs'],'every prior, likelihood, threshold and proposal on a small finite state space, every outcome of proposal and acceptance draws with its exact probability',
 'A wrong acceptance ratio only biases a distribution; a stochastic test on the stable list would be flaky and there is none.',
 [SA],[('acceptance rule','%s MetropolisHastingsSampler.yield_sample'%SA)],['evolution of the point pool'])

prop('C09','Ensemble jump proposals are reversible and declare the right Jacobian',
 'For each built-in ensemble jump, every jump from a point to another is matched, with equal probability density, by the reverse jump, once the declared log-Jacobian is included: the declared value equals the log-determinant of the map applied to the old point and changes sign for the reverse jump. Proposals depend only on the old point, the current ensemble and their random draws, keep dimension and names, and never modify the ensemble. Eigenvector jumps have the covariance of the ensemble they were last given.',
 ['inputs'],'every ensemble, old point and random draw from small alphabets, in one to three dimensions',
 'No test looks at proposals; a wrong Jacobian or a stale covariance only biases results.',
 [PR],[('EnsembleWalk, EnsembleStretch, DifferentialEvolution, EnsembleEigenVector','%s'%PR)],['return value and log_J of get_sample'])

prop('C10','Interrupting at any point and resuming gives a valid, undamaged run',
 'If a signal interrupts the main process at any point of a run, then restarting with resume enabled completes, and the final chain, evidence and information obey the same rules as those of an uninterrupted run: no point lost from or repeated in the live set or the chain, correct number of live points, chain in order, evidence equal to the one computed from the chain. The same holds for several interruptions in a row, and a worker interrupted at any point can be resumed and goes on answering requests correctly.',
 ['crash_points','histories'],'every bytecode boundary of the main loop and of the worker as the point where the signal arrives, one or two interruptions',
 'No test interrupts or resumes a run.',
 [NS,CP,SA],[('checkpoint on CheckPoint exception','%s nested_sampling_loop, checkpoint, resume'%NS),('signal handler','%s sighandler'%CP),('worker checkpoint','%s Sampler.produce_sample, checkpoint, resume'%SA)],['final nested_samples and logZ after resume'])

prop('C11','A crash while writing a checkpoint never destroys the last good one',
 'If the process dies, or the machine loses power, at any moment while it writes a checkpoint, the checkpoint file on disk is still complete: either the previous checkpoint or the new one, and the run can be resumed from it; once the checkpoint call has returned it is the new one (after a loss of power, one of the two). Leftovers of the crash do not prevent later checkpoints or resumes. This holds for the nested sampler and for each type of sampler process.',
 ['crash_points'],'every file-system call made while checkpointing, and every torn write of it, as the point of death or of power loss; with or without a previous checkpoint',
 'No test kills a run, and a death inside the write needs fault injection.',
 [NS,SA],[('NestedSampler.checkpoint/resume',NS),('Sampler.checkpoint/resume',SA)],['the resume files'])

prop('C12','Resuming from a checkpoint continues exactly where the run was',
 'A nested sampler or sampler process restored from a checkpoint has the same observable state as the one that wrote it: given the same subsequent worker answers (or requests and random draws), it produces the same chain, evidence, information, insertion indices, thresholds and answers as if it had never stopped. Taking a checkpoint does not change the run that takes it. The number of workers may differ after resuming. (The periodic refresh of the proposal ensemble of a worker starts a new period on resuming.)',
 ['histories','configurations'],'every step at which the checkpoint is taken, every sampler type, every answer sequence, every old and new number of workers',
 'No test checkpoints or resumes.',
 [NS,SA,CP],[('pickling','%s __getstate__/__setstate__/resume; %s the same; %s LivePoint.__reduce__'%(NS,SA,PA)),('resume logic','%s CPNest.__init__'%CP)],['results after resume'])

prop('C13','Every worker has its own identity: channel, seed, checkpoint and type',
 'For any mix of sampler types, a run starts exactly the requested number of workers of each type (one per processor in all, if no number is given); each has its own communication channel, its own random seed, derived from the user seed, and its own checkpoint file. After resuming, each worker is restored from the checkpoint it wrote, with its own type, or started afresh if there is none. No two workers of a run, new or resumed, draw from the same random stream.',
 ['configurations','schedules'],'every mix of sampler counts, seed, resume flag and set of checkpoint files present',
 'The tests use one type of sampler and never resume.',
 [CP,SA],[('worker construction','%s CPNest.__init__'%CP),('connect_producer','%s RunManager.connect_producer'%CP),('seeding','%s Sampler.reset'%SA)],['CPNest.process_pool'])

prop('C14','Posterior samples are drawn with the right probabilities, without repetition',
 'Each nested sample enters the posterior independently with probability equal to its weight divided by the largest weight of its run, the weight being likelihood times the prior volume assigned to it by constant shrinkage with nlive points (and by shrinking live-point counts for the last nlive). No sample is repeated or altered. When several runs are combined, samples of each run are further kept with probability proportional to the evidence of the run per input sample, the largest such probability being one.',
 ['inputs'],'every short likelihood sequence (ties, large ranges), nlive, combination of runs, and every outcome of the random draws with its exact probability',
 'Tests only compute a posterior and ignore it.',
 [N2,CP],[('compute_weights, draw_posterior, draw_posterior_many',N2),('get_posterior_samples','%s CPNest.get_posterior_samples'%CP)],['returned arrays'])

prop('C15','Drawing N posterior samples gives N samples with normalised weights',
 'Asking for N posterior samples from one run returns exactly N samples, each drawn independently with probability equal to its weight divided by the sum of the weights, for every likelihood sequence and every random draw. Asking for N samples from several runs returns from each run its share of N, in proportion to the evidence of the run and rounded to an integer, also when shares differ or are zero.',
 ['inputs'],'every short likelihood sequence, nlive, N, combination of runs, every random draw from cells that separate all samples',
 'No test calls these functions.',
 [N2],[('draw_N_posterior, draw_N_posterior_many',N2)],['returned arrays'])

prop('C16','Log-space integration helpers agree with exact arithmetic',
 'The evidence, weights and log-difference helpers that turn a list of likelihoods into results agree with exact rational arithmetic to rounding error for every sequence of likelihoods and volumes, including zero likelihood, ties and values far beyond the range of exponentials. Shifting all log-likelihoods by a constant shifts the log-evidence by that constant and leaves the weights unchanged. The difference helper refuses to subtract the larger from the smaller.',
 ['inputs'],'every sequence of up to five likelihoods from an alphabet with zero, ties and extreme values, every nlive',
 'No test checks a value.',
 [N2],[('logsubexp, log_integrate_log_trap, compute_weights',N2)],['return values'])

prop('C17','Live points behave as independent vectors with names',
 'Addition, subtraction, scaling and division of live points, in place or not, act element by element in double precision; operations that are not in place leave both operands unchanged, and their result shares no storage with them. Access by name reads and writes exactly the named element and refuses unknown names. Copying, pickling and conversion to a record array preserve names, values, log-likelihood and log-prior exactly, and a copy is independent of the original.',
 ['inputs','histories'],'every sequence of operations up to a depth over a few points, values including infinities, NaN, subnormal and very large numbers, one to three dimensions',
 'No test exercises the class directly, and sampling tests do not notice lost precision or shared storage.',
 [PA],[('LivePoint',PA)],['values, logL, logP of points'])

prop('C18','Bounds, prior draws and normalisation maps of a model are consistent',
 'A point is in bounds exactly if every parameter lies strictly inside its interval; the default log-prior is 0 there and minus infinity elsewhere, and the potential is its negative. A newly drawn point is always in bounds with non-zero prior, for every outcome of the random draws and for user priors that vanish in part of the box. Mapping a point to normalised coordinates and back returns it, and normalised coordinates of the box are the unit cube.',
 ['inputs'],'every point on a grid that includes the bounds, their neighbouring doubles, infinities and NaN, bounds of several scales, every outcome of draws from the grid',
 'No test calls these on boundary values; one of the maps is called by no test.',
 [MO],[('Model.in_bounds/new_point/log_prior/potential/from_normalised/to_normalised',MO)],['return values'])

prop('C19','Output files hold exactly the results, and no foreign file is touched',
 'The chain file has a header with the parameter names and logL and one row per nested sample, in order, with matching columns and exact values; the evidence file, nested-sample, posterior, prior, MCMC and insertion-index files hold the same numbers as the returned results. Post-processing reads and removes only files with the names its samplers give to their intermediate files in the output folder, and leaves none of these behind at any verbosity, for every legal name of the output folder and whatever other files it contains. No shell interprets any path.',
 ['inputs','configurations'],'every verbosity, output-folder name from an alphabet with spaces and shell metacharacters, parameter sets, and foreign files with similar names',
 'Tests write to the current directory and do not read the files back.',
 [NS,CP,MO],[('write_chain_to_file, write_evidence_to_file',NS),('get_*_samples',CP),('strsample, header',MO)],['files in the output folder'])

prop('C20','Log records reach the log file exactly while it is open',
 'A log record of the package is written to a log file exactly once if it was emitted while that log file was open and its level is within the verbosity of the file (0 critical, 1 warning, 2 info, 3 debug), and never otherwise. Closing, also by an exception, detaches and closes the file and it can be opened again, appending; several log files may be open at once without influencing each other. A run leaves no handler behind.',
 ['histories'],'every sequence of open, close, log and raise operations up to a depth on two log files, every verbosity and level',
 'The tests run with each verbosity but do not read a log or reopen it.',
 [UT,CP],[('LogFile, FileHandler',UT),('with self.log_file','%s CPNest.__init__/run'%CP)],['contents of log files, logger handlers'])

prop('C21','The ordered live-point list stays ordered under every operation sequence',
 'After any sequence of construction, insertion, lookup, removal of the worst points, copying by pickle, the ordered list holds exactly the expected items in ascending key order, ties in order of insertion, and reports for each insertion the position at which the item now is. Later operations are never influenced by items already removed.',
 ['histories'],'every operation sequence up to a depth over keys with ties and infinities',
 'No test uses the container directly; a stale key list shows only after particular sequences.',
 [NS],[('KeyOrderedList, OrderedLivePoints',NS)],['list contents and returned indices'],[('_keys','sorted keys parallel to the items',NS)])

prop('C22','Proposal cycles honour weights, order and ensemble updates',
 'A proposal cycle draws its slots with probabilities proportional to the given weights, uses each slot exactly once per pass in a fixed order, and reports as its log-Jacobian that of the jump it has just made. Giving it a new ensemble updates every ensemble proposal in it, and adding a proposal keeps the existing ones in their proportions and makes the new one available with its weight relative to a total of one for the others. The weights list given by the caller may be any positive numbers and the cycle is pickled and restored without change.',
 ['histories','inputs'],'every sequence of sampling, ensemble update, proposal addition and pickling up to a depth, small proposal and weight sets, every slot assignment',
 'Tests use the default cycle once and look at nothing.',
 [PR],[('ProposalCycle',PR)],['calls made on the member proposals, log_J'])

prop('C23','Chain length adapts within its limits and acceptance is counted correctly',
 'Every answer of a Metropolis-Hastings worker reports the true number of steps made for it, at least one and at most the configured maximum, ending at the first step that completes the adapted chain length with at least one acceptance, or at the maximum; a Hamiltonian worker ends at the first acceptance or at the maximum. The reported acceptance for the answer and overall are accepted steps over attempted steps, and the reported number of steps is that of the answer, for all sampler types. While the pool is initialised, the adapted length is the stated moving average of (2/acceptance - 1) with safety factor 5, grows when nothing is accepted, never exceeds the configured maximum and is at least 5; afterwards, every quarter of the pool size, it is the largest autocorrelation length of the last 5 times maximum steps of the chain, at least 20.',
 ['histories','inputs'],'every pattern of accepted and rejected steps, chain limits, pool sizes',
 'No test looks at these numbers.',
 [SA],[('yield_sample','%s MetropolisHastingsSampler'%SA),('estimate_nmcmc_on_the_fly, estimate_nmcmc',SA)],['answers sent by the worker; Nmcmc'])

prop('C24','Resampling an MCMC chain only thins, shuffles and selects real samples',
 'Resampling a stored chain returns a non-empty selection, without repetition, of the samples of the chain (after dropping the first half when burn-in is requested), thinned by the largest autocorrelation length of its parameters rounded to an integer: the thinned samples are put in random order, the first is kept, and each further one is kept with probability min(1, its posterior density over that of the one before it in this order). The chain itself is left as it is. The autocorrelation length is 1 plus twice the sum of the circular autocorrelations from lag zero up to the first that is at most 0.01; it is at least one, is unaffected by shift and rescaling of a chain that is not constant, and is finite for constant chains.',
 ['inputs'],'every short chain over a small alphabet, burn-in on or off, every shuffle and acceptance draw',
 'Only verbosity 3 reaches the function, without burn-in and unchecked.',
 [N2],[('resample_mcmc_chain, acl, autocorrelation',N2)],['returned arrays'])

prop('C25','Every verbosity and mode ends with the same complete set of results',
 'For every verbosity, mix of samplers, number of live points and prior-sampling setting, a run completes and offers nested samples and posterior samples; at verbosity 3 it also offers the prior and MCMC samples collected by the samplers, and in prior-sampling mode the prior samples. Verbosities 0 to 2 compute the same run from the same random numbers; verbosity 3 only adds draws made by the samplers to collect prior samples. Asking for the samples again returns the same nested samples.',
 ['configurations'],'every verbosity, prior-sampling flag, sampler mix, small and odd numbers of live points',
 'The verbosity test runs each level once and checks nothing after the run.',
 [CP,SA,'cpnest/plot.py'],[('CPNest.run, get_*_samples, plot',CP)],['attributes of CPNest after run'])
prop('C26','Slice steps leave the likelihood-constrained prior invariant',
 'One step of the slice sampler, whatever the prior, the likelihood, the threshold, the directions and the limits on steps out and on shrinking, moves between points with a prior and a likelihood above the threshold such that the flow between any two of them under the constrained prior is the same in both directions; every allowed point within the initial interval can be reached, and steps out reach as far as the limit allows. Several steps in a row are independent repetitions of one step, and the point returned carries its own likelihood and prior. While the sampler is tuned, after each answer the length scale is multiplied by twice the fraction that steps out have among all changes of the last interval (each counted as at least one), and not afterwards.',
 ['inputs'],'every prior and likelihood over small lattices, every outcome of the slice height, the placement of the interval, the split of steps out, the direction and the positions drawn while the interval shrinks',
 'The two tests with the slice sampler compare one random run with an expected evidence within several standard deviations.',
 [SA],[('yield_sample, reset_boundaries, increase_*_boundary','%s SliceSampler'%SA)],['the point and number of steps yielded for given draws'])

prop('C27','Hamiltonian jumps follow reversible trajectories, chosen by their energy',
 'Each step of a Hamiltonian trajectory moves the point by momentum times inverse mass, folded back at the prior bounds, and is undone exactly by the step with reversed momentum; the momentum is kicked by the gradient of the potential, or, where the likelihood is not above the threshold, reflected without change of length. A proposal draws momenta with the inverse of the covariance of the current ensemble (of the last one that has an inverse, where points coincide), follows the trajectory in both directions, returns one of its points with a probability proportional to exp(-energy), inside the bounds and carrying its own likelihood and prior, declares min(0, energy at the start minus energy at that point), and does not change the old point. The step size grows exactly when the acceptance is above its target, and every length between the base plus one and five times the number of steps can be chosen. None of this fails after a first ordinary ensemble, however narrow, flat, repetitive or partly invalid the next ones and their likelihoods are, nor where the prior vanishes: the proposal then stays inside it.',
 ['inputs','histories'],'every position, momentum, step size, constraint of grids including the bounds and several reflections, every point that can be chosen from a trajectory, every pair of ensembles',
 'The one Hamiltonian test compares a random run with an expected evidence.',
 [PR],[('ConstrainedLeapFrog, LeapFrog, HamiltonianProposal',PR)],['points, momenta and log_J returned for given draws'])

prop('C28','Ensemble jumps treat all points alike and follow the ensemble',
 'The law of every ensemble jump and slice direction does not depend on the order of the points in the ensemble; shifting, scaling, rotating (for walk, stretch, differential moves also shearing) the ensemble together with the old point transforms the jumps in the same way; and after an update, by another container or by the same one with other points in it, the jumps are exactly those of the new ensemble.',
 ['inputs','histories'],'every ensemble of three or four points from a grid, every ordering, a set of affine maps, ways to update, every outcome of the draws',
 'Wrong use of some points only slows a sampler down or biases it slightly, which no test can tell from chance.',
 [PR],[('EnsembleWalk, EnsembleStretch, DifferentialEvolution, EnsembleEigenVector, EnsembleSlice*',PR)],['points and directions returned for given draws'])

prop('C29','A run depends on its own arguments only, not on other runs or leftovers',
 'The outcome of a run (chain, evidence, information, insertion indices, posterior, prior and MCMC samples, likelihood calls of each sampler, output files and log) follows from its arguments, the random numbers drawn and the schedule. It is the same after, between the construction and the start of, or between the interruption and the resumption of any other runs in the same process, whether or not they use the same model, proposals or settings; and samples which an interrupted run left in the output folder do not enter a run that does not resume it, nor are those of a resumed sampler counted twice. A resumed run goes on with the settings it was started with, in the folder it is resumed from, which may have been moved or copied meanwhile. A finished run keeps its results and files when another one goes on in another folder. Constructing and running leave the model and the proposals of the user, and the loggers, signal handlers, environment, working directory and numerical settings of the process, as they were.',
 ['histories','crash_points'],'every pair (triple) of run configurations, every order of constructing and running them, separate and shared folders, models and proposals, interruptions and kills, moved and copied folders, changed arguments',
 'Each of the tests makes one run in a process and a folder of its own.',
 [CP,NS,SA,PR,UT],[('CPNest.__init__, run, read_sampler_files',CP),('NestedSampler.__init__','%s NestedSampler'%NS),('proposal cycles',PR),('LogFile',UT)],['attributes of CPNest, files in the output folder, logging handlers'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
