#!/usr/bin/env python3
"""Writes known_findings.json (run by hand after a new fix commit; never by a check)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIX = {  # subject -> (properties, what failed)
 'a Hamiltonian sampler died when points of its ensemble were next to each other': ('C27', 'LSQUnivariateSpline raised ValueError (Schoenberg-Whitney) when two values of a parameter differed in the last digit, and the run waited for ever'),
 'a run took over the samples which an interrupted one had left': ('C29', 'prior samples of an interrupted run at verbosity 3 were among those of the next run in the folder (resume=False), and the MCMC samples of a run resumed after all processes had been killed at the end contained the older chain too'),
 'a Hamiltonian sampler died where the likelihood was flat or invalid': ('C05', 'a run with a Hamiltonian sampler waited for ever (the sampler had died in the filter for the normal) when fewer than about ten pool points had distinct, finite likelihoods, e.g. -inf in half of the prior and a pool of 12'),
 'a Hamiltonian sampler died when the ensemble was narrow in some direction': ('C27', 'HamiltonianProposal.set_ensemble raised LinAlgError for parameters of very different scales (1, 1e-6)'),
 'a Hamiltonian sampler died when the points of its ensemble coincided': ('C27', 'HamiltonianProposal.set_ensemble raised LinAlgError when the points of a later ensemble were all equal or on a line'),
 'a Hamiltonian sampler died at large energies and where the prior vanished': ('C27', 'ConstrainedLeapFrog.get_sample raised ValueError (probabilities do not sum to 1) for a log prior of -1e9, and when every state of a trajectory had prior zero'),
    'the ensemble walk failed in a sampler interrupted with a pool of four': ('C10', 'a sampler with a pool of four points, resumed after an interruption in the middle of a step, died in EnsembleWalk'),
 'scale and divide live points in double precision': ('C17', 'LivePoint * and / rounded the factor to single precision'),
 'to_normalised used an undefined name': ('C18', 'Model.to_normalised raised NameError for every point'),
 'separate logL from the last parameter in the chain file and write it in full precision': ('C19', 'rows of the chain file had one column fewer than the header when logL had no padding, and 6 digits of logL'),
 'burn-in of resample_mcmc_chain used a float as an index': ('C24', 'resample_mcmc_chain(burnin=True) raised TypeError'),
 'normalise the weights in draw_N_posterior': ('C15', 'probabilities were wrong and draws beyond the sum of the weights raised IndexError'),
 'draw_N_posterior_many failed when runs had different shares': ('C15', 'vstack of parts of different length raised ValueError'),
 'histograms of few samples were given zero bins': ('C25', 'a run at verbosity 2 with few samples crashed in plotting'),
 'write checkpoints atomically': ('C11', 'a crash during checkpointing destroyed the last good checkpoint'),
 'Hamiltonian proposals could not be checkpointed': ('C12', 'pickling an HMC sampler raised TypeError (generator)'),
 'samplers of different types shared their checkpoint files': ('C13', 'hmc and slice samplers used the checkpoint files of mhs samplers'),
 'resumed samplers all drew from the same random stream': ('C13', 'resumed workers inherited the same numpy random state'),
 'resuming with fewer samplers used a pipe that does not exist': ('C12', 'IndexError after resuming with fewer workers'),
 'a run interrupted before the main loop left its samplers waiting forever': ('C05', 'an interrupt while starting or populating left the workers and the exit of the main process hanging'),
 'an invalid point during population led to a deadlock, or entered the live set if NaN': ('C01', 'reset() waited for an answer nobody was asked for; NaN points became live points'),
 'the Hamiltonian sampler died where the estimated likelihood gradient vanishes': ('C07', 'division by zero in unit_normal made all weights of the trajectory NaN; the sampler process failed and the run hung'),
 'updates of the shared largest likelihood could be lost': ('C06', 'read-modify-write without lock, stale write of the HMC sampler, pool points not counted'),
 'the Hamiltonian sampler never returned when it could not accept a point': ('C05', 'endless loop, in particular when the run ended (threshold infinity) while it was sampling'),
 'a random number of exactly zero ended the Metropolis-Hastings sampler': ('C07', 'log(0) raised ValueError in the worker'),
 'a step interrupted half way was repeated after resuming': ('C10', 'dead points and evidence were counted twice, the live set grew'),
 'the first sample was left out of the information': ('C02', 'information used 0 for the first finite sample'),
 'post-processing passed paths to a shell and removed files of others': ('C19', 'os.system("rm path") with unquoted paths; any file containing prior_samples or mcmc_chain in its name was read and removed'),
 'Hamiltonian samplers failed for maxmcmc below ten': ('C05', 'an HMC worker crashed (empty range of trajectory lengths) and the main process waited forever'),
 'resuming with another mix of samplers restored samplers of another type': ('C13', 'checkpoint files were named by position only, so that after resuming with fewer or more mhs samplers an hmc or slice slot could restore a sampler of another type'),
 'a file name ending in a line break was taken for a sampler file': ('C19', 'a foreign file named prior_samples_1.dat plus a line break was read and removed'),
 'parameter names were changed when sampler files were read back': ('C19', 'names such as cos(theta) were stripped of special characters, so that prior and MCMC samples had other columns and plotting at verbosity 3 failed'),
 'resampling a chain shuffled the chain of the caller': ('C24', 'resample_mcmc_chain shuffled a view of the array passed in'),
 'prior and MCMC samples were lost after they had been read once': ('C25', 'prior_samples and mcmc_samples were None after a run at verbosity 3; get_prior_samples() with a file name crashed'),
 'a run resumed in a moved or copied folder wrote into the original one': ('C29', 'after the output folder was moved the resumed run died with FileNotFoundError (samplers and main process); after it was copied, the files of the original folder were overwritten'),
 'posterior weights of a resumed run used the wrong number of live points': ('C29', 'CPNest(nlive=20, resume=True) resuming a run of nlive=10 drew the posterior with the weights of 20 live points'),
 'plotting failed for parameter names with a slash': ('C25', 'a run at verbosity 2 with a parameter named m1/m2 ended in FileNotFoundError in plot()'),
 'likelihoods of points a chain had left were forgotten when resuming': ('C06', 'interrupted while the chain had moved on from its best point, a resumed run started with a shared largest likelihood below one that a sampler had accepted'),
 'signal handlers stayed installed after the run': ('C29', 'after CPNest(resume=True).run() SIGINT, SIGTERM and others raised CheckPoint in the program of the user'),
}
FIX.update(json.load(open(os.path.join(V, 'tools', 'more_fixes.json'))) if os.path.exists(os.path.join(V, 'tools', 'more_fixes.json')) else {})
out = []
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '52479c7..'], text=True).splitlines():
    h, s = l.split(' fix: ')
    p, w = FIX[s]
    out.append('fixed: property=%s %s %s' % (p, h, w))
f = os.path.join(V, 'known_findings.json')
old = json.load(open(f)) if os.path.exists(f) else dict(known=[])
json.dump(dict(known=old['known'], fixed=out), open(f, 'w'), indent=1)
print(len(out), 'fixed,', len(old['known']), 'known')
