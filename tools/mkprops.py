"""Writes /verif/properties.jsonl (kept in git so that the list is reviewable as code)."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))
MS='ctbayes/mjplib/skeleton.py'; MI='ctbayes/mjplib/inference.py'; HI='ctbayes/sdelib/hitting.py'; LA='ctbayes/sdelib/layers.py'
PA='ctbayes/sdelib/paths.py'; IN='ctbayes/sdelib/interpolators.py'; MO='ctbayes/sdelib/moments.py'; TR='ctbayes/sdelib/transforms.py'
EK='ctbayes/ea3lib/skeleton.py'; ES='ctbayes/ea3lib/seed.py'; IM='ctbayes/ito/mcmc.py'; IE='ctbayes/ito/mcem.py'; IS='ctbayes/ito/static.py'
SM='ctbayes/switching/mcmc.py'; SE='ctbayes/switching/mcem.py'; SS='ctbayes/switching/static.py'; ST='ctbayes/switching/types.py'
AD='ctbayes/misc/adapt.py'; AR='ctbayes/misc/ars.py'; BF='ctbayes/misc/bfactories.py'

prop('C01','Splitting and rejoining a jump path loses nothing',
 "Cutting a piecewise-constant jump path at any set of break times inside its time span, including times at which it jumps, its start and its end, yields consecutive pieces, one per interval, each starting at local time zero, whose durations are the interval lengths and which at every local time before their end are in the state the whole path has at the corresponding time. Joining the pieces gives back a path equal to the original (same jump times, states, final time), and re-cutting a joined path equals cutting the original. Evaluating a path gives the state last entered at or before the queried time (the state at the end included) and is refused beyond the final time; none of these operations changes its input.",
 ['inputs','histories'],'all paths with up to 4 segments over up to 3 states on a time grid, all break sets on a finer grid, and all short sequences of cut/join/re-cut operations',
 'The doctests cut one random path at random real times, so breaks never coincide with jumps, with each other, or with the ends of the span.',
 [MS],[('partition_skeleton',MS),('paste_partition',MS),('repartition_skeleton',MS),('sample_partition',MS),('Skeleton.__call__',MS)],['returned pieces and paths'])
prop('C02','Simulated jump paths are well formed and honour their endpoints',
 "Whatever random numbers are drawn, a simulated jump path starts at time zero, has strictly increasing jump times inside its time span, never records a jump from a state to itself, only makes jumps whose rate is positive, and starts (and, where an end state is given, ends) in the requested state. Resimulating the pieces of a partitioned path keeps every piece's duration and keeps the states at all interior cut points, so that the pieces still join to one continuous path over the same span.",
 ['inputs','histories'],'all draws (on a quadrature menu) of up to a bounded number of jumps, for generators with 2 and 3 states including zero rates and absorbing states, all endpoint pairs',
 'Doctests look at long-run occupation frequencies of one random dense generator only; wrong endpoints, self-jumps or impossible jumps are invisible there.',
 [MS],[('sample_forwards',MS),('sample_bridge',MS),('sample_backwards',MS),('mutate_partition',MS)],['returned paths'])
prop('C03','Jump-path simulators have the law of the continuous-time Markov chain',
 "Forward simulation from a given or stationary start, simulation conditioned on both endpoints, and simulation backwards from a given end state of a stationary chain each produce every sequence of visited states and every state at an intermediate time with exactly the probability the generator prescribes. The stationary distribution and transition matrix used satisfy their defining equations, and resimulating the pieces of a partitioned stationary path conditionally on the cut-point states leaves the path law unchanged.",
 ['inputs'],'all outcomes of the random draws, weighted with their exact probabilities, for a menu of asymmetric generators with 2 and 3 states, durations and endpoints',
 'Doctests compare one long path with the stationary distribution at 1e-2, which nearly any irreducible chain with the same stationary law passes, and conditioning is not tested at all.',
 [MS],[('sample_forwards',MS),('sample_bridge: uniformisation',MS),('sample_backwards',MS),('mutate_partition',MS),('get_stat',MS),('get_trans',MS)],['probabilities of returned paths'])
prop('C04','Poisson point process samplers deliver exactly a Poisson process',
 "The points drawn on a box by the direct and by the batchwise Poisson sampler are Poisson in number with mean intensity times volume, lie inside the box, are sorted in the first coordinate, and given their number are distributed as the ordered set of independent uniform points. For the batchwise sampler this holds for the concatenation of all batches and for every batch size: batches have the requested size except the last, later batches lie beyond earlier ones, and together they contain every point.",
 ['inputs','histories'],'all point counts up to a bound, all batch sizes, box dimensions 1 to 3, all draws on a quadrature menu that integrates moments exactly',
 'The doctest pools ten thousand points, where an error in the spacing of later batches is invisible; the sampler is used with a handful of points.',
 [MS],[('sample_batch_ppp',MS),('sample_ppp',MS)],['yielded batches'])
prop('C05','Learning a generator from paths is exact conjugate inference',
 "For every observed jump path, the gamma posterior returned for the transition rates equals prior times likelihood of the whole path up to its final time, so jump counts and the time spent in every state including the last are all counted. The path log-likelihood is the log density of that path under the simulator's law and is additive when a path is cut into pieces at non-jump times; reported means, modes and random draws of the generator have rows summing to zero and off-diagonal rates that are the means, modes (for shapes of at least one) and draws of the gamma distributions, hence non-negative.",
 ['inputs'],'all paths with up to 4 segments over 2 and 3 states on a time grid, a menu of hyperparameters and generators, all draws on a quadrature menu',
 'The only doctest uses a path of duration 1e5 at 10 percent tolerance, in which the contribution of the last segment and of single jumps is negligible.',
 [MI],[('update',MI),('eval_loglik',MI),('eval_logprior',MI),('get_ev / get_mode / sample_param',MI)],['returned parameters'])
prop('C06','Brownian-bridge minimum: distribution, quantile and sampler agree',
 "The distribution function of the minimum of a Brownian bridge, optionally conditioned to an interval, is non-decreasing with values in [0,1], is 0 at the lower and 1 at the upper end of its support, and equals the closed-form law; the quantile function is its inverse. The sampled minimum has that distribution, its time lies strictly inside the span, and given the minimum its time has the exact first-passage law; the version computed from fixed uniform and chi-square seeds has the same joint law.",
 ['inputs'],'a grid of endpoints, durations, conditioning intervals and probabilities; all draws on a quantile menu',
 'Doctests check the four edge values at one random parameter; the sampler doctest compares discretised paths and times out.',
 [HI,TR],[('cdf_brownbr_min',HI),('ppf_brownbr_min',HI),('sample_brownbr_min',HI),('gen_seeded_brownbr_min',TR)],['returned values'])
prop('C07','Escape decisions are exact for every seed',
 "For every uniform seed, the retrospective decision whether a Brownian bridge leaves a symmetric band, or a three-dimensional Bessel bridge exceeds a level, optionally given that it stays inside a wider band, is true exactly when the seed is below the true escape probability, so larger seeds and wider bands never turn a non-escape into an escape. The partial sums used bracket the true probability alternately from above and below once monotone, and the decision terminates.",
 ['inputs'],'a grid of durations, endpoints, levels and outer levels spanning very tight to very loose bands, and all seeds on both sides of the true probability',
 'Doctests compare frequencies at one random parameter with the very series under test, which cannot detect a wrong series or a wrong decision for rare seeds.',
 [HI],[('sample_brownbr_esc',HI),('sample_bessel3br_esc',HI),('series_brownbr_esc',HI),('series_bessel3br_esc',HI)],['returned booleans and partial sums'])
prop('C08','Layers around a bridge are nested and drawn with their exact probabilities',
 "The layer edges around a bridge start at its endpoints, widen strictly with the layer index, stay within the given outer bounds and converge to them, and mirror when the bridge is mirrored. The sampled layer index is the smallest layer containing the whole bridge, with its exact probability, also when the bridge is conditioned to stay inside finite bounds on one or both sides; the reported inner and outer sectors are those between that layer and the previous one.",
 ['inputs'],'a grid of endpoints, durations and bounds (none, one-sided, two-sided); all layer indices up to a bound; every outcome of the draws with exact probability',
 'Doctests compare with discretised paths at one random parameter by a chi-square test at 1 percent.',
 [LA],[('compute_edges',LA),('sample_layer',LA),('sample_anchor',LA)],['returned edges and indices'])
prop('C09','Unconstrained path samplers have the exact Gaussian and Bessel laws',
 "At any increasing set of times, sampled Wiener paths and Brownian bridges have exactly the mean and covariance of the process for every starting point, end point, drift and duration, and these are the moments the library's moment functions report, including for conditioning a Gaussian vector on its last coordinate; values inserted into an already revealed Wiener path are those of independent bridges between their neighbours, and leave the revealed values alone. Bessel paths and bridges are, coordinate for coordinate, Euclidean norms of such processes and so have the exact second moment, never negative; the Euler reference simulator returns one state per reported time, starting at the initial state.",
 ['inputs'],'a grid of time sets, durations, endpoints, drifts and dimensions; all sign patterns of the Gaussian noise, which determines first and second moments exactly',
 'Doctests test one random configuration with a Kolmogorov-Smirnov test at 1 percent.',
 [PA,MO,IN,'ctbayes/misc/testing.py'],[('sample_wiener',PA),('fill_wiener_vector',IN),('sample_brownbr',PA),('sample_bessel',PA),('sample_besselbr',PA),('moments_*',MO),('euler_simulate','ctbayes/misc/testing.py')],['returned arrays'])
prop('C10','Layered-bridge values respect their constraints and crossing flags',
 "Values sampled from a bridge with given infimum and optional upper limit lie between them for every draw, one value per requested time, wherever the infimum is attained (start, end or interior). When a crossing level is given, one flag per sub-interval is returned and at least one is set, a flag is set on every sub-interval with an end above the level, and the probabilities of accepting a proposal and of setting flags are exactly the conditional crossing probabilities of the bridge.",
 ['inputs'],'all draws on a quadrature menu for a grid of endpoints, infima, limits, crossing levels and 1 to 3 times, including times on either side of the minimum',
 'Doctests compare one marginal for one random configuration; flags are never looked at and several of these doctests time out.',
 [PA],[('sample_layerbr',PA),('propose_layerbr',PA),('propose_layerbr_edge',PA)],['returned values and flags'])
prop('C11','Refining a skeleton never rewrites what was revealed',
 "Asking a bridge skeleton, in original or normalised form, for values at further times keeps every previously revealed time and value, keeps times sorted, keeps the layer limits, and returns the values in the order of the requested times. A time asked again, an endpoint included, returns the value returned before and consumes no randomness, and repeated or partially overlapping requests keep the crossing flags, one per sub-interval, still marking at least one sub-interval when a crossing is known; every value stays between the limits. Mirroring a skeleton twice restores it, and inputs are not modified.",
 ['histories','inputs'],'all sequences of up to 3 requests from a menu of time sets (new, repeated, overlapping, endpoints) on all kinds of skeleton (minimum- and maximum-anchored, with and without crossing flags), for all draws on a menu',
 'The tests make one request per skeleton; re-requests and overlaps, which the coin flips for two parameter values produce on every step, are never exercised.',
 [IN,EK,ES],[('fill_wiener_outer / fill_wiener_inner',IN),('interpolate_skeleton / flip_skeleton',EK),('interpolate_seed',ES)],['returned skeleton and values'],[('Skeleton','revealed times, values, limits, crossing flags',EK)])
prop('C12','Path-functional coins and estimators are exact',
 "Flipping the acceptance coin for a path succeeds with probability exactly exp(-integral of (potential minus its reported lower bound)) and reports the log of the remaining factor, for every batch size; the likelihood estimator has exactly that expectation (for the seeded form, together with the reported factor, exp(-integral of the potential)); the coin comparing two parameter values succeeds with exactly exp(-integral of the positive part of the difference) in the requested direction. Potential bounds used along the path hold everywhere between the path's limits.",
 ['inputs','histories'],'all point counts up to a bound and all point and mark positions on a menu, for several deterministic potentials, durations, batch sizes and skeleton orientations',
 'The tests check only averages over random models through the whole pipeline, at one batch size.',
 [ES,EK],[('flip_poisson_coin',ES),('flip_dual_coin',ES),('est_poisson_coin',ES),('bound_disc_path / integrate_disc_bound',ES),('flip_poisson_coin / est_poisson_coin',EK)],['returned flags and weights'])
prop('C13','Rejection samplers return only accepted proposals and stop at their budget',
 "Every rejection-based sampler returns a proposal only if that very proposal passed all its acceptance tests, tries a fresh proposal after each failure, and raises the dedicated budget error after exactly the permitted number of failed attempts instead of returning a rejected value or looping on.",
 ['fault_sequences','inputs'],'all sequences of accept/reject answers up to a bound, for every budgeted sampler and budgets 1 to 4',
 'With budgets of 1e4 to 1e6 in the tests the budget is never reached and a rejected proposal is not recognisable.',
 [HI,LA,PA,EK,ES,BF],[('sample_layerbr_min',HI),('sample_layer, sample_edges',LA),('sample_layerbr, propose_layerbr_edge',PA),('sample_skeleton',EK),('sample_bridge',ES),('sample_twocoin, sample_twocoin_joint',BF)],['returned value or exception'])
prop('C14','The two-coin Bernoulli factories have the exact head probability',
 "Given two log-weights and two coins of unknown bias, the factory returns heads with probability exactly w1*p1/(w1*p1+w2*p2), in both the separate-coin and the joint-coin form, and with an escape probability e per failed round it escapes, returning tails marked as an escape together with the fallback (separate form) or latest (joint form) state, with exactly the probability of that scheme. The returned state is always the one delivered by the successful flip, and coins are flipped once per round.",
 ['inputs','fault_sequences'],'all outcomes of up to a bounded number of rounds with exact probabilities, over a grid of weights (including extreme ones), coin biases and escape probabilities',
 'One doctest compares a frequency at one random setting; the joint form and the escape have no running test.',
 [BF],[('sample_twocoin',BF),('sample_twocoin_joint',BF)],['returned triple'])
prop('C15','Diffusion MCMC updates leave the posterior invariant',
 "A parameter update and a path update of the diffusion sampler satisfy detailed balance with respect to prior times likelihood times path weight, with the delayed-acceptance option on or off and with any escape probability: the probability of moving between two states, weighted by the target, is the same in both directions, including the change-of-variable factor of constrained parameters. After each update the reported parameter and augmentation belong together, the proposal adaptation is told the state actually kept, and exactly one parameter changes.",
 ['inputs','histories'],'all outcomes of every draw and coin with exact probabilities for a family of models with computable coin probabilities, parameter grids, proposals and control settings',
 'The only test of parameter updates does not run (it fails at the baseline); the path update is tested for one fixture by one statistical test.',
 [IM],[('update_params',IM),('flip_param_precoin / flip_param_coins',IM),('update_sde / update_sde_bridge',IM),('MyopicRwSampler.propose',AD)],['returned parameter and augmentation'])
prop('C16','Regime-switching MCMC updates leave the posterior invariant',
 "The per-regime parameter update and the joint regime-and-path update of the switching sampler satisfy detailed balance with respect to their exact conditional posteriors, with delayed acceptance on or off: only the data and segments of a regime influence its parameter update, sections between conditioning times are accepted independently, and each accepted section brings its own path, regimes and anchors while rejected sections keep theirs. The generator update draws from its conjugate posterior given the kept regime path.",
 ['inputs','histories'],'all outcomes of every draw and coin with exact probabilities for a family of models with computable coin probabilities, 2 and 3 regimes, 2 to 5 observations, all accept/reject patterns of sections',
 'The only test of the switching sampler does not run (it fails at the baseline).',
 [SM],[('update_params / update_params_section',SM),('update_hidden / update_hidden_section',SM),('update_generator',SM)],['returned parameter, augmentation and anchors'])
prop('C17','Observations survive any sequence of hidden-path updates',
 "In the switching sampler, building, splitting, partially replacing and rejoining the hidden state any number of times keeps every observation time exactly and its observed value, keeps the final time, keeps times strictly increasing, keeps one path segment per pair of neighbouring anchors, and keeps the regime sequence consistent with the regime path from which it was built. Splitting at any subset of the interior observation times always yields one section more than split times, and any number of observations from two upwards is supported.",
 ['histories','inputs'],'all sequences of split/replace/join with all subsets of split times, on decimal (non-dyadic) observation grids and all jump placements on a grid, to a bounded depth; the real update run for many steps under every accept/reject pattern',
 'No running test joins more than one section or takes a second step; rounding drift shows only after several steps on particular grids.',
 [SM,SS,ST,AD],[('split_hidden / paste_hidden',SM),('sample_aug / sample_anchors',SS),('prune_anchorage',ST),('MyopicMjpSampler.propose',AD)],['returned anchors and segments'],[('Anchorage','times, regimes, values at observation and switching times',ST)])
prop('C18','Proposal adaptation is correct, bounded and diminishing',
 "Mapping a constrained parameter to the real line and back is the identity, stays inside the constraint, and reports the exact log-derivative in both directions. After any sequence of acceptance outcomes the proposal scale moves up after a period with acceptance above target, down below target and not at all on target, changes only at the end of growing periods and by amounts that shrink with the number of periods; proposals are centred at the last kept state with the current scale; running mean and covariance equal those of the whole sample.",
 ['histories','inputs'],'all sequences of acceptance outcomes up to a bounded length, all kinds of constraint, a grid of states and decay settings',
 'The single doctest (running moments) fails at the baseline; adaptation itself has no test.',
 [AD],[('transform_to_reals / transform_to_const',AD),('seq_update_normal',AD),('MyopicRwSampler',AD),('MyopicMvRwSampler',AD),('MyopicMjpSampler',AD)],['proposals and sampler state'])
prop('C19','Runs depend only on the supplied generator, not on scheduling',
 "With the same inputs and the same seeded generator, every sampler and estimator gives the same results, whatever the state of other random sources, in whichever order parallel tasks run or finish, and whether tasks run in the same process or on copies in other processes. All randomness is taken from the supplied generator, parallel tasks never share a random stream, and neither inputs nor module-level objects are modified.",
 ['schedules','inputs'],'all execution orders of the parallel tasks of each update (up to 5 tasks), in-process and copied, and every public sampler under watch on all other random sources',
 'The test plugin seeds all sources at once, so use of a wrong source, or a dependence on task order, cannot show.',
 [IM,SM,IE,SE,AD,'ctbayes/sdelib/','ctbayes/mjplib/'],[('spawned per-task generators',IM),('update_params, update_hidden',SM),('update_objective',IE),('propose',AD)],['returned values, generator states'])
prop('C20','Model definitions are mutually consistent',
 "For every supplied model and admissible parameter, the drift, its antiderivative and its derivative belong together, the reducing transformation, its inverse and its derivative belong together and turn the model into one of the stated volatility, the potential equals half of squared drift plus drift derivative (per unit volatility), and normalising and denormalising a path are inverse. The reported potential bounds enclose the potential over any interval, the global lower bound lies below it, reported gradients are those of the potential, and the parameter-difference bound times the parameter change encloses the change of the potential along any path between the given limits.",
 ['inputs'],'a dense grid of parameters, states, intervals, durations, endpoints and parameter pairs for all five models, scalar and vector evaluation',
 'Tests exercise two models at one random parameter and only through noisy averages.',
 ['ctbayes/ito/models/ou.py','ctbayes/ito/models/cir.py','ctbayes/switching/models/ou.py','ctbayes/switching/models/ou2.py','ctbayes/switching/models/ou3.py',IS,SS],
 [('eval_drift, sx_eval_drift, dx_eval_drift','models/*.py'),('eval_bounds_disc','models/*.py'),('eval_bounds_grad','models/*.py'),('gen_normops',IS)],['model functions'])
prop('C21','Path weights and biased likelihoods combine to the exact transition density',
 "The closed-form part of the augmented likelihood plus the log-expectation of the path functional equals the true transition density of the observed process, for diffusions and, given the regime path, for switching diffusions; for simulation with a free end point, the end point density times the path functional is proportional to it. For switching models the closed-form part splits exactly over regimes, anchors at switching times are drawn from the matching bridge law so that their density cancels, and the estimators used in expectation-maximisation add up the same terms as the likelihood.",
 ['inputs'],'a grid of parameters, observation times and values, regime paths with up to 4 switches; all anchor draws on a quadrature menu',
 'Tests compare noisy averages for one random fixture; the switching test fails at the baseline because its fixture uses another parametrisation.',
 [IS,SS,IE,SE],[('eval_biased_log_lik',IS),('eval_biased_log_lik, sample_anchors',SS),('est_aug_lik, est_log_aug_lik',IE),('est_aug_lik, est_log_aug_lik',SE)],['returned log densities'])
prop('C22','Monte Carlo EM maximises what it says, within bounds',
 "Within an iteration the objective is a deterministic function of the parameter whose evaluation consumes no randomness and equals the average over particles of the completed log posterior, with one particle per thinning interval; the returned parameter stays inside the buffered bounds, is not worse than the starting value, and is returned with its own objective value, and the support times make the discretised objective unbiased for the time integral. The generator step returns the exact maximiser of the average expected log posterior with rows summing to zero; every iteration draws its particles at the parameter and generator of the iteration before; the number of particles strictly increases between iterations and iteration stops exactly when the objective changes by less than the tolerance. Reported standard errors are the inverse of the observed information at the given parameter and absent at a bound.",
 ['inputs','histories'],'all objective sequences over a small alphabet up to a bounded length for the stopping rule, grids of neighbouring parameters and generators, all bound configurations',
 'The EM tests do not run at the baseline.',
 [IE,SE],[('maximize_posterior',IE),('update_param / update_objective / buffer_bounds',IE),('update_generator',SE),('maximize_posterior',SE)],['yielded tuples'])
prop('C23','Adaptive rejection sampling is exact for log-concave densities',
 "For a log-concave target the piecewise-linear hulls enclose the log density from above and below at every point, the envelope is sampled by exact inversion inside the support, and a draw is accepted with probability exactly the ratio of density to envelope, so that every draw has the target density no matter how many points the hull already has. Each rejected point refines the hull in sorted order up to the permitted number of points, and exactly the requested number of draws is produced.",
 ['inputs','histories'],'a menu of concave log densities with bounded and unbounded support, all draws on a quantile menu over several rounds, exact acceptance thresholds',
 'The doctest tests one target by a Kolmogorov-Smirnov test; the doctests of three of the building blocks fail at the baseline.',
 [AR],[('sample',AR),('gen_upper / eval_upper / eval_lower',AR),('sample_envelope',AR),('brace',AR)],['returned draws'])
prop('C24','Interrupting and resuming the switching sampler changes nothing',
 "Stopping a switching posterior run after any number of iterations and resuming it from the kept state continues with exactly the iterates the uninterrupted run would have produced, and every iterate belongs together: the anchors, path segments, generator and parameters have matching sizes and the regime sampler's state is the regime path of the reported anchors. A resumed run depends on no other state.",
 ['crash_points','histories'],'every interruption point up to a bound, including repeated interruptions, for several seeds, observation counts and models',
 'Resumption has no test.',
 [SS,SM],[('sample_posterior(state=...)',SS),('resume_sampling',SM),('update_joint',SM)],['yielded iterates'])
prop('C25','Path transformations are exact and invertible',
 "Reversing or mirroring a path twice restores it, reversal maps times to the remaining time and keeps value order consistent, and mirroring fixes the mirror level. Building a bridge, Bessel bridge or bridge minimum from fixed standardised seeds gives exactly the affine or norm transform of that seed for any endpoints and duration, so equal seeds give equal relative positions and the law is that of the direct samplers.",
 ['inputs'],'a grid of paths, durations, endpoints and seeds, all sign patterns of seed noise',
 'Doctests cover random values of two involutions; the Bessel construction has only a failing doctest that compares a sample with itself.',
 [TR],[('reverse / reflect',TR),('pivot_brownbr',TR),('gen_seeded_bessel3br',TR),('gen_seeded_brownbr_min',TR)],['returned arrays'])
prop('C26','Bridge skeleton proposals honour bounds, layers and symmetry',
 "A proposed bridge skeleton starts and ends at the requested points, has one revealed extremum strictly inside the span, its limits lie inside the global bounds and enclose all revealed values, and its crossing level and flags say which side intervals reach the previous layer. Given its end points, layer, side, extreme value, its time and flags have the exact joint probabilities of the Brownian bridge conditioned to stay within the bounds, and a proposal for a free end point that leaves the bounds is rejected with exactly the probability of leaving; the same holds for proposals in normalised coordinates mapped through a model.",
 ['inputs'],'all outcomes of the draws with exact probabilities for escape decisions and on a quantile menu for extrema, for a grid of endpoints, durations and bounds',
 'The tests only use unbounded proposals and look at interpolated values of one random configuration.',
 [EK,ES,LA],[('sample_raw_skeleton / sample_skeleton',EK),('sample_raw_seed',ES),('sample_edges / sample_anchor',LA)],['returned skeleton'])
with open(os.path.join(H,'properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
