#!/usr/bin/env python3
"""Source of properties.jsonl (one entry per property)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name","meaning","where"), s)) for s in state],
        "mechanism": [dict(zip(("name","where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": None}})
J="jajapy/"
prop("C01","Untimed log-likelihood is the weighted path-sum log probability",
 "For every MC, HMM, MDP, CTMC or instantiated PCTMC and every non-empty multiset of untimed traces, `logLikelihood` returns the sum over distinct traces of (multiplicity x ln of the total probability of all state paths that start in an initial state and generate the trace), divided by the total number of traces. A trace the model cannot generate contributes 0 to that sum but still counts in the denominator.",
 ["inputs"],"every model (any size, several initial states, nondeterministic labels, zero-probability entries), every multiset of traces of any length >= 1",
 "The tests evaluate one hand-built model per class on one or two sets; they never reach hidden (ambiguous) paths with several initial states, impossible traces, repeated traces or length-1 traces.",
 [J+"base/Model.py",J+"mdp/MDP.py",J+"ctmc/CTMC.py",J+"pctmc/PCTMC.py",J+"hmm/HMM.py"],
 [("forward recursion per trace and weighted sum",J+"base/Model.py:_logLikelihood_multiproc,_computeAlphas"),("MDP variant",J+"mdp/MDP.py:_computeAlphas")],
 [("initial_state, matrix, labelling/output","the model",J+"base/Model.py")],["Model.logLikelihood"])
prop("C02","Timed log-likelihood is the path-sum density of dwell times and labels",
 "For every CTMC or instantiated PCTMC and every multiset of timed traces (label, dwell time, label, ...), `logLikelihood` is the multiplicity-weighted average of ln of the sum, over all state paths labelled by the trace, of the initial probability times the product of rate(s,s') * exp(-exit_rate(s) * dwell). A trace the model cannot generate contributes 0 to the sum but still counts in the denominator (a CTMC under which no trace at all is possible reports the sentinel -9999).",
 ["inputs"],"all rate matrices, labellings with ambiguity, dwell times and multiset weights",
 "One fixed CTMC and a handful of traces are tested, with one expected number each.",
 [J+"ctmc/CTMC.py",J+"pctmc/PCTMC.py"],
 [("timed forward recursion",J+"ctmc/CTMC.py:_computeAlphas_timed, lkl, l"),("same for PCTMC",J+"pctmc/PCTMC.py:_computeAlphas_timed")],(),["CTMC.logLikelihood","PCTMC.logLikelihood"])
prop("C03","Baum-Welch on MC and HMM performs exact EM steps",
 "One Baum-Welch iteration on an MC or HMM replaces every transition (and emission) probability of each state by its expected count divided by the expected number of visits to that state over the training multiset (forward-backward posterior; the unobserved jump after the last observation counts with its current distribution), and leaves states that no training trace can use unchanged. An HMM's initial distribution becomes the average posterior of the first state; an MC's is untouched. Consequently rows stay probability distributions, zero probabilities stay zero, labels and alphabet are untouched, and the training likelihood never decreases; training traces impossible under the hypothesis are ignored.",
 ["inputs","histories"],"every hypothesis, training multiset, number of iterations",
 "Tests compare one learned model with one stored result after convergence; a wrong posterior that still converges there passes.",
 [J+"base/BW.py"],[("E step",J+"base/BW.py:_processWork_MC,_processWork_HMM"),("M step",J+"base/BW.py:_update_MC,_update_HMM")],
 [("h","current hypothesis",J+"base/BW.py")],["BW.fit"])
prop("C04","Baum-Welch on MDP performs exact EM steps per state and action",
 "One Baum-Welch iteration on an MDP replaces P(.|s,a) by expected count of s-a->s' divided by expected number of times action a is taken in s, for the (s,a) pairs the training multiset can use, and leaves all other (s,a) rows unchanged. Rows stay probability distributions, zeros stay zero, labels, actions and initial distribution are untouched and the training likelihood never decreases.",
 ["inputs","histories"],"every MDP hypothesis (partially enabled actions), training multiset, number of iterations",
 "One MDP with one training set is tested to convergence.",
 [J+"base/BW.py"],[("E/M step",J+"base/BW.py:_processWork_MDP,_update_MDP")],(),["BW.fit"])
prop("C05","Baum-Welch on CTMC performs exact EM steps and respects fixed rates",
 "One Baum-Welch iteration on a CTMC sets every non-fixed rate from s to s' to the expected number of s->s' jumps divided by the expected time spent in s (timed traces), or, for untimed traces, to the re-estimated jump probability from s to s' (unit exit rate), over the training multiset. Rates marked as fixed never change, states no trace can use keep all their rates, zero rates stay zero, labels and initial distribution are untouched, and with no fixed rate the training likelihood never decreases.",
 ["inputs","histories"],"every CTMC hypothesis, timed or untimed training multiset, mask of fixed rates, number of iterations",
 "One CTMC, one training set, one mask-free run are tested.",
 [J+"base/BW.py"],[("E/M step",J+"base/BW.py:_processWork_CTMC,_update_CTMC")],(),["BW.fit"])
prop("C06","GoHMM densities, likelihood and Baum-Welch step are exact",
 "For every GoHMM the emission probability of a vector is the product over its components of the Gaussian density with that state's mean and standard deviation, `logLikelihood` is the weighted average of ln of the sum over state paths of transition times emission probabilities, and one Baum-Welch iteration sets transitions to expected counts over expected visits, the initial distribution to the average posterior of the first state, means to posterior-weighted averages and deviations to the root of the posterior-weighted average squared distance to the previous mean. States no trace can use keep their parameters.",
 ["inputs","histories"],"every GoHMM (any number of states and components), training set and number of iterations",
 "The GoHMM test module does not even import in the baseline; nothing samples it.",
 [J+"gohmm/GoHMM.py",J+"base/BW.py",J+"base/tools.py"],[("emission",J+"gohmm/GoHMM.py:b; "+J+"base/tools.py:normpdf"),("E/M step",J+"base/BW.py:_processWork_GoHMM,_update_GoHMM")],(),["GoHMM.b","GoHMM.logLikelihood","BW.fit"])
prop("C07","PCTMC learning re-estimates parameters by exact EM",
 "For every PCTMC whose rates are constants or monomials (coefficient times a product of powers of parameters) and every training set of timed or untimed traces, one learning iteration sets every free parameter p from x to the y with SUM a*X = SUM a*D*rate*(y/x)^C over the transitions that use p, where a is the degree of p in the rate, C the total degree of all free parameters in it, X the expected number of jumps through the transition and D the expected time spent in its source (untimed: expected visits over exit rate); for rates proportional to p this is jumps over dwell time times coefficient. Constants become X/D when `update_constant` is on and otherwise stay; parameters in `fixed_parameters`, parameters no trace can inform, labels, initial distribution and the other expressions stay. After every iteration the rates are the expressions at the current values, the reported log-likelihood is the total weighted one of the hypothesis entering the iteration, k iterations at once equal k single ones, and the likelihood never decreases. `fit_parameters` (for a training set in which all the labels occur) and `fit_nonInstantiatedParameters` update only the named (the uninstantiated) parameters, in the model given, and return their values; uninstantiated parameters start between `min_val` and `max_val`.",
 ["inputs","histories"],"every PCTMC with monomial rates, parameter/constant sharing pattern, timed or untimed training set, fixed-parameter list, iterations",
 "The PCTMC learning test is failing in the baseline; no stable test covers this code.",
 [J+"base/BW.py",J+"pctmc/PCTMC.py",J+"base/Parametric_Model.py"],[("E/M step",J+"base/BW.py:_processWork_PCTMC,_update_PCTMC,_sortParameters"),("propagation",J+"base/Parametric_Model.py:instantiate,evaluateTransition")],(),["BW.fit","BW.fit_parameters","BW.fit_nonInstantiatedParameters"])
prop("C08","Results do not depend on workers, schedule, order or grouping",
 "For every model and training/test set, log-likelihoods and Baum-Welch results are the same (up to floating-point rounding) whatever the number of worker processes, the order in which workers finish, the single-process code path used on other platforms, the order of the traces in the set, and whether repeated traces are listed separately or grouped with a multiplicity. In particular a trace that is impossible under the model never changes that.",
 ["schedules","inputs","configurations"],"all worker counts and completion orders, all permutations and groupings of the set, all model classes",
 "Tests run once with the machine's default worker count on Linux and never the single-process path.",
 [J+"base/BW.py",J+"base/Model.py",J+"mdp/MDP.py",J+"ctmc/CTMC.py",J+"pctmc/PCTMC.py"],[("task fan-out and collection",J+"base/BW.py:_runProcesses"),("likelihood fan-out",J+"base/Model.py:_logLikelihood_multiproc,_logLikelihood_oneproc")],(),["BW.fit(processes=..)","Model.logLikelihood"])
prop("C09","Baum-Welch stops, reports and stores exactly what it did",
 "A Baum-Welch run performs iterations until the training log-likelihood improved by less than `epsilon` or `max_it` iterations were done, whichever comes first; the reported `learning_rounds` is the number of iterations performed and `training_set_loglikelihood` is the total training log-likelihood of the hypothesis that entered the last iteration. The returned model, the model given as initial hypothesis, the file written to `output_file` and the model written to `output_file_prism` all describe the same final hypothesis, and running k then m iterations equals running k+m. What is learned does not depend on the form in which the hypothesis and the training set are given (Set, list or array of traces, with or without the leading 'init', jajapy or Storm models); the traces given are left as they were, and traces of another kind than the hypothesis are rejected.",
 ["histories","inputs","configurations"],"all epsilon / max_it combinations, model classes and training sets",
 "Tests only look at the converged model with default stopping parameters.",
 [J+"base/BW.py"],[("main loop",J+"base/BW.py:_bw")],[("counter, prevloglikelihood","loop state",J+"base/BW.py:_bw")],["BW.fit(return_data=True, output_file=..)"])
prop("C10","A Set is a faithful multiset of traces",
 "Whatever sequence of constructions from lists, merges, sorts, saves and loads, a Set represents exactly the multiset of traces put into it: each distinct trace once with its exact multiplicity, listing it back and reloading a saved file give an equal Set of the same kind, merging adds multiplicities and leaves the other Set unchanged, and `isEqual` holds exactly for Sets of the same kind with the same multiset regardless of order. The reported alphabet, observations and actions are exactly those that occur.",
 ["histories","inputs"],"all histories of Set operations over all kinds of traces (labels, MDP, vectors, timed)",
 "Tests check equality on two generated sets and one save/load.",
 [J+"base/Set.py"],[("grouping",J+"base/Set.py:setFromList"),("merge",J+"base/Set.py:addSet"),("equality",J+"base/Set.py:isEqual"),("persistence",J+"base/Set.py:save,loadSet")],[("sequences,times,type","distinct traces, multiplicities, kind",J+"base/Set.py")],["Set.*","loadSet"])
prop("C11","Generated traces are possible runs with the right frequencies",
 "Every trace generated by an MC, HMM, GoHMM, CTMC or PCTMC (single run or set) is one the model can produce: it starts in an initial state, follows only transitions of positive probability or rate, has the requested number of steps (the requested lengths, or at least min_size plus one for geometric lengths), and a generated set contains exactly the requested number of traces counted with multiplicity, timed exactly when asked. Over many runs initial states, transitions, emissions and dwell times occur with the model's probabilities, independently of the past given the current state, and generation leaves the model unchanged. A CTMC or PCTMC run that reaches a state without outgoing rate ends there; for the other classes this concerns models whose reachable states can move.",
 ["inputs","histories"],"every model (including absorbing states, very slow and very fast rates, several initial states) and generation parameters",
 "Tests generate one set per model and compare only set-level equalities.",
 [J+"base/Model.py",J+"base/tools.py",J+"mc/MC.py",J+"base/Base_HMM.py",J+"ctmc/CTMC.py",J+"pctmc/PCTMC.py",J+"gohmm/GoHMM.py"],[("sampling",J+"base/tools.py:resolveRandom"),("race of exponentials",J+"ctmc/CTMC.py:next"),("set assembly",J+"base/Model.py:generateSet")],(),["run","generateSet"])
prop("C12","Schedulers and MDP runs respect each other",
 "A finite-memory scheduler moves through its memory states exactly along its (state, observation) table from its initial state, chooses actions only with its distribution in the current memory state, is reset at the start of every run, and reports the same state sequence and action probabilities for any observation sequence. Every MDP run alternates observations and actions, takes exactly the requested number of actions, each chosen by the scheduler and each followed by an observation of a state reachable with that action; MDP sets have the requested size, lengths and kind. Over many runs actions occur with the scheduler's probabilities (an action not available in the state is drawn again; an unavailable action of a memoryless scheduler is an error) and observations with the MDP's; the scheduler is told every observation once, in order, as the run leaves the state showing it.",
 ["histories","inputs"],"all schedulers (tables with partial observations, several memory states), MDPs, observation histories",
 "Only the uniform scheduler on one MDP is tested.",
 [J+"mdp/Scheduler.py",J+"mdp/MDP.py"],[("scheduler automaton",J+"mdp/Scheduler.py:FiniteMemoryScheduler"),("run loop",J+"mdp/MDP.py:run,next,generateSet")],[("scheduler state","current memory state",J+"mdp/Scheduler.py")],["MDP.run","MDP.generateSet","FiniteMemoryScheduler.*"])
prop("C13","Saving and loading a model is the identity",
 "For every MC, HMM, GoHMM, MDP, CTMC and PCTMC (including synchronous transitions, parameters, instantiated or not), saving it to a file and loading it back gives a model of the same class with identical name, labels, actions/alphabet, initial distribution, transition probabilities or rates, emissions, parameter names, values and expressions (expressions identical as functions), and saving it does not change it. Loading a file of another model class never yields a model of the wrong class.",
 ["inputs","histories"],"all models of all classes",
 "Tests save/load one model per class and compare string renderings.",
 [J+"base/Model.py",J+"base/Base_MC.py",J+"base/Base_HMM.py",J+"base/Parametric_Model.py",J+"mc/MC.py",J+"hmm/HMM.py",J+"gohmm/GoHMM.py",J+"mdp/MDP.py",J+"ctmc/CTMC.py",J+"pctmc/PCTMC.py"],[("writers","_save in the model classes"),("readers","loadMC, loadHMM, loadGoHMM, loadMDP, loadCTMC, loadPCTMC")],(),["save","load*"])
prop("C14","Conversion to and from Storm and Prism preserves the model",
 "Converting an MC, MDP, CTMC or instantiated PCTMC to a Storm model, or writing it as a Prism file and loading it back, preserves behaviour: the reachable state space with its labels and initial state, every transition probability or rate, and (for MDP) the actions available in each state with their names and distributions, hence every trace keeps the same probability. Absorbing states stay absorbing (loadPrism removes the self-loop Storm adds to them). Converting back from Storm yields a jajapy model with that same behaviour (a state labelled 'init' and something else is split), learning from a Storm model equals learning from its jajapy counterpart, an uninstantiated PCTMC is refused, and conversions do not change the source model.",
 ["inputs"],"all MCs, CTMCs, MDPs and PCTMCs (absorbing states, several initial states, partially available actions, third-party Storm models and Prism programs)",
 "One model per class is converted in the tests.",
 [J+"with_stormpy/model_converter.py",J+"base/Base_MC.py",J+"mc/MC.py",J+"mdp/MDP.py",J+"ctmc/CTMC.py",J+"pctmc/PCTMC.py"],[("sparse matrix builders",J+"with_stormpy/model_converter.py"),("prism writers","savePrism in the model classes")],(),["jajapyModeltoStormpy","stormpyModeltoJajapy","savePrism","loadPrism"])
prop("C15","Alergia returns the exact state-merging result",
 "For every multiset of traces and every alpha, Alergia returns the MC obtained from the frequency prefix tree by red-blue state merging (each blue state, taken as the successors of the red states in order of promotion and then by label, is merged with determinising folding into the first compatible red state, in order of promotion, or promoted): two states are compatible when they have equal labels and for every label the fractions of outgoing traces n1, n2 that continue with it differ by less than (sqrt(1/n1)+sqrt(1/n2))*sqrt(ln(2/alpha)/2), recursively (states without outgoing traces pass). Merging conserves frequencies: every transition probability is the merged outgoing count divided by the total merged outgoing count, every training trace remains possible, the training set is not modified, and the result does not depend on the order or grouping of the traces given. The Storm model returned and the Prism file written are that same model.",
 ["inputs"],"all multisets of label traces (all starting with 'init', or none containing it) and alpha in (0,1]",
 "The only Alergia test fails in the baseline, and covers a single sample.",
 [J+"mc/Alergia.py",J+"base/tools.py"],[("merge loop",J+"mc/Alergia.py:fit"),("test",J+"mc/Alergia.py:compatible; "+J+"base/tools.py:hoeffdingBound"),("folding",J+"mc/Alergia.py:merge,fold")],[("frequency tree","counts and kids",J+"mc/Alergia.py:PTA")],["Alergia.fit"])
prop("C16","IOAlergia returns a deterministic MDP that explains the sample",
 "For every multiset of action/observation traces, IOAlergia returns a well-formed MDP whose rows are distributions, that is deterministic (for each state, action and next label at most one successor), whose labels and actions are those of the sample, in which each state enables only actions the sample took there, and under which every training trace has positive probability. It is exactly the red-blue merging of the frequency prefix tree (blue states in lexicographic order of their prefix, each merged into the first compatible red state in order of promotion, or promoted), where states are compatible when labels agree and, for every action and label that both continue with, the fractions of the traces taking that action differ by less than the Hoeffding bound, recursively; merging adds up frequencies, so every probability is a ratio of merged counts. In particular, when no two states pass the test the result is the prefix tree itself: every transition probability is (count of the extended prefix)/(count of the prefix followed by the action). The Storm model returned and the Prism file written are that same model.",
 ["inputs"],"all multisets of MDP traces starting with 'init', all epsilon in (0,1]",
 "One sample from one MDP is tested, comparing a likelihood loosely.",
 [J+"mdp/IOAlergia.py"],[("IOFPTA",J+"mdp/IOAlergia.py:_buildIOFPTA"),("compatibility/merge",J+"mdp/IOAlergia.py:compatible,merge"),("export",J+"mdp/IOAlergia.py:cleanMDP")],(),["IOAlergia.fit"])
prop("C17","Synchronous composition is the product of the components",
 "Composing two CTMCs, or any number of PCTMCs, yields the PCTMC (up to states that cannot be reached from 'init') whose states are the tuples of component states labelled by all their labels: local transitions interleave with their own rate, an action is performed jointly by all the components that know it with the product of their rates (alone, if only one knows it), rates between the same states add up, and the initial distribution is the product one. Each rate of a composed CTMC becomes a parameter with that value shared by all its occurrences, and parameters, their values and their list of transitions are those of the components. The result does not depend on previous compositions, and composing leaves the components unchanged. This concerns components with one 'init' state.",
 ["inputs","histories"],"all pairs (and triples) of CTMC/PCTMC components with local and synchronous transitions, self-loops, several labels, any history of earlier compositions",
 "One pair of CTMCs is composed in the tests.",
 [J+"ctmc/CTMC.py",J+"pctmc/PCTMC.py"],[("CTMC product",J+"ctmc/CTMC.py:synchronousCompositionCTMCs"),("PCTMC product",J+"pctmc/PCTMC.py:synchronousComposition2PCTMCs")],(),["synchronousCompositionCTMCs","synchronousCompositionPCTMCs"])
prop("C18","PCTMC instantiation is atomic and consistent",
 "After any history of creations and instantiations, a PCTMC's rate for each transition is its expression evaluated at the current parameter values (a transition is uninstantiated exactly when it involves an uninstantiated parameter), and parameters not named keep their values. An instantiation that would make an instantiated rate negative, or that names an unknown parameter, is rejected and changes nothing (rates exactly 0 are accepted); random instantiation only sets uninstantiated (or named) parameters to values within its bounds (by default the smallest and largest current values).",
 ["histories","inputs"],"all PCTMCs and all sequences of (partial, invalid, repeated) instantiations",
 "The instantiation test fails depending on order in the baseline; the others only instantiate once, successfully.",
 [J+"base/Parametric_Model.py",J+"pctmc/PCTMC.py"],[("instantiate",J+"pctmc/PCTMC.py:instantiate,_checkRates; "+J+"base/Parametric_Model.py:instantiate"),("evaluation",J+"base/Parametric_Model.py:transitionValue,evaluateTransition,isInstantiated")],[("parameter_values, parameter_str, transition_expr","current valuation and expressions",J+"base/Parametric_Model.py")],["PCTMC.instantiate","randomInstantiation","l","e","transitionValue","parameterValue","isInstantiated"])
prop("C19","Building a model encodes exactly what was specified",
 "For every transition list, labelling, emission and initial state/distribution, createMC/HMM/GoHMM/MDP/CTMC/PCTMC give a model with exactly these probabilities or rates and labels and with an added state labelled 'init' (not for HMM/GoHMM) carrying the initial distribution; specifications whose rows are not distributions (sum not 1), that use 'init' as a label or give too few labels are rejected (sums are compared after rounding to 3 digits), and the arguments given are left unchanged. The random generators return well-formed models of the requested size over the requested labels/actions, within the requested bounds (mean waiting times of CTMC_random, means and deviations of GoHMM_random), and the same model for the same seed.",
 ["inputs"],"all specifications valid and invalid, all generator parameters and seeds",
 "Tests build a few fixed models and one random MC.",
 [J+"mc/MC.py",J+"hmm/HMM.py",J+"gohmm/GoHMM.py",J+"mdp/MDP.py",J+"ctmc/CTMC.py",J+"pctmc/PCTMC.py",J+"base/tools.py",J+"base/Base_MC.py"],[("builders","createMC, createHMM, createGoHMM, createMDP, createCTMC, createPCTMC"),("validation",J+"base/tools.py:checkProbabilities"),("generators","MC_random, HMM_random, GoHMM_random, MDP_random, CTMC_random")],(),["create*","*_random","constructors"])
prop("C20","Queries report the model's parameters and never modify anything",
 "For every model, the accessors (tau, a, b, l, e, lkl, pi, expected_time, getLabel, getActions, getAlphabet) return exactly the values given by its transition matrix, labels/emissions and initial distribution, and CTMC.toMC returns the MC of jump probabilities; questions about a state the model does not have are rejected. No query - accessors, logLikelihood, printing, save, savePrism, toMC, toStormpy, run, generateSet, Set.to_list/isEqual/getAlphabet - changes the model's parameters, labels or the contents of the Set it is given, so asking twice gives the same answer.",
 ["inputs","histories"],"all models and all histories of queries",
 "Tests call each accessor on a few states of one model and never look for side effects.",
 [J+"base/Model.py",J+"base/Base_MC.py",J+"base/Base_HMM.py",J+"mc/MC.py",J+"hmm/HMM.py",J+"mdp/MDP.py",J+"ctmc/CTMC.py",J+"pctmc/PCTMC.py",J+"gohmm/GoHMM.py"],[("accessors","tau,a,b,l,e,lkl,expected_time in the model classes"),("embedded chain",J+"ctmc/CTMC.py:toMC")],(),["all public queries"])
prop("C21","Active learning samples as asked and learns from everything it sampled",
 "Active Baum-Welch for MDPs first fits the initial hypothesis on the given traces; each active iteration then draws exactly nb_sequences runs of the requested length (default: the length of the first given trace) from the system under learning and adds them all to its own training multiset, losing no earlier trace and leaving the given set unchanged. With learning rate 0 the next hypothesis is the Baum-Welch fit on the whole multiset, with a number lr it is lr times the fit on the new sample plus (1-lr) times the previous hypothesis, and with 'dynamic' the weight is the share of the new sample in the multiset. Each run follows, with probability epsilon_greedy, the active scheduler - which keeps the belief over the hypothesis' states given the run, and picks an action with probability growing with how often the other actions were used there, never repeating one just refused - and otherwise a uniform scheduler. Labels, actions and initial distribution never change and rows stay distributions; max_it bounds the iterations; the returned model, the object given as hypothesis and the output files agree.",
 ["histories","inputs","schedules"],"all SULs, learning rates, iteration counts, sequence lengths and exploration parameters",
 "No stable test covers active learning.",
 [J+"mdp/Active_BW_MDP.py"],[("sampling",J+"mdp/Active_BW_MDP.py:_addTraces"),("merge",J+"mdp/Active_BW_MDP.py:_mergeModels"),("strategy",J+"mdp/Active_BW_MDP.py:_strategy")],(),["Active_BW_MDP.fit"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
open(out, "w").write("".join(json.dumps(p)+"\n" for p in P))
for p in P: assert len(p["title"])<=80, p["id"]
