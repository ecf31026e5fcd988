"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
TN="src/flowstab/temporal_network.py"; NC="src/flowstab/network_clustering.py"
FS="src/flowstab/flow_stability.py"; ST="src/flowstab/state_tracking.py"
PC="src/flowstab/parallel_clustering.py"; PE="src/flowstab/parallel_expm.py"
S1="src/flowstab/scripts/run_laplacians_transmats.py"
S2="src/flowstab/scripts/run_cov_integrals.py"
S3="src/flowstab/scripts/run_clusterings.py"
SY="src/flowstab/synth_temp_network.py"; HE="src/flowstab/helpers.py"
SM="src/flowstab/sparse_stoch_mat.py"
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=observe,hook_needed=hook)))

prop("C01","Transition-matrix jobs converge after any crash, fault or restart",
 "However a transition-matrix job is killed, loses workers, loses power, runs out of disk space or memory, or meets read and write errors, on any number of attempts, one later undisturbed run of the same job leaves in the results directory exactly the result files of a run that was never disturbed, each with the same content up to rounding. A failure while one time slice or waiting time is treated never leaves a wrong result file for that or any other slice, waiting time or direction, and result files that are already there are not damaged by a later run.",
 ["crash_points","fault_sequences","schedules","configurations"],
 "every kill, power-loss, I/O-error, allocation-failure and worker-loss point of every attempt, every worker interleaving, every supported combination of output options (exponential and linear matrices, sparse stochastic or plain matrices, compressed, differences, slice products, flow integrals, static adjacency, batches)",
 "No test runs the script at all; the tests of the library never kill a process or fail a write, and the outcome depends on the point of the fault and on what earlier attempts left on disk.",
 [S1,TN,HE],[("skip what already exists","worker() in "+S1),("write to a hidden file, then replace","atomic_write in "+HE),("one interval per task, exceptions confined to it","worker() in "+S1)],
 ["files in --savedir after each attempt"])
prop("C02","Covariance-integral jobs resume to the result of an undisturbed run",
 "However a covariance-integral job is killed, loses workers or power, or meets I/O or memory errors, on any number of attempts, one later undisturbed run of the same job leaves exactly the integrals of a run that was never disturbed, with the same matrices and integration times up to rounding. This holds whether a restart continues from integrals, from intermediate steps, from both or from none, and for any mix of exponential and linear matrices, time directions, starting points and waiting times.",
 ["crash_points","fault_sequences","schedules","configurations"],
 "every fault point of every attempt, every subset of integrals and intermediate files that interrupted attempts can leave behind, every supported option of the script",
 "No test runs the script; the restart logic is only reached when some but not all results exist, and which ones exist depends on the crash point.",
 [S2,TN,HE],[("restart from the longest stretch of existing integrals","worker() in "+S2),("restart from intermediate steps","worker() in "+S2),("rebuild the transition matrix from slice products","load_trans_mat in "+S2)],
 ["files in --savedir after each attempt"])
prop("C03","Clustering jobs converge after any crash, fault or restart",
 "However a clustering job is killed, loses workers or power, or meets I/O or memory errors, on any number of attempts, one later undisturbed run of the same job leaves one result file for every integral file that has none yet, and no other result. Every result file, whichever attempt wrote it and even if it was resumed from temporary results, is self-consistent: the requested number of repetitions, each with a seed that reproduces its partition and stability on that integral, partitions that cover every node once, and averages, counts and variation of information that follow from them.",
 ["crash_points","fault_sequences","schedules","configurations"],
 "every fault point of every attempt, every set of result and temporary files left behind, every file and process split and every supported option",
 "No test runs the script; resuming from temporary results is only reached after a crash in a particular window.",
 [S3,NC,HE],[("skip files already treated","worker() in "+S3),("temporary clustering results","worker() in "+S3)],
 ["files in --savedir after each attempt"])
prop("C04","A result file that exists under its final name is complete",
 "At every instant, including right after a kill or power loss at any point of a write, every file present under a result name of any stage can be loaded and has its full content: it is never empty, truncated or a mixture of two versions. Other programs, or the next stage started at any moment, therefore never read or count a partial result, and leftovers of interrupted writes are never taken for results.",
 ["crash_points","schedules","fault_sequences"],
 "every instant of every write of every stage and of every library save, with any interleaving of concurrent writers and readers, and any loss of data that was not synchronised to disk",
 "Tests write to an ideal disk and look at files only after the call has returned.",
 [HE,TN,S1,S2,S3],[("hidden temporary file, fsync, atomic replace","atomic_write in "+HE)],
 ["directory listing and content at every file-system step"])
prop("C05","Saving and loading is lossless, and a failed save loses nothing",
 "What is loaded from a file equals what was saved in it (networks with their matrices, inter-event and slice transition matrices, plain, sparse stochastic, as differences or compressed), up to the stated rounding tolerance. A save that cannot complete raises an error and leaves the previous version of the file as it was, where replacement is optional an existing file is only replaced when asked for, and loading a missing or truncated file raises an error instead of returning data.",
 ["inputs","fault_sequences","crash_points","histories"],
 "every network and matrix content, every save option, every write or read fault and crash point, every history of saves and loads on the same names",
 "Tests save and load one small object on a disk that never fails.",
 [TN,HE,SM],[("save and load pairs","ContTempNetwork.save*/load* in "+TN),("atomic replace","atomic_write in "+HE)],
 ["return values and exceptions of save and load calls, file content"])
prop("C06","Results do not depend on workers, batches, schedules or listing order",
 "The results of each stage are the same, up to rounding, for any number of worker processes, any split into batches run at the same time or one after the other, any order in which workers take and finish tasks, any order in which the file system lists files, and any clock. Every slice, waiting time, interval and file asked for is treated, by exactly one batch, and nothing else is.",
 ["schedules","configurations","inputs"],
 "every worker count, batch split, task interleaving, directory order and clock behaviour, for every network and supported option",
 "Tests never run the stages, and a real run shows one schedule and one directory order only.",
 [S1,S2,S3],[("task lists and batch split","main() of the three scripts"),("file names as the only link between stages","worker() of the three scripts")],
 ["files in --savedir"])
prop("C07","The staged pipeline computes the same analysis as the mathematics",
 "For every temporal network, slicing, grid and waiting time, the matrices, integrals and clusterings that the three command-line stages exchange through files agree with an independent direct computation on the event list: each slice file holds the transition matrices of exactly its own time window in the stated direction, each integral is the forward or backward flow integral between its two grid points, and each clustering result is the stability of its partition of that integral. Neither the slicing nor rounding of names nor other files in the directory changes the outcome.",
 ["inputs","configurations","schedules"],
 "every event list with positive durations and no overlapping events on the same pair, every slicing, grid, waiting time and direction, under any schedule",
 "No test chains the stages; unit tests use one toy network and never compare with an independent computation.",
 [S1,S2,S3,TN,NC],[("slice boundaries snapped to event times","_get_closest_time in "+TN),("integration over slices","worker() in "+S2),("covariance from integral file","load step in "+S3)],
 ["files in --savedir of every stage"])
prop("C08","Parallel matrix exponentials equal the serial ones",
 "The matrix exponential computed with several processes, by components or by subspaces, is the exponential of the given matrix up to rounding, for any number of processes and any order in which the parts finish, and does not modify its input. If a part cannot be computed the call raises an error and never returns a matrix with a missing or stale part.",
 ["schedules","inputs","fault_sequences"],
 "every Laplacian-like sparse matrix with any component structure, every process count, every finishing order, every worker exception, in any sequence of calls",
 "Tests compare a few fixed matrices under the one schedule the machine happens to produce.",
 [PE,TN],[("split by connected components, reassemble by index","compute_parallel_expm in "+PE),("subspace exponential","compute_subspace_expm in "+TN+" and "+PE)],
 ["return value and exceptions"])
prop("C09","Parallel Louvain returns consistent results of the given covariance",
 "A parallel clustering returns exactly as many results as asked for, each a partition, its stability and its seed that belong together: running the clustering once with that seed on the same covariance gives the same partition and stability. This holds for dense and sparse covariances, symmetric or not, for any number of processes, any order of completion, any randomness and several calls in a row, and the given clustering is left as it was.",
 ["schedules","inputs","histories"],
 "every covariance, process count, repetition count, task order and seed sequence",
 "Tests check shapes for one matrix under one schedule.",
 [PC,NC],[("shared arrays rebuilt in the workers","_init_sub_worker* in "+PC),("one seed per task, returned with the result","_compute_sym_*_fct in "+PC)],
 ["return value"])
prop("C10","Parallel variation of information covers the right pairs once",
 "The parallel normalised variation of information returns one value per sampled pair: with no sample size, or one that is too large, every unordered pair of the given partitions exactly once, otherwise that many distinct pairs, in the order of the pairs. Each value is the normalised variation of information of its pair, independent of the number of processes and of the order in which they finish. The average variation of information of a list is the average over such a set of pairs.",
 ["schedules","inputs"],
 "every list of partitions, sample size, process count, task order and random choice",
 "Tests use one list of partitions under one schedule and do not check which pairs are covered.",
 [PC,NC],[("sampling of pairs","compute_parallel_nvi in "+PC),("order-preserving map","compute_parallel_nvi in "+PC),("average over pairs","avg_norm_var_information in "+NC)],
 ["return value"])
prop("C11","A failing worker is reported and leaves nothing behind",
 "When a worker of a parallel library computation raises an error, the caller gets an error and no result that pretends to be complete. The next call, with the same or other data, then works and returns its own results only; no data of an earlier, failed or concurrent computation appears in it.",
 ["fault_sequences","histories","schedules"],
 "every failing task and failure point, every sequence of failed and successful calls, sparse and dense, every schedule",
 "Tests never make a worker fail and call each function once per process.",
 [PC,PE,NC],[("pool as context manager","compute_parallel_* in "+PC+", "+PE),("worker globals set by the initializer","var_dict in "+PC)],
 ["exceptions and return values of consecutive calls"])
prop("C12","The guided analysis allows exactly the steps whose inputs are ready",
 "In a guided analysis a step runs only if everything it depends on has been set and computed since the last change; otherwise it is refused with a warning and nothing changes. A step that fails with an error leaves the analysis where it was, changing an input makes precisely the steps that depend on it necessary again, and following the announced missing inputs and next step always reaches the end in a bounded number of steps, for each time direction.",
 ["histories","fault_sequences"],
 "every sequence of setting inputs (valid, invalid or none), running steps in any order, failures inside steps, and repetitions",
 "Tests exercise single transitions on toy classes, not histories, and never a failing step.",
 [FS,ST],[("minimal and next state of each step","register in "+ST),("required inputs per state","StateMeta.init_state in "+ST),("setters take the state back","wrapped_setter in "+ST)],
 ["state.current, state.next, warnings, results"])
prop("C13","A guided analysis always shows results of its current settings",
 "Whenever a guided analysis has reached its end, its clusterings are those that a new analysis with the current network, time window, time scales, direction and approximation would give, for exactly the current time scales and direction. What was set or computed before, in whatever order, and what failed or was interrupted in between, has no influence.",
 ["histories","fault_sequences","inputs"],
 "every history of changed inputs, repeated, failed and interrupted steps that ends in the final state",
 "Tests run a single analysis once; stale results need a change of settings between two passes.",
 [FS,TN,NC],[("time window of the matrices","set_flow_clustering in "+FS),("caches by rate","inter_T in "+TN)],
 ["flow_clustering_forward, flow_clustering_backward and their integrals and partitions"])
prop("C14","Interrupted or repeated network computations never leave wrong matrices",
 "After any sequence of computations on a temporal network, with different time windows, rates and approximation parameters, some of them interrupted by an error at any point, every computation that returns normally leaves the matrices that a new network would have for the same request. A computation that was interrupted is never taken for complete afterwards.",
 ["histories","fault_sequences","inputs"],
 "every history of Laplacian, inter-event, linear, product and clustering computations on one network, every interruption point (memory errors, keyboard interrupts)",
 "Tests compute each quantity once on a fresh network and never interrupt a computation.",
 [TN,NC],[("cache keyed by rate and approximation time","compute_*_matrices in "+TN),("publish when complete","compute_*_matrices in "+TN)],
 ["laplacians, transition matrices, products and clusterings of the network"])
prop("C15","Louvain gives a valid, reproducible, non-worsening partition",
 "For every covariance, starting partition and stream of random numbers, the Louvain optimisation terminates, returns a partition that contains every node exactly once with consistent node and cluster views, and whose stability, as recomputed from the covariance, is not lower than that of the starting partition and, unless the starting partition itself is kept, ties aside, cannot be increased by merging two of its clusters that are connected. (A covariance that is zero up to the library's precision may give one cluster.) The same seed gives the same partition, whatever was computed before or is computed at the same time. Matrices and starting clusters given by the caller are not changed, and moving nodes in one partition changes no other.",
 ["inputs","schedules","histories"],
 "every covariance (dense, sparse, symmetric or not), starting partition, seed or adversarial random stream, and history of earlier clusterings",
 "Tests fix the seed and compare a few partitions; the outcome depends on the order of node visits.",
 [NC,"src/flowstab/_cython_fast_funcs.pyx","src/flowstab/_cython_subst.py"],[("move nodes while the stability increases","_louvain_move_nodes in "+NC),("aggregation and mapping back to nodes","_update_original_partition in "+NC),("partition bookkeeping","Partition in "+NC)],
 ["partition, compute_stability(), progress"])
prop("C16","Synthetic networks are well-formed for any randomness",
 "For every stream of random draws and every parameter set, a generated synthetic contact sequence contains only contacts between two different existing individuals of groups that are allowed to meet, with start not after end, starting inside the simulated time span, recorded in order of their ends, and no ordered pair of individuals has two contacts at the same time. Generation always ends, at most its last contact passes the end of the time span, and a network built from the contacts has exactly those events. The same draws give the same contacts, whatever was generated before or is generated at the same time.",
 ["inputs","schedules"],
 "every stream of random draws (including extreme ones), group structure, activation and contact-time distribution and way to choose partners",
 "Tests draw a few samples with a fixed seed.",
 [SY],[("event loop of individuals","SynthTempNetwork.run in "+SY)],
 ["event lists of the simulation, table of the network"])
prop("C17","Independent analyses do not disturb each other",
 "Analyses with different names that share directories and run at the same time, duplicate jobs running at the same time on the same directory, workers that survive the death of their job, and independent network, clustering or guided-analysis objects used in an interleaved way each give the results they give alone. Files, caches and random streams of one are never read, overwritten or removed by another.",
 ["schedules","histories","configurations"],
 "every interleaving of concurrent jobs and of operations on independent objects, every choice of names, including names that are prefixes of one another",
 "Tests run one object at a time and no two processes on the same directory.",
 [S1,S2,S3,TN,NC,PC,FS,ST],[("file names prefixed by the network name","the three scripts"),("state per instance","StateMeta in "+ST),("random state per clustering","_rnd_state in "+NC)],
 ["files of each analysis, results of each object"])
# not applicable: pure functions
def na(id,title,statement,text,why,files):
    prop(id,title,statement,["inputs"],text,why,files,[("pure function of its arguments",files[0])],["return value"])
na("C18","Sparse stochastic matrices are exact stand-ins for plain ones",
 "Every operation on the compact stochastic-matrix representation (products, sums, slicing, conversion, rounding) gives the same matrix as the operation on the full sparse matrix.",
 "every matrix and operation","Unit tests sample a few matrices.",[SM])
na("C19","Distances between partitions are metrics with the stated range",
 "Jaccard distance, normalised mutual information and normalised variation of information are symmetric, in [0,1], and zero (or one) for equal partitions.",
 "every pair of partitions","Unit tests sample a few pairs.",[NC])
na("C20","Compiled and pure-Python helpers agree",
 "Every compiled helper gives the same result as its pure-Python substitute.",
 "every argument","Unit tests sample a few arguments.",["src/flowstab/_cython_subst.py","src/flowstab/_cython_fast_funcs.pyx","src/flowstab/_cython_sparse_stoch.pyx"])
if __name__=="__main__":
    with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
        for p in P: f.write(json.dumps(p)+"\n")
