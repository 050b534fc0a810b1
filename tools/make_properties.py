import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=mech,observe_at=observe or [],hook_needed=None)))
def m(name,where): return dict(name=name,where=where)
def s(name,meaning,where): return dict(name=name,meaning=meaning,where=where)

p("C01","A bundle joins all its tasks and reports a faithful status",
 "Every task added to a bundle runs exactly once, and a join (plain, with a timeout or with a deadline) returns only after all the added tasks have finished. It returns OK only if all tasks returned OK; otherwise it returns the first error that a task completed with, except that it reports DeadlineExceeded if (and only if) it has a time limit and some task is still unfinished when that limit expires. No schedule of the tasks relative to the additions and to the join makes the program die or hang.",
 ["schedules","inputs"],"All interleavings of the tasks with Add and Join*, all combinations of task outcomes and durations relative to the time limit.",
 "The bundle test is timing-dependent (sleeps), is not even in the reliably passing set here, and samples one schedule per run; the race between the last task and the start of the join is not reached.",
 ["base/bundle.hpp","base/bundle.cpp"],
 [m("worker counter and joining flag deciding who notifies","base/bundle.cpp Bundle::Toil, Join*"),m("status accumulation under a lock","base/bundle.cpp Bundle::Toil")],
 [s("number of active workers","tasks added and not finished","base/bundle.hpp"),s("status","first error seen","base/bundle.hpp")],["return value of Join/JoinWithin/JoinBefore","execution of the tasks"])

p("C02","A thread pool runs each call once, in order, and keeps its promises",
 "Each call accepted by a thread pool is executed at most once, and exactly once if the pool is not destroyed before the call is started; its result reaches the future that was returned for that call; calls are started in the order in which they were accepted, and never more of them run at a time than the pool has threads. TryAdd accepts a call if and only if the calls that are waiting, plus that one, can all be served by the idle threads at that moment; WaitUntilIdleFor returns true if and only if such a call could be accepted, and otherwise only after its timeout. Destroying the pool waits for the calls being executed, starts none of the waiting ones, and leaves their futures with a broken promise.",
 ["schedules","histories"],"All interleavings of clients and workers, all pool sizes and call sequences (small in the checks).",
 "The thread pool test uses real time and two or three schedules; ordering, the TryAdd accounting and destruction with queued calls are not settled by it.",
 ["base/thread_pool.hpp","base/thread_pool_body.hpp"],
 [m("queue and counters under a mutex, conditional wait of the workers","base/thread_pool_body.hpp DequeueCallAndExecute"),m("double-checked idle accounting","base/thread_pool_body.hpp TryAdd")],
 [s("calls","queued calls","base/thread_pool.hpp"),s("busy threads","calls being executed","base/thread_pool.hpp")],["futures","start and end of the functions"])

p("C03","A recurring thread consumes the latest input and produces the latest output",
 "While a recurring thread is started, an input given to it is consumed at most once, and exactly once unless it is overwritten by a more recent input or the thread is stopped; after a successful action its output replaces any output not yet retrieved, and each output is retrieved at most once. An action that fails, or that is stopped before it completes, produces no output. Start, Stop and Restart may be called in any order and any number of times: after Stop returns, no action is running or will run until the next start, at most one action runs at any time, and pending inputs and outputs survive a stop.",
 ["schedules","histories"],"All interleavings of Put, Get, Start, Stop, Restart with the actions, including stop requests that arrive during an action.",
 "The tests run a handful of sequences against real time; they do not cover an input put during an action, a stop between the action and the publication of its output, or repeated restarts.",
 ["base/recurring_thread.hpp","base/recurring_thread_body.hpp","base/stoppable_thread.hpp","base/stoppable_thread_body.hpp"],
 [m("swap of optional input/output under a lock","base/recurring_thread_body.hpp RunAction"),m("stop checks around the action","base/recurring_thread_body.hpp RunAction, RepeatedlyRunAction"),m("joining by jthread destruction","base/recurring_thread_body.hpp Stop, Restart")],
 [s("input","latest unconsumed input","base/recurring_thread.hpp"),s("output","latest unretrieved output","base/recurring_thread.hpp")],["Put, Get, Start, Stop, Restart","the action"])

p("C04","Streaming a message in or out in chunks is lossless and bounded",
 "Whatever the chunk size, the number of chunks, the compressor and the schedule: the chunks pulled out of a pull serializer are non-empty, no larger than the chunk size, end with exactly one empty chunk, and pushing them into a push deserializer rebuilds exactly the original message. A push deserializer accepts any partition of the stream into non-empty pushes, holds at most the configured number of chunks at any time, calls the callback of each push exactly once and only when the bytes of that push are no longer needed, and in push order; its completion callback is called exactly once, after all of them, with the whole message. A chunk returned by Pull remains unchanged until the next call to Pull.",
 ["schedules","inputs","configurations"],"All message contents and sizes, chunk sizes, chunk counts, partitions of the pushes, compressors and thread interleavings.",
 "The tests use one hundred random messages with a free-running consumer and one or two configurations; the bookkeeping of free chunks, of the bounded queue and of the callbacks depends on the schedule.",
 ["base/pull_serializer.hpp","base/pull_serializer_body.hpp","base/push_deserializer.hpp","base/push_deserializer_body.hpp"],
 [m("bounded queues guarded by a mutex with conditional waits","base/push_deserializer_body.hpp Push/Pull, base/pull_serializer_body.hpp Pull/Push"),m("callback queue shifted by one with a sentinel","base/push_deserializer_body.hpp")],
 [s("queue","chunks in flight","base/push_deserializer.hpp, base/pull_serializer.hpp"),s("free","chunks that may be overwritten","base/pull_serializer.hpp")],["Push, Pull, callbacks"])

p("C05","A push/pull callback hands each call over once and terminates cleanly",
 "When a task is run on an executor with a push/pull callback, every invocation of the callback by the task is delivered to exactly one Pull, in order and with its arguments, and the value passed to the next Push is what that invocation returns. Pull returns false once the task has finished, exactly then and without blocking further; the task's result can be retrieved only afterwards and is the value that it returned. No interleaving of the task and of the puller deadlocks, loses or duplicates a call.",
 ["schedules","programs"],"All numbers of callback invocations per task and all interleavings of the two sides.",
 "The test runs one task with free-running threads.",
 ["base/push_pull_callback.hpp","base/push_pull_callback_body.hpp"],
 [m("argument, result and shutdown state under one mutex with conditional waits","base/push_pull_callback_body.hpp")],
 [s("arguments/result","the call being handed over","base/push_pull_callback.hpp"),s("shutdown","task finished","base/push_pull_callback.hpp")],["Push, Pull, Shutdown, executor get()"])

p("C06","Uniting subsets always yields the induced partition",
 "After any sequence of singleton creations and unions, two elements are reported to be in the same subset if and only if they are connected by the unions performed, in whatever order and orientation these were made. The properties of a subset are those of all of its elements merged, each exactly once, and remain attached to the subset after further lookups and unions.",
 ["histories","inputs"],"All sequences of unions over a finite set, interleaved with lookups.",
 "The tests unite a few fixed structures; the rank and path-compression logic depends on the history.",
 ["base/disjoint_sets.hpp","base/disjoint_sets_body.hpp"],
 [m("union by rank and path compression","base/disjoint_sets_body.hpp")],
 [s("parent/rank","forest of nodes","base/disjoint_sets.hpp")],["Subset::Find, Unite, properties, =="])

p("C07","Checkpoints are complete, ordered, unique and survive serialization",
 "A checkpointer knows exactly the checkpoints that were written, indexed by their time: the oldest and newest times, the neighbours of a time in both directions, and the lists of times before or between given times are those of the set of times written, in order, and a checkpoint is created on demand if and only if there is none yet or more than the given duration has elapsed since the newest one. Reading the oldest one, the newest one, the one at a given time or the latest one at or before a given time invokes the reader once, on the state that was written, returns its error if there is one, and reports NotFound if there is no such checkpoint. All of this holds when several threads write and read checkpoints. Serializing and deserializing, with or without a rewriter, preserves the set of times and, up to the rewriting, the associated states.",
 ["histories","inputs"],"All sequences of writes and reads at any times in any order, with reader failures, and serialization at any point.",
 "The tests exercise two or three checkpoints in order, without failing readers or boundary times.",
 ["physics/checkpointer.hpp","physics/checkpointer_body.hpp"],
 [m("map of checkpoints by time","physics/checkpointer_body.hpp")],
 [s("checkpoints","time to serialized state","physics/checkpointer.hpp")],["the public functions, the writer and the reader"])

p("C08","Protected history is never released early, and released work always runs",
 "A callback to be run when a time is unprotected runs exactly once: immediately if and only if no protection in force starts before that time, and otherwise during the first call that removes a protection after which none starts before that time, in increasing order of time. Each removal cancels exactly one protection with the same start time. A clientele reports the smallest value among the clients that joined and did not leave yet, counting multiplicities, or the default if there are none.",
 ["histories","schedules"],"All sequences and interleavings of protect, unprotect and run requests, with equal and distinct times, and callbacks that call back into the protector.",
 "The test samples one short sequence; equal times, multiplicities and re-entrant callbacks depend on the history.",
 ["physics/protector.hpp","physics/protector.cpp","physics/clientele.hpp","physics/clientele_body.hpp"],
 [m("multisets of protections and callbacks under a lock, callbacks run outside of it","physics/protector.cpp")],
 [s("protection start times","multiset of protections in force","physics/protector.hpp"),s("callbacks","pending callbacks by time","physics/protector.hpp")],["Protect, Unprotect, RunWhenUnprotected, Client"])

p("C09","A segmented trajectory always behaves as one strictly ordered timeline",
 "After any sequence of appends, segment creations, detachments, attachments, deletions, merges and forgettings, a discrete trajectory denotes a single timeline with strictly increasing times in which consecutive non-empty segments share their common point (or are separated by a gap after an attachment). Sizes, extremal times, lookups (exact, lower bound and upper bound), forward, backward and random-access iteration, iterator differences and comparisons all agree with that timeline, over the whole trajectory and over each segment. Forgetting after (before) a time removes exactly the points at or after (before) that time and keeps all the others (except that forgetting after a junction keeps the junction, as the end of the earlier segment), and splitting a trajectory and reattaching the pieces is the identity.",
 ["histories","inputs"],"All sequences of editing operations, with empty, one-point and coincident segments, and times on and between points.",
 "The tests exercise one fixed three-segment trajectory; the time-to-segment map and the iterator normalization have many cases which depend on the history of edits.",
 ["physics/discrete_trajectory.hpp","physics/discrete_trajectory_body.hpp","physics/discrete_trajectory_segment.hpp","physics/discrete_trajectory_segment_body.hpp","physics/discrete_trajectory_iterator_body.hpp","physics/discrete_trajectory_segment_iterator_body.hpp"],
 [m("time-to-segment map maintained by every edit","physics/discrete_trajectory_body.hpp"),m("iterators skipping duplicated junction points","physics/discrete_trajectory_iterator_body.hpp")],
 [s("segments","list of timelines","physics/discrete_trajectory.hpp"),s("left endpoints","map from time to segment","physics/discrete_trajectory.hpp")],["the public functions of the trajectory, its segments and iterators"])

p("C10","Downsampling never drops below the promised accuracy",
 "When downsampling is enabled on a segment, the points retained are a subset of those appended which always includes the first and the last one, and the interpolated trajectory passes within the tolerance of every position that was appended, at all times. This remains true when the segment is truncated at either end, merged with another, moved, or written to and read from a message between appends (reading back points that were not requested to be exact displaces them by at most the tolerance). Without downsampling every appended point is retained.",
 ["histories","inputs"],"All sequences of appends, truncations, merges and serializations.",
 "The tests downsample two or three smooth curves in one go; they do not resume appending after a truncation, a merge or a deserialization.",
 ["physics/discrete_trajectory_segment.hpp","physics/discrete_trajectory_segment_body.hpp"],
 [m("accumulated error bound reset when a point is retained","physics/discrete_trajectory_segment_body.hpp Append, ForgetAfter, Merge, ReadFromMessage")],
 [s("downsampling error","bound on the error since the last retained point","physics/discrete_trajectory_segment.hpp")],["EvaluatePosition, iteration"])

p("C11","A saved trajectory reads back as the same trajectory",
 "Writing a discrete trajectory, or any contiguous range of its points, to a message and reading it back yields the same sequence of segments restricted to that range, with the same times, the same tracked segments, the points listed as exact and the end points of each segment bit-identical, and all the other points within the tolerance. The result supports the same operations with the same outcomes as the original, and writing it again yields an equivalent message.",
 ["histories","inputs"],"All trajectories obtained by editing, all ranges, all choices of tracked segments and exact points, and all continuations after reading.",
 "The tests serialize one fixed trajectory with a few ranges; truncated, empty and one-point segments in combination with tracked iterators are not settled.",
 ["physics/discrete_trajectory.hpp","physics/discrete_trajectory_body.hpp","physics/discrete_trajectory_segment_body.hpp"],
 [m("range restriction, leading empty segments, left endpoints","physics/discrete_trajectory_body.hpp WriteToMessage, ReadFromMessage")],
 [s("message","serialized trajectory","serialization/physics.proto")],["WriteToMessage, ReadFromMessage"])

p("C12","A continuous trajectory covers exactly its span and survives checkpoints",
 "A continuous trajectory accepts only equidistant increasing times, is evaluable exactly over the closed interval between its minimal and maximal times, which grow only forward on appending and backward on prepending, and its maximal time is at most the last appended time and lags it by less than one batch of steps. Wherever it is evaluable its value does not change when points are appended later or when a prefix is prepended. A trajectory written to a message and read back, or restored from a checkpoint and appended the same points, is indistinguishable from the original.",
 ["histories","inputs"],"All sequences of appends, prepends, checkpoints and serializations, including out-of-range evaluations.",
 "The tests append fixed functions and serialize at one or two points; restarts at each phase of a batch are not covered.",
 ["physics/continuous_trajectory.hpp","physics/continuous_trajectory_body.hpp"],
 [m("batches of points turned into polynomials","physics/continuous_trajectory_body.hpp Append"),m("checkpointing of the incomplete batch","physics/continuous_trajectory_body.hpp MakeCheckpointerWriter/Reader")],
 [s("polynomials","intervals covered","physics/continuous_trajectory.hpp"),s("last points","incomplete batch","physics/continuous_trajectory.hpp")],["t_min, t_max, Append, Prepend, Evaluate*"])

p("C13","An ephemeris grows monotonically, on demand, and identically after a restart",
 "A successful unlimited prolongation makes the ephemeris cover the requested time; the covered interval never shrinks, prolongations never change the trajectory where it was already covered, and a prolongation with a step limit makes at most that many steps, plus those needed to complete the batch of steps that makes them observable. An ephemeris saved and restored at any time, and at any earlier time for which checkpoints exist, has after prolongation and reanimation bit-identical trajectories and checkpoints to those of the original over the common interval. Awaiting a reanimation returns only once the requested time is covered, whatever other requests are outstanding.",
 ["histories","schedules"],"All sequences of prolongations, saves, restores with any desired time, and reanimation requests, and the interleavings with the reanimation thread.",
 "The tests save once and compare a few evaluations; the number of checkpoints crossed, the phase in the step and the order of reanimation requests are not varied.",
 ["physics/ephemeris.hpp","physics/ephemeris_body.hpp","physics/checkpointer_body.hpp","physics/continuous_trajectory_body.hpp"],
 [m("prolongation loop with step limit","physics/ephemeris_body.hpp Prolong"),m("checkpoints and reanimator","physics/ephemeris_body.hpp Reanimate, ReanimateOneCheckpoint")],
 [s("t_min, t_max","interval covered","physics/ephemeris.hpp"),s("instance","state of the integrator","physics/ephemeris.hpp"),s("oldest reanimated checkpoint","progress of the reanimation","physics/ephemeris.hpp")],["Prolong, RequestReanimation, AwaitReanimation, WriteToMessage, ReadFromMessage"])

p("C14","Flows stop exactly where promised and say why",
 "Flowing a trajectory with an adaptive step returns OK if and only if the trajectory now ends exactly at the requested time, and otherwise a status telling which limit was hit; in all cases it only appends points, with strictly increasing times, none after the requested time, and makes at most the permitted number of steps. Flowing with a fixed step appends the points of the step grid that are at most the requested time, and all of them, so that flowing in one go or in several instalments yields the same trajectory. Neither moves the state backward, and flowing to a time already reached changes nothing.",
 ["inputs","histories"],"All final times, step limits, intrinsic accelerations and ways of splitting the flow.",
 "The tests flow to a few times; boundary cases of the final step, of the step limits and of splitting the flow are not covered.",
 ["physics/ephemeris.hpp","physics/ephemeris_body.hpp","physics/integration_parameters.hpp"],
 [m("termination logic of the flow","physics/ephemeris_body.hpp FlowODEWithAdaptiveStep, FlowWithFixedStep")],
 [s("trajectory end","last appended point","physics/ephemeris_body.hpp")],["returned status, points appended"])

p("C15","Integrators visit their time grid exactly and resume seamlessly",
 "Every fixed-step integrator produces states at the initial time plus consecutive multiples of the step, in the direction of the step, as many as fit without passing the final time, and advances no further; solving in several instalments, on a clone, or after writing the instance to a message and reading it back produces the same states as solving in one go (up to rounding for the methods that reuse an evaluation of the previous step). Every adaptive-step integrator produces states with strictly monotonic times which never pass the final time, ends exactly there when it succeeds, otherwise reports that it ran out of steps or that its step vanished, accepts only steps within tolerance, and can be resumed; a clone or a copy read from a message behaves exactly like the original. Each method converges with its order. The Чебышёв–Picard integrator is not considered.",
 ["inputs","histories","configurations"],"All integrators and methods, step signs and sizes, final times on and off the grid, step limits, splittings and serializations.",
 "The tests check convergence of each method on a harmonic oscillator with one final time; instalments, boundaries and restarts are sampled for a few methods only.",
 ["integrators/integrators.hpp","integrators/symplectic_runge_kutta_nyström_integrator_body.hpp","integrators/symmetric_linear_multistep_integrator_body.hpp","integrators/embedded_explicit_runge_kutta_nyström_integrator_body.hpp","integrators/embedded_explicit_generalized_runge_kutta_nyström_integrator_body.hpp","integrators/explicit_runge_kutta_integrator_body.hpp","integrators/embedded_explicit_runge_kutta_integrator_body.hpp","integrators/explicit_linear_multistep_integrator_body.hpp"],
 [m("loop on the final time and step control","the Solve functions of the integrators")],
 [s("current state, step","state of the instance","integrators/integrators.hpp")],["appended states, status of Solve"])

p("C16","A flight plan always alternates coasts and burns consistently",
 "After any sequence of successful and failed edits, a flight plan with n manœuvres has 2n+1 segments alternately coasting and burning, whose end points coincide with each other and with the times of the manœuvres, which are ordered and disjoint and lie between the initial and the desired final time, each starting with the final mass of the preceding one. An edit fails with an error and has no effect if and only if the burn is singular or does not fit between its neighbours, or the changes of mass that it causes would make later burns overlap or exceed the plan, or the final time precedes the start of the last coast. When an integration stops prematurely, the segments that follow are empty and exactly the manœuvres that follow it are reported as anomalous, with its status.",
 ["histories","inputs"],"All sequences of insertions, replacements, removals, final time and parameter changes, with burns that fit, abut, overlap or are singular, and with step limits that make integrations fail.",
 "The tests apply a few edits to a plan with one or two manœuvres; the incremental recomputation depends on the history of edits and of anomalies.",
 ["ksp_plugin/flight_plan.hpp","ksp_plugin/flight_plan.cpp","ksp_plugin/manœuvre.hpp","ksp_plugin/manœuvre_body.hpp"],
 [m("incremental popping and recomputation of the segments","ksp_plugin/flight_plan.cpp"),m("anomalous segment count","ksp_plugin/flight_plan.cpp ComputeSegments, PopLastSegments")],
 [s("manœuvres, segments","the plan","ksp_plugin/flight_plan.hpp"),s("anomalous segments","suffix not integrated","ksp_plugin/flight_plan.hpp")],["public functions of the flight plan"])

p("C17","Parts in contact form piles up that are rebuilt exactly at each frame",
 "After the subsets of a frame have been collected, the parts alive are partitioned into piles up according to the unions reported during that frame: two parts are in the same pile up if and only if they are linked by unions, directly or not; a pile up whose set of parts did not change is preserved, any other one is replaced, and the parts that are linked to the ground are exactly those reported as grounded. A pile up lives exactly as long as a part belongs to it, and survives serialization. When a pile up advances, its barycentre moves under gravity and the sum of the intrinsic forces applied to its parts, its angular momentum changes by the sum of the torques (and by the mass expelled by its solid rocket motors), the relative motions of its parts are those given by the game or, if there are none, those of a rigid body in free rotation, and the points published for its parts end with their current positions.",
 ["histories","inputs"],"All sequences of frames with any collision graph, part creations and removals.",
 "The tests build one or two piles up by hand.",
 ["ksp_plugin/part_subsets.hpp","ksp_plugin/part_subsets.cpp","ksp_plugin/pile_up.hpp","ksp_plugin/pile_up.cpp","ksp_plugin/part.hpp","ksp_plugin/part.cpp"],
 [m("disjoint sets of parts collected into piles up","ksp_plugin/part_subsets.cpp Collect")],
 [s("containing pile up","pile up of a part","ksp_plugin/part.hpp"),s("parts","parts of a pile up","ksp_plugin/pile_up.hpp")],["pile ups of the parts"])

p("C18","A vessel's past is contiguous, and survives being forgotten and reread",
 "A vessel's trajectory is always the concatenation of its backstory, psychohistory and prediction, each starting where the previous one ends, with strictly increasing times; advancing time extends the past up to the current time without altering the part of it that is already authoritative, and the prediction always starts at its end. Saving and restoring a vessel preserves its parts, its past from the last checkpoint on, its flight plans and the selected one; requesting reanimation restores the earlier past as it was. Duplicating, deleting and selecting flight plans always leaves a valid selection, or none if there is no plan.",
 ["histories","schedules"],"All sequences of time advances, part changes, flight plan operations, saves, restores and reanimations.",
 "The tests advance one vessel over a few steps and use mocks for the rest.",
 ["ksp_plugin/vessel.hpp","ksp_plugin/vessel.cpp"],
 [m("segments of the trajectory re-created at each advance","ksp_plugin/vessel.cpp AdvanceTime, AppendToVesselTrajectory"),m("checkpoints and reanimation","ksp_plugin/vessel.cpp")],
 [s("backstory, psychohistory, prediction","segments of the trajectory","ksp_plugin/vessel.hpp"),s("flight plans, selection","list of plans","ksp_plugin/vessel.hpp")],["public functions of the vessel"])

p("C19","The plugin tracks exactly the vessels and parts that the game keeps",
 "Over any sequence of frames, the plugin knows exactly the vessels and loaded parts that the game inserted or kept during the last frame: those not kept are removed with all their state, a part that changes vessel is moved and keeps its motion, and vessels and parts are loaded, unloaded and queried consistently with that history. Its time advances exactly as requested, all the vessels that were caught up end at the current time, and saving and loading the plugin at a frame boundary yields the same observable state and the same future behaviour. An unknown identifier is always diagnosed instead of being served.",
 ["histories"],"All sequences of frames of insertions, keepings, moves, collisions, removals, time advances, saves and loads.",
 "The tests use one or two vessels with fixed sequences and mocks.",
 ["ksp_plugin/plugin.hpp","ksp_plugin/plugin.cpp","ksp_plugin/interface.cpp","ksp_plugin/interface_vessel.cpp","ksp_plugin/interface_part.cpp"],
 [m("kept and loaded sets rebuilt each frame","ksp_plugin/plugin.cpp InsertOrKeepVessel, InsertOrKeepLoadedPart, FreeVesselsAndPartsAndCollectPileUps")],
 [s("vessels, kept vessels, loaded vessels","bookkeeping of a frame","ksp_plugin/plugin.hpp"),s("part to vessel","ownership of parts","ksp_plugin/plugin.hpp")],["public functions of the plugin and its C interface"])

p("C20","Background computations deliver the latest request and can be interrupted",
 "An analysis, an optimization or a plot requested in the background is computed from the parameters of a request that was made, a completed result is delivered only after its computation has finished, is never replaced by an older one, and is delivered unchanged until refreshed. A new request replaces or waits for the current one as documented, interruption returns promptly with no computation left running, and progress is reported between 0 and 1. Destroying the object at any time terminates the background work and never deadlocks.",
 ["schedules","histories"],"All interleavings of requests, refreshes, interruptions and destructions with the background threads.",
 "The tests make one request and wait for it.",
 ["ksp_plugin/orbit_analyser.hpp","ksp_plugin/orbit_analyser.cpp","ksp_plugin/flight_plan_optimization_driver.hpp","ksp_plugin/flight_plan_optimization_driver.cpp","ksp_plugin/geometric_potential_plotter.hpp","ksp_plugin/geometric_potential_plotter.cpp","ksp_plugin/plugin_reader.hpp","ksp_plugin/plugin_reader.cpp"],
 [m("idle flag, pending parameters and next result under a lock","the drivers"),m("interruption by stop token and join","the drivers")],
 [s("idle, next analysis, last result","state of the driver","the drivers")],["Request/Refresh/Interrupt functions"])

p("C21","A recorded session replays identically",
 "Recording the calls made to the plugin in a journal and replaying that journal performs the same calls in the same order with the same arguments, object references being mapped consistently between the two sessions, and yields the same results. Calls that are not recorded are not replayed, a journal truncated at any byte is replayed up to its last complete call, and recording never alters the behaviour of the calls.",
 ["histories","crash_points"],"All sequences of interface calls including nested creation and deletion of objects, and all truncations of the journal file.",
 "The tests record two or three calls.",
 ["journal/recorder.hpp","journal/recorder.cpp","journal/player.hpp","journal/player.cpp","journal/method.hpp","journal/method_body.hpp"],
 [m("line-oriented encoding of calls","journal/recorder.cpp"),m("pointer map","journal/player.cpp, generated profiles")],
 [s("pointer map","addresses of the recorded session to live objects","journal/player.hpp"),s("journal file","recorded calls","journal/recorder.hpp")],["files written, calls made"])

p("C22","Maps between frames form the groups that they claim to be",
 "Composition, inverse, determinant, application, conversion and serialization of the maps between frames (signs, permutations of the axes, signatures, rotations, orthogonal maps, homothecies, conformal maps, affine maps, rigid motions) agree with one another: composing then applying is applying in turn, the inverse undoes the application, the determinant is multiplicative (for a conformal map it is the cube of its scale), bivectors, trivectors and forms transform accordingly, and converting a map to a more general one, or serializing it, preserves its action. A permutation is the one that its name tells; a rotation given by an angle and an axis, by Euler or Cardano angles, or by the axes of a frame, acts like the composition of the elementary rotations that these describe, with the given frame as the one that is defined. This holds for all elements, all pairs of elements and any handedness of the frames.",
 ["inputs"],"All elements of the finite groups of the maps that permute the axes and change their signs, all their pairs, all angles that are multiples of a quarter turn (and thirds of a turn around the diagonals), and vectors, points and velocities with integer coordinates.",
 "The tests check a few elements and compositions, mostly between frames of the same handedness.",
 ["geometry/permutation.hpp","geometry/permutation_body.hpp","geometry/signature.hpp","geometry/signature_body.hpp","geometry/sign.hpp","geometry/sign_body.hpp","geometry/rotation.hpp","geometry/rotation_body.hpp","geometry/orthogonal_map.hpp","geometry/orthogonal_map_body.hpp","geometry/conformal_map.hpp","geometry/conformal_map_body.hpp","geometry/homothecy_body.hpp","geometry/identity_body.hpp","geometry/affine_map_body.hpp","physics/rigid_motion_body.hpp"],
 [m("coordinate permutation encoded in an enumeration","geometry/permutation_body.hpp"),m("signs per axis","geometry/signature_body.hpp"),m("quaternions","geometry/rotation_body.hpp"),m("derivative of a rigid transformation","physics/rigid_motion_body.hpp")],
 [s("coordinate permutation","encoded permutation","geometry/permutation.hpp"),s("quaternion","rotation","geometry/rotation.hpp")],["operator*, Inverse, operator(), Determinant, Forget, WriteToMessage, ReadFromMessage"])

p("C23","Nearest neighbour queries return a true nearest neighbour",
 "After any sequence of insertions into a partitioning tree of points, a query returns a point that was inserted, satisfies the given filter and is at a minimal distance of the query point among those that do, or nothing if and only if there is none. This holds for any number of points per leaf, for coincident and collinear points, and whether points were given at construction or added later.",
 ["inputs","histories"],"All sequences of insertions and queries with any filter.",
 "The tests use random points in general position.",
 ["numerics/nearest_neighbour.hpp","numerics/nearest_neighbour_body.hpp"],
 [m("principal component partitioning with pruning by distance to the separating plane","numerics/nearest_neighbour_body.hpp")],
 [s("tree","partition of the points","numerics/nearest_neighbour.hpp")],["Add, FindNearestNeighbour"])

p("C24","Command flags behave as a multimap with presence semantics",
 "After any sequence of settings and clearings, a flag is present if and only if it was set since the last clearing, has exactly the values that it was set to (none for a flag set without a value is the empty string), and queries for one name or value are not affected by the others.",
 ["histories"],"All sequences of operations on a small set of names and values.",
 "The tests set a few flags in one order.",
 ["base/flags.hpp","base/flags.cpp"],
 [m("multimap of names to values","base/flags.cpp")],
 [s("flags","names and values","base/flags.hpp")],["Set, Clear, IsPresent, Values"])

p("C25","Numerical results meet their published accuracy",
 "Elementary functions, integrators, geopotential, frames and orbit computations yield results within their documented error bounds for all representable inputs.",
 ["inputs"],"All floating-point inputs.",
 "Tests sample inputs.",
 ["numerics","physics","geometry","quantities"],[m("error-bounded algorithms","numerics/sin_cos.cpp, numerics/cbrt.cpp, ...")])

p("C26","Encoders are inverted by their decoders",
 "Decoding what a hexadecimal, base64 or base32768 encoder produced yields the original bytes, and the encoded length is as announced.",
 ["inputs"],"All byte strings.",
 "Tests sample fixed and random strings.",
 ["base/hexadecimal.hpp","base/base64.hpp","base/base32768.hpp"],[m("table-driven encoding","base/*_body.hpp")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P), [x['id'] for x in P if len(x['title'])>80])
