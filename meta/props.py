"""Source of properties.jsonl and MANIFEST.json (run: python3 meta/gen.py)."""
PROPS = []
NA = []


def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None, note="", tech=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                      state=state, observe=observe, hook=hook, note=note,
                      tech=tech or "deterministic simulation with fault injection: seeded search over histories and faults"))


def N(id, title, statement, over, qtext, why, files, mech, reason):
    P(id, title, statement, over, qtext, why, files, mech)
    NA.append((id, reason))


P("C01", "Updating a package manifest is all-or-nothing",
  "Every operation that updates a package's manifest (editing and saving it, importing a file, signing, recording analysis results, attaching "
  "source, re-creating the package) leaves a manifest that is exactly the old or exactly the new version, whatever error, kill or power loss "
  "interrupts it. When the operation reports success the new version is on disk and survives a power loss; when it fails it leaves no stray "
  "files behind and the same update succeeds once the fault is gone.",
  ["crash_points", "fault_sequences", "histories"],
  "every point of every manifest-updating operation, any disk error, torn or short write, full disk, kill or power loss there, and any "
  "preceding history of updates",
  "The tests save manifests on a healthy disk and read them back; none interrupts a save, fills the disk, or asks what is durable after a power loss.",
  ["src/yapcad/package/core.py", "src/yapcad/package/signing.py", "src/yapcad/package/analysis/cli.py", "src/yapcad/dsl/packaging.py"],
  [("whole-file replacement of the manifest", "src/yapcad/package/core.py:PackageManifest.save"),
   ("load/modify/save callers", "src/yapcad/package/{core,signing,analysis/cli}.py, src/yapcad/dsl/packaging.py")],
  [("manifest.yaml", "the package's index of content, hashes, results and signatures", "<package>/manifest.yaml")],
  ["bytes of manifest.yaml after restart", "exception or return of the operation"],
  note="Explores random histories of updates; every update is re-run from the same machine state under several random fault placements. "
       "Assumes an ordered (journalled) directory and that only fsynced data survives power loss whole.")

P("C02", "Package validation accepts exactly the intact packages",
  "Package validation reports a package valid exactly when its manifest is well formed, every file the manifest lists is present, every recorded "
  "hash matches the bytes on disk and the primary geometry can be loaded; so any later change, loss, swap or corruption of listed content is reported, whatever came before. "
  "It never raises on a damaged package or when reading fails, never calls a package valid because of a read error, and never modifies the package.",
  ["histories", "inputs", "fault_sequences"],
  "every sequence of package edits, corruptions and repairs (bit flips, truncation, swaps, deletions, malformed manifests) and every read error during validation",
  "The tests validate a handful of hand-made good and bad packages; they do not combine corruptions with history or fail a read midway.",
  ["src/yapcad/package/validator.py", "src/yapcad/package/core.py"],
  [("hash verification of every listed file", "src/yapcad/package/validator.py:validate_package")],
  [("hashes", "recorded digests of package content", "manifest.yaml")],
  ["verdict and messages of validation", "package bytes before and after"],
  note="The oracle is an independent re-implementation of 'intact' over the simulated disk; verdicts are compared in both directions after each step of a random history.")

P("C03", "Creating a package is faithful and never leaves a half-made valid package",
  "A package created from geometry loads back exactly that geometry (coordinates, topology, tags, layers, materials), validates, and its recorded "
  "hashes match. If creation is interrupted or fails at any point, what is left either is refused by validation and loading or is the complete new (or, when overwriting, "
  "the complete old) package, never a valid package with other content; and creating it again succeeds. Without permission to overwrite, an existing package is left untouched.",
  ["inputs", "crash_points", "fault_sequences"],
  "every geometry list of solids, surfaces or sketches, every fault or crash point of creation, with and without an existing package there",
  "The tests create a few packages on a healthy disk and never interrupt creation or overwrite under failure.",
  ["src/yapcad/package/core.py", "src/yapcad/io/geometry_json.py"],
  [("geometry written and hashed before the manifest names it", "src/yapcad/package/core.py:create_package_from_entities"),
   ("geometry serialisation", "src/yapcad/io/geometry_json.py")],
  [("geometry/primary.json", "the package's geometry", "<package>/geometry")],
  ["geometry loaded back", "validation verdict after restart"],
  note="Random geometry, random faults; oracle compares full coordinate/topology/metadata fingerprints of what was given and what loads.")

P("C04", "Importing a file into a package is contained and all-or-nothing",
  "Importing a file either adds the file and one manifest entry whose path, size-independent content and hash agree with the imported bytes, or it is refused "
  "or fails with the manifest object and every file of the package as they were. It never writes outside the package (through '..', absolute "
  "paths or symbolic links), never overwrites an existing file unless overwriting was requested, and never damages an existing file or its entry when interrupted by an error.",
  ["inputs", "histories", "fault_sequences"],
  "every source, destination, category and overwrite combination, over any history of imports, with any I/O error at any point",
  "The tests import a few files to plain destinations; hostile destinations, symbolic links, repeated imports and failing copies are not tried.",
  ["src/yapcad/package/core.py"],
  [("destination check and staged copy", "src/yapcad/package/core.py:add_geometry_file")],
  [("derived/attachments entries", "what files belong to the package", "manifest.yaml")],
  ["package tree before/after", "manifest entries and hashes"],
  note="Every import is judged against a reference verdict (accept/refuse) and a whole-tree comparison, clean and under faults.")

P("C05", "A package signature vouches for exactly the content that was signed",
  "Verification reports a signature valid exactly when it was made by a currently trusted key over exactly the manifest content now present "
  "(everything but the signature list itself, regardless of formatting and key order), and reports tampered, untrusted and unreadable signatures as such; a failing, "
  "crashing or missing tool never yields a valid verdict. Signing stores the new signature without changing the signed content, keeps every "
  "earlier valid signature when adding, and when interrupted or failing leaves the manifest and earlier signatures intact (or, if only the final disk flush fails, the new signature stored). Verification changes no files, and neither operation leaves temporary files behind.",
  ["histories", "inputs", "fault_sequences", "crash_points"],
  "every history of signing, tampering, trust changes and reverts with several keys and both signature methods, with any tool failure, I/O error or crash",
  "No test signs or verifies anything: the external tools are not available to the test suite.",
  ["src/yapcad/package/signing.py"],
  [("canonical manifest form", "src/yapcad/package/signing.py"), ("tool invocation and result parsing", "src/yapcad/package/signing.py")],
  [("signatures list and signatures/ files", "who signed what", "manifest.yaml, <package>/signatures")],
  ["per-signature status", "package tree", "temporary directory"],
  note="gpg and ssh-keygen are behavioural models calibrated against the installed tools (option order, exit codes, output). The oracle remembers what each signature text was made over.")

P("C06", "Recorded analysis results tell the truth about the latest run",
  "The result recorded for an analysis plan says passed only if the latest run of that plan really produced measurements of the current geometry and inputs that satisfy every acceptance criterion in "
  "it, and failed only if a criterion was measured and violated: solver failure, a missing solver, missing output, output left over from an earlier run, unmeasured criteria and "
  "unknown comparisons never count as passed. A plan has one result entry, replaced as a whole by each run with its measurements and summary file in agreement, and other plans' results are not touched. "
  "An interrupted run leaves the old or the new entry and a readable summary, and a run writes only to its own results folder and the manifest, whatever the plan is called.",
  ["histories", "fault_sequences", "crash_points", "inputs"],
  "every sequence of plan edits, geometry edits, solver behaviours and re-runs, with any solver failure, I/O error or crash during a run",
  "The tests run each backend once on a healthy machine without an external solver; re-runs, stale outputs and failing solvers are not covered.",
  ["src/yapcad/package/analysis/cli.py", "src/yapcad/package/analysis/calculix.py", "src/yapcad/package/analysis/yapcad_native.py", "src/yapcad/package/analysis/fenics.py", "src/yapcad/package/analysis/base.py"],
  [("acceptance evaluation", "src/yapcad/package/analysis/{calculix,yapcad_native,fenics}.py:_evaluate_acceptance"),
   ("result recording", "src/yapcad/package/analysis/cli.py:analyze_package")],
  [("validation.results", "the recorded verdicts", "manifest.yaml"), ("summary.json", "details of a run", "validation/results/<plan>")],
  ["manifest entry", "summary file", "files changed by a run"],
  note="The solver is a stub that computes its answer from the deck it is really given, so stale inputs and outputs show; native measurements run real code against closed-form values of boxes; the FEniCSx libraries are not installed, so its adapter runs against stand-ins that fail and answer as the schedule says.")

P("C10", "Every WebSocket evaluation is answered exactly once, or withdrawn",
  "On a WebSocket evaluation session every eval message gets exactly one result, carrying its own request id and what its own program gives, unless before "
  "it completes it is superseded by a newer eval on that connection, cancelled by a message with its request id, or the client leaves, when it gets none; one that runs past 300 seconds is "
  "answered then with a failure. Every malformed frame (not JSON, not an object, binary, unknown type) gets one error reply and leaves the connection and the evaluation in flight alone. "
  "Replies are always valid JSON, connections do not affect each other or other requests, and nothing keeps running for a client that has left.",
  ["schedules", "histories", "inputs"],
  "every interleaving of eval, cancel and malformed messages, completions, timeouts, slow clients and disconnects on any number of connections",
  "No test touches the service; a test client cannot control when an evaluation completes relative to the messages around it.",
  ["service/routes/dsl.py", "service/core/dsl_runner.py"],
  [("in-flight task replacement and cancellation", "service/routes/dsl.py:ws_dsl_eval"), ("time limit", "service/core/dsl_runner.py:eval_dsl")],
  [("current_task/current_request_id", "the connection's evaluation in flight", "service/routes/dsl.py:ws_dsl_eval")],
  ["frames each client receives and when", "asyncio tasks left running"],
  note="The real ASGI application runs on an event loop whose time, worker threads and network are simulated; each reply is compared with evaluating the same program alone.",
  tech="deterministic simulation with fault injection: seeded search over schedules, completions and disconnects in virtual time")

P("C11", "The HTTP service gives every request one correct answer in time",
  "Every HTTP request to the service gets exactly one complete response in valid JSON that answers that request and no other: evaluations return what their own source, "
  "command and parameters give (geometry, snapshot, plain values for ui_eval, or their own error), and parse, commands, tessellate, boolean, health and builtins answer for their own input. An "
  "evaluation that runs past its limit (30 s for eval, 10 s for ui_eval, 120 s for assembly_eval) is answered 408 at the limit, and slow or stuck evaluations do not delay other "
  "requests. Malformed requests get a client error, never a server error, and a client that disconnects affects nobody else.",
  ["schedules", "inputs", "fault_sequences"],
  "every mix of up to about twenty overlapping requests, any durations, slow uploads and readers, disconnects, and malformed bodies, sources and geometry",
  "No test touches the service; limits, overlap and disconnects need control over time that a test client does not have.",
  ["service/main.py", "service/routes/dsl.py", "service/routes/geometry.py", "service/routes/system.py", "service/core/dsl_runner.py"],
  [("time limits", "service/core/dsl_runner.py:eval_dsl"), ("response building", "service/routes/{dsl,geometry,system}.py")],
  [("worker threads", "evaluations in flight", "anyio thread limiter")],
  ["status, body and time of each response", "exceptions escaping the application"],
  note="The real ASGI application runs on an event loop whose time, worker threads and network are simulated. Overlap beyond 40 worker threads is out of scope.",
  tech="deterministic simulation with fault injection: seeded search over schedules, durations and disconnects in virtual time")

P("C07", "Exported files are complete or untouched, and damaged STL is refused",
  "Exporting to STL, STEP or DXF (and the .meta.yaml sidecar written beside a part that has metadata) reports success only when the file holds, and keeps through a power loss, the complete export "
  "of the object as it is now and the sidecar loads back that object's metadata with hashes of the file or source it names. An export that is refused, fails or is interrupted by an error, kill or power "
  "loss leaves each target file exactly as it was or complete, never part of one, as does a second exporter writing the same target at the same time, and trying again succeeds. "
  "read_stl returns exactly the triangles the file holds at that moment, and raises ValueError for a truncated file and never returns a smaller model.",
  ["fault_sequences", "crash_points", "histories"],
  "every sequence of exports to the same or other files, any disk error, short write, full disk, kill or power loss at any point of one, another exporter at any point, and any truncation of a written file",
  "The tests export once to an empty temporary directory on a healthy disk; none exports over an existing file, interrupts an export, or reads a truncated file.",
  ["src/yapcad/io/stl.py", "src/yapcad/io/step.py", "src/yapcad/io/meta_yaml.py", "src/yapcad/ezdxf_exporter.py", "src/yapcad/ezdxf_drawable.py"],
  [("exporters", "src/yapcad/io/{stl,step,meta_yaml}.py, src/yapcad/ezdxf_exporter.py"), ("STL parsing", "src/yapcad/io/stl.py:read_stl")],
  [("exported file", "STL, STEP, DXF or sidecar on disk", "target path")],
  ["bytes of target and sidecar at every step and after restart", "return or exception of the export", "triangles read back"],
  note="Contents are judged by readers in the harness (ezdxf for DXF). The faceted STEP writer is covered; the analytic one needs pythonocc, which is not installed.")

P("C08", "Jobs running at the same time in one process do not affect each other",
  "DSL evaluations (with their parsing, checking, native blocks and builtins), geometry construction, 2D and 3D booleans, geometry serialisation and STL conversion, text, thread, gear and "
  "spline generation and catalogue lookups that run at the same time in different threads of one process each return exactly what they return when run alone, "
  "however the threads are interleaved. None raises, hangs or deadlocks because of another, and afterwards the same jobs still return the same results.",
  ["schedules", "inputs"],
  "every interleaving, down to single source lines, of any two or more independent jobs on separate data",
  "The tests are single threaded; the service runs up to forty evaluations in threads at once, and a shared table only fails in particular interleavings.",
  ["src/yapcad/dsl/runtime/interpreter.py", "src/yapcad/dsl/runtime/builtins.py", "src/yapcad/geom3d_util.py", "src/yapcad/combine.py", "src/yapcad/fasteners/catalog.py", "service/core/dsl_runner.py"],
  [("vertex welding table", "src/yapcad/geom3d_util.py:addVertex"), ("evaluation entry point", "src/yapcad/dsl/runtime/interpreter.py:compile_and_run")],
  [("module-level tables and caches", "state shared between jobs", "src/yapcad")],
  ["canonical result of each job (all coordinates, topology, messages)"],
  note="Real threads under a seeded scheduler that preempts at traced lines (and bytecodes in functions touching module state); each result is compared with the job run alone in a fresh copy of the process.",
  tech="deterministic simulation with fault injection: seeded search over thread interleavings")

P("C09", "A job's result depends on its inputs only",
  "The result of evaluating a program, building, combining, converting or serialising geometry, generating text, threads and gears or looking up the catalogue is the same, apart from generated ids and time stamps, whatever "
  "ran before it in the process (including failed jobs), whatever callers did to the objects earlier jobs returned, and whatever the clock, the random generators' state, the hash seed and memory addresses are. "
  "So the same inputs give the same part in every process and session.",
  ["histories", "inputs", "configurations"],
  "every sequence of earlier jobs, failures and modifications of earlier results, in any process",
  "Each test looks at one result in one process with one history; none compares a job after different histories or hash seeds.",
  ["src/yapcad/dsl", "src/yapcad/geom3d_util.py", "src/yapcad/geom3d.py", "src/yapcad/metadata.py", "src/yapcad/fasteners/catalog.py", "src/yapcad/boolean"],
  [("default arguments and module-level tables", "src/yapcad/geom3d_util.py"), ("lookup cache", "src/yapcad/fasteners/catalog.py:_load_catalog_cached")],
  [("module-level tables, caches and default arguments", "state that outlives a job", "src/yapcad")],
  ["digest of each job's canonical result in two processes"],
  note="The same jobs run in two interpreters with different hash seeds, clocks, randomness and opposite orders, half the results being spoiled by their caller; all digests must agree.")

P("C14", "Datum lookups follow registrations and files, and forget failures",
  "Looking up a datum returns exactly what was registered for its source, or else what the source's file holds, the file being the first found in the search directories in the order they were added and then the "
  "current directory; a part named by a loaded file answers for that part, unless it was registered itself. A source or datum that is missing, unreadable or malformed gives KeyError (an empty list from list_datums) and nothing else, and that is "
  "never remembered: once the file is there and readable the same lookup succeeds. Once loaded, a source stays as it is until it is registered again or the registry cleared, and changing the dictionaries callers passed in or got back changes no later lookup.",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of registrations, lookups, file changes (missing, truncated, malformed, replaced), search paths, clears and read errors",
  "The tests register or load each source once, from a good file; none asks again after a failure or changes a file between lookups.",
  ["src/yapcad/assembly/datum_registry.py"],
  [("lazy loading", "src/yapcad/assembly/datum_registry.py:DatumRegistry._load_source"), ("search", "src/yapcad/assembly/datum_registry.py:DatumRegistry._find_source_file")],
  [("_sources, _loaded_sources, _search_paths", "the registry", "src/yapcad/assembly/datum_registry.py:DatumRegistry")],
  ["datum or KeyError of each lookup", "list of datums"],
  note="A reference registry over the simulated disk predicts every lookup of a random history with injected read errors.")

P("C15", "Kinematic chain transforms are never stale; export and import are whole",
  "The world and relative transforms a kinematic chain returns are those of its present joints, frames and datums, however joints, axes, base transforms, frames or joints were changed (through the chain or directly) "
  "and whatever was queried before or callers did to the matrices they got; a refused request (unknown part, duplicate name, missing parent) changes nothing. A chain imported from its export, here or in another process, "
  "has the same parts in the same order, values, properties and transforms, and export leaves the file exactly old or exactly new under any error, kill or power loss, new and durable when it reports success.",
  ["histories", "crash_points", "fault_sequences"],
  "every sequence of part additions, joint and frame edits, queries, exports and imports, and every fault or crash point of an export",
  "The tests move a joint or two through set_joint_value and compare one pose; none edits behind the cache, crosses processes or interrupts an export.",
  ["src/yapcad/kinematics/chain.py", "src/yapcad/kinematics/part.py", "src/yapcad/kinematics/joint.py", "src/yapcad/kinematics/frame.py"],
  [("transform cache", "src/yapcad/kinematics/chain.py:KinematicChain.get_world_transform"), ("export", "src/yapcad/kinematics/chain.py:KinematicChain.export_json")],
  [("_world_transform, _cached_transform", "cached transforms of parts and frames", "src/yapcad/kinematics/{part,frame}.py")],
  ["matrices", "part order", "bytes of the exported file after restart"],
  note="Every answer is compared with a reference that recomputes the whole chain; imports are also compared in a second interpreter with another hash seed. Datum-bound frames are invalidated after their datum is re-registered, as documented.")

P("C16", "Mate solving reflects the present mate, datums and parent pose",
  "The transform computed for a mate satisfies the mate's relation (coincident or rigid: origins meet and normals oppose; concentric or revolute: origins meet and axes align; parallel; perpendicular; distance) for the mate, datums and "
  "parent pose as they are at that moment, and equals what a fresh solver gives, whatever was solved, edited, registered again, invalidated or modified by callers before. Solving several mates or a chain gives what solving them one by one gives, a chain ending at its first failed mate, and leaves the caller's "
  "poses alone; a mate whose datum cannot be found or read is reported as failed, never solved from old data.",
  ["histories", "fault_sequences"],
  "every sequence of solving mates, editing them, re-registering or losing datums, changing parent poses, modifying results and failing reads",
  "The tests solve each mate once with one solver; a stale cache entry needs an edit between two solves.",
  ["src/yapcad/assembly/solver.py", "src/yapcad/assembly/face_mate.py", "src/yapcad/assembly/datum_registry.py"],
  [("result cache", "src/yapcad/assembly/solver.py:MateConstraintSolver.solve_mate"), ("computed transform", "src/yapcad/assembly/face_mate.py:FaceToFaceMate.compute_transform")],
  [("_cache", "solved mates", "src/yapcad/assembly/solver.py:MateConstraintSolver")],
  ["transform and success of each solve"],
  note="The meaning of an angle mate's angle (documented in radians, used as degrees) and of mate_axis is taken from a fresh solver.")

P("C20", "An assembly's answers follow its present parts, mates and transforms",
  "Whatever was added, moved, edited, imported or refused before, an assembly's world datums, constraint verdicts and validity, degrees of freedom, reports and Mechatron export are those of the parts, datums, transforms, mates, constraints, "
  "load cases and bolt patterns it holds at that moment, and asking (or modifying an answer) changes none of them. "
  "A refused request (duplicate or unknown part, unknown or unsuitable datum, duplicate load case or bolt pattern) raises AssemblyError and changes nothing; importing a kinematic chain's exported transforms sets the transform of every listed part "
  "the assembly has or, when the file is missing, unreadable or malformed, raises AssemblyError and sets none. "
  "An assembly intent lists its parameters and issues in the same order in every process.",
  ["histories", "fault_sequences"],
  "every sequence of adding, placing, mating, constraining, editing, importing with read errors and asking, on assemblies that share part definitions",
  "The tests build one assembly and ask once; a stale or shared answer needs a change between two questions.",
  ["src/yapcad/assembly/assembly.py", "src/yapcad/assembly/datum.py", "src/yapcad/assembly/constraint.py", "src/yapcad/assembly/mate.py", "src/yapcad/assembly/mechatron_export.py", "src/yapcad/assembly/intent.py"],
  [("questions and registries", "src/yapcad/assembly/assembly.py:Assembly"), ("world datums", "src/yapcad/assembly/datum.py:Datum.transform"), ("verdicts", "src/yapcad/assembly/constraint.py:Constraint.evaluate"),
   ("export", "src/yapcad/assembly/mechatron_export.py:to_mechatron_snapshot")],
  [("parts, transforms, mates, constraints, load_cases, bolt_patterns", "the assembly", "src/yapcad/assembly/assembly.py:Assembly")],
  ["world datums, verdicts, degrees of freedom, report text and exported snapshot"],
  note="Not judged: two constraints of one name, degrees of freedom left by concentric, cam and slot mates (documented differently in two places), verdicts within 1e-6 of a tolerance, and interfaces whose mates no longer find their datums.")

P("C21", "Collision and clearance verdicts follow present geometry and interfaces",
  "A collision detector, registry or assembly validator answers, whatever was asked, changed or failed before, for the geometry its provider gave since its cache was last cleared (a path: what the file holds now), the transforms it is given and the interfaces and constraints as they are now: "
  "parts whose boxes (AABB) or solids (MESH) lie apart never collide, well overlapping ones always do, an overlap is expected exactly when some overlapping interface pair of the two parts is compatible and none is incompatible, "
  "an assembly check reports every pair not skipped once, and the same question gets the same answer in every process. "
  "Missing or unreadable geometry and invalid transforms give a result with an error message (a NO_OVERLAP on STL files not satisfied), which is not remembered, and nothing that is asked changes meshes, transforms or interfaces; a refused registration registers nothing.",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of changing geometry, files, transforms, interfaces and constraints, failing reads and asking, on detectors and validators that share them",
  "Mesh detection is not even reachable by the tests here (rtree is missing), and a stale or shared answer needs a change between two questions.",
  ["src/yapcad/collision/detector.py", "src/yapcad/collision/registry.py", "src/yapcad/collision/interface.py", "src/yapcad/collision/gear_interface.py", "src/yapcad/collision/thread_interface.py",
   "src/yapcad/collision/result.py", "src/yapcad/assembly/kinematic_integration.py"],
  [("verdicts", "src/yapcad/collision/detector.py:CollisionDetector.check_collision"), ("expected overlaps", "src/yapcad/collision/registry.py:InterfaceRegistry.check_overlap_compatibility"),
   ("clearances", "src/yapcad/assembly/kinematic_integration.py:KinematicConstraint.evaluate")],
  [("geometry cache, interfaces, constraints", "detector, registry and validator", "src/yapcad/collision/detector.py:CollisionDetector")],
  ["results, their JSON form, summaries, reports"],
  note="Bodies are boxes. Not judged: small overlaps that sampling may miss, touching bodies, intersection volumes, faces that cannot be found, and BREP (pythonocc is not installed: answered by the boxes). A provider that raises may raise through.")

P("C23", "A native BREP graph answers for what it holds now and stays with its solid",
  "Whatever was added, refused, moved, edited, asked or interrupted before, what a TopologyGraph answers (adjacency, closure, bounding box, mesh, octree, containment, intersection, validity) is what its entities give now, as a fresh graph holding them would answer; a shell or solid it refuses, or a transform that fails, leaves it unchanged. "
  "A graph attached to a solid follows translatesolid, rotatesolid, mirrorsolid and uniform scalesolid together with the mesh in the returned copy, is dropped by uneven scaling and clear_native_brep, leaves the solid given as it was, and shares nothing with the graph it was made from. "
  "Through JSON and in another process it reads back as the same entities, relations, tags, types, senses, tolerances and shapes.",
  ["histories", "fault_sequences", "inputs"],
  "every history of additions, refusals, transforms, surface edits, questions, interrupted questions, attachments, solid transforms and JSON round trips over several graphs and solids",
  "Octrees are cached on shells and invalidated by hand at every change, and the graph lives in a solid's metadata beside the mesh; a stale or unshared copy shows only in histories the tests do not run.",
  ["src/yapcad/native_brep.py", "src/yapcad/geom3d.py", "src/yapcad/io/geometry_json.py"],
  [("graph", "src/yapcad/native_brep.py:TopologyGraph"), ("solid transforms", "src/yapcad/geom3d.py:rotatesolid")],
  [("shell octree", "cached per shell", "src/yapcad/native_brep.py:TopologyGraph.shell_octree"), ("solid metadata", "the graph as attached", "src/yapcad/native_brep.py:attach_native_brep_to_solid")],
  ["answers, entities and coordinates after every operation, the graphs read back"],
  note="A surface edited in place is followed by invalidate_shell_octree, as documented. Arc and ellipse edges and partial spheres and cylinders under mirroring are not judged; OCC is not installed. Boxes touching or within a hair of each other are not judged.")

P("C22", "An assembly's operations run in order, and a failed one spoils nothing else",
  "Resolving an assembly gives, whatever was resolved, changed or interrupted before and however often it is asked, exactly what its present parts, operation metadata, stages and engine choice say: each part is cut by the operations naming it, stage by stage in the declared order (no or an unknown stage: the last one) "
  "and by ascending priority within a stage (equal ones in the order given), each with the cutter as it was when the stage began, consumed cutters that are no targets are dropped, and an operation naming no targets applies nothing and makes the whole resolution unsuccessful. "
  "An operation whose engine fails, with whatever error, or whose cutter is missing leaves its part as it was before it and all others unaffected, is reported with its reason as an error (strict), a warning (warn) or not at all (ignore), and only errors make the resolution unsuccessful; applied_operations lists exactly those applied, in order; "
  "an interrupt passes through, and parts, metadata and what set_operation refused stay unchanged.",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of parts, operations, stages, resolvers, environments and engine failures, asked again after each change",
  "The tests stand in for the boolean call with one that always or never fails and ask once; lost reports and stale plans need several stages, a failing engine call or a second question.",
  ["src/yapcad/assembly/resolver.py", "src/yapcad/metadata.py", "src/yapcad/geom3d.py"],
  [("one stage", "src/yapcad/assembly/resolver.py:BasicResolver.resolve"), ("stages", "src/yapcad/assembly/resolver.py:StagedResolver.resolve"), ("choice of resolver", "src/yapcad/assembly/resolver.py:resolve_assembly")],
  [("parts, reports and stage buckets of a resolution", "geometry so far, what was applied, retained and reported", "src/yapcad/assembly/resolver.py:StagedResolver.resolve")],
  ["ResolveResult and ResolvedPart fields"],
  note="The `through` assertion of the algorithm's step 7 is not implemented and not judged, nor is the quality of the boolean result: in most runs the engines are recorders that fail when told, in the rest the real native engine is compared with itself.")

P("C13", "Catalogue lookups follow the override order and forget failures",
  "Fastener catalogue lookups return exactly what the deciding catalogue file says: the one given explicitly, or else the first that exists for the series in the YAPCAD_FASTENER_DATA directories in order, the user directory and the bundled data. "
  "A missing catalogue, size, tolerance class or part gives FileNotFoundError or KeyError and a malformed catalogue or unknown series ValueError; a read error is an OSError, never data of a lower-priority catalogue; and no failure is remembered, so once the cause is gone the same lookup succeeds. "
  "After clear_cache every later lookup sees the present environment, directories and files; before it a lookup sees the state at some moment since the last clear, and what callers do to results changes no later lookup.",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of catalogue files appearing, breaking, changing and vanishing, environment and directory changes, cache clears, lookups and read errors",
  "The tests look up the bundled data and one override; none changes files under the cache or fails a read.",
  ["src/yapcad/fasteners/catalog.py"],
  [("search and cache", "src/yapcad/fasteners/catalog.py:_load_catalog_impl")],
  [("_get_data_dirs, _load_catalog_cached", "cached directories and catalogues", "src/yapcad/fasteners/catalog.py")],
  ["value or exception of each lookup"],
  note="A reference lookup over the simulated disk, environment and current directory predicts every answer.")

P("C12", "Figures, Booleans and spatial trees never answer from stale state",
  "Whatever a Geometry, Polygon, Boolean or solid wrapped in Geometry was asked, and however often it was translated, scaled, rotated, mirrored, transformed, grown or edited through its methods, its length, centre, bounding box, geometry, samples, surface, "
  "inside test and intersections equal those of a fresh figure built and changed the same way; a refused change changes nothing, and an interrupted or failed question leaves no wrong answer behind. An NTree returns exactly the elements whose boxes overlap the "
  "asked box, each once, after every addition and new centre, and never modifies the list it was built from. Modifying returned results, or arguments after the call, changes no later answer.",
  ["histories", "fault_sequences"],
  "every sequence of questions, changes, refused changes, interrupted questions and caller modifications",
  "The tests ask a figure before or after one change; a stale cache needs the same question on both sides of a change, and with the same parameters.",
  ["src/yapcad/geometry.py", "src/yapcad/poly.py", "src/yapcad/combine.py", "src/yapcad/octtree.py"],
  [("cached measures and surface", "src/yapcad/geometry.py:Geometry._updateInternals"), ("outline", "src/yapcad/poly.py:Polygon._makeoutline"), ("combined outline", "src/yapcad/combine.py:Boolean.geom"), ("tree", "src/yapcad/octtree.py:NTree.updateTree")],
  [("__update", "whether the caches are out of date", "src/yapcad/geometry.py:Geometry"), ("__tree", "the built tree", "src/yapcad/octtree.py:NTree")],
  ["length, center, bbox, geom, sample, surface, isinsideXY, intersectXY, getElements"],
  note="After editing a figure's elem list in place the caller sets figure.update, as documented; a list assigned to elem stays shared with the caller. Tree answers within 1e-6 of touching are not judged.")

P("C17", "Command-line tools exit 0 exactly when they did all they were asked",
  "The DSL command line (python -m yapcad.dsl run, check, list) and tools/ycpkg_export.py, ycpkg_validate.py and ycpkg_analyze.py exit 0 exactly when the output file, exports, package, recorded analysis or verdict asked for is there, whole, and belongs to the "
  "source, parameters and package as they are at that run; programs that fail or break a requirement, parameters that are missing, undeclared or not of their declared scalar type, unknown output formats, damaged packages and, without the overwrite flag, existing targets are refused. "
  "Otherwise they exit nonzero with a reason printed, and every file asked for is as it was or complete and nothing else changed, also when a read, a write, standard output or the machine fails at any point or the same command runs twice at once; "
  "once the cause is gone the same command (with its overwrite flag) succeeds.",
  ["histories", "fault_sequences", "crash_points", "inputs"],
  "every sequence of source edits, package changes and tool invocations, and every fault, crash or overlapping run in the middle of one",
  "The tests call a few commands on good input; none fails a write under a tool or reads back what exit status 0 promised.",
  ["src/yapcad/dsl/__main__.py", "src/yapcad/dsl/runtime/interpreter.py", "tools/ycpkg_export.py", "tools/ycpkg_validate.py", "src/yapcad/package/analysis/cli.py"],
  [("running a command", "src/yapcad/dsl/__main__.py:cmd_run"), ("parameter binding", "src/yapcad/dsl/runtime/interpreter.py:Interpreter._wrap_parameters"), ("exporting a package", "tools/ycpkg_export.py:main")],
  [("targets", "files to write", "tools/ycpkg_export.py:main")],
  ["exit status, output, files before and after"],
  note="Sizes, positions and outlines are computed from the parameters by the check itself and read back from the files. A larger earlier export's surplus solid_NN files are not judged, nor what commands returning values print.")

P("C18", "The viewer shows what its accepted commands leave, whoever sends them",
  "What the viewer draws, lists and answers (parts, positions, colours, opacity, cameras, x-ray, screenshots) is at every moment the result of carrying out its accepted commands one at a time in some order that explains every answer, whether they arrive over REST, sockets, "
  "the command file, the keyboard or the Python API, also at the same time; parts placed, moved by an offset or sent to a position end where that says, and commands that are malformed, incomplete or name unknown parts or viewports are refused with an error and change nothing; "
  "a client following the events knows the loaded parts and the x-ray state, listeners that raise harm no others, and each command-file line is carried out at most once, lines that cannot be are reported. "
  "A load or reload whose positions file is malformed, or that a failing read stops, leaves the scene as it was, meshes that cannot be read are not counted as loaded, and a screenshot answered as saved is there, whole and of the scene.",
  ["schedules", "histories", "fault_sequences", "inputs"],
  "every sequence and overlap of commands from all interfaces, every change of the mesh and positions files between them and every failing file operation",
  "The viewer has no tests here: VTK and Flask are not installed, and its behaviour shows only in sequences and overlaps of commands.",
  ["src/yapcad/viewer/vtk_viewer.py", "src/yapcad/viewer/api_server.py", "src/yapcad/viewer/events.py", "src/yapcad/viewer/config.py"],
  [("carrying out commands", "src/yapcad/viewer/vtk_viewer.py:VTKViewer.load_parts"), ("REST and socket interface", "src/yapcad/viewer/api_server.py:ViewerAPIServer._setup_routes")],
  [("scene", "actors, transforms, cameras, x-ray", "src/yapcad/viewer/vtk_viewer.py:VTKViewer")],
  ["answers, events sent to clients, the scene drawn, screenshots"],
  note="VTK, Flask and Socket.IO are stand-ins. Judged: bounds and matrices drawn, opacity, ambient, cameras' position, focal point and up vector where commands determine them. Not judged: automatic colours, camera distance after reset and focus, events for reset and focus, "
       "subscription filtering, letter case in the command file (names upper, file names lower).")

P("C19", "The whiteboard keeps to its root, saves whole files and commits just those",
  "Whatever path, content or message a whiteboard request carries, saving and reading touch only the file it names inside the whiteboard root (links followed, never .git), any other path is refused and nothing is changed or shown, and with no root configured every request is answered 501. "
  "A save answered with success leaves exactly the content sent in the file and in HEAD, committed is true exactly when a commit was made, which changes only this file, carries the message and is the one sha names, and what others staged stays staged. "
  "A save that fails, is interrupted or runs beside others leaves the file with its old or a sent content as a whole, a save or read that nothing hinders succeeds, and a read answers exactly what the file holds.",
  ["histories", "crash_points", "fault_sequences", "schedules", "inputs"],
  "every history of saves, reads, other edits, links and git states, every failing or crashing operation within one, and every overlap of requests",
  "The routes have no tests; what they leave after a failing write, a refused commit, a planted link or a concurrent save cannot be sampled by a few good requests.",
  ["src/yapcad/viewer/api_server.py"],
  [("saving", "src/yapcad/viewer/api_server.py:save_to_whiteboard"), ("reading", "src/yapcad/viewer/api_server.py:read_from_whiteboard")],
  [("whiteboard", "a git working tree", "src/yapcad/viewer/api_server.py:_whiteboard_root")],
  ["answers, files inside and outside the root, index and HEAD before and after"],
  note="git and Flask are stand-ins. Paths containing '..', absolute paths and trailing slashes may be refused or accepted as long as containment holds. A part-written copy beside the file may be left by an interrupted or failing save. Durability after the answer is not judged.")
