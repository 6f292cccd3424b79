"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json
import os

R = "ros_bt_py/ros_bt_py/"
P = []


def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": [R + f if not f.startswith("/") else f[1:] for f in files],
                    "mechanism": [{"name": n, "where": w} for n, w in mech]},
    })


# ------------------------------------------------------------ node lifecycle
prop("N01", "Lifecycle gating: illegal operations are refused without side effect",
     "A node accepts setup only when it has never been set up or has been shut down, and accepts tick, untick and reset only while it is set up and not broken. A refused operation returns an error, runs none of the node's own behaviour and leaves the node's state, inputs and outputs as they were. Repeating shutdown on a node that is already shut down does not run its shutdown behaviour again.",
     ["histories"], "every sequence of lifecycle operations on any node, from every node state, with and without an attached debugger",
     "unit tests drive a handful of call orders on a few node types; the claim is over every state and every order",
     ["node.py", "debug_manager.py"], [("lifecycle wrappers", "node.py: Node.setup/tick/untick/reset/shutdown")])
prop("N02", "Lifecycle outcomes are truthful: returned result equals node state",
     "When a lifecycle operation on a node succeeds, the state it returns is the node's state and is one the operation permits (setup and reset: idle; tick: running, succeeded, failed or an assignment state; untick: idle or paused; shutdown: shut down). When the node's own behaviour reports an error, that error is returned to the caller and the node is left broken; an operation never reports success after its behaviour failed or returned a state it does not permit.",
     ["histories", "fault_sequences"], "every outcome of the node-specific behaviour (any state or any error) in every node state, with and without an attached debugger",
     "tests use well-behaved mock nodes; they cannot range over every return value of node code",
     ["node.py", "debug_manager.py"], [("outcome handling", "node.py: Node.setup/tick/untick/reset/shutdown, check_if_in_invalid_state")])
prop("N03", "Data ordering inside a tick",
     "A tick never runs node behaviour while any input is unset: it reports an error and breaks the node instead. The 'updated' marks of outputs are cleared before the behaviour runs and those of inputs only after it, and outputs are propagated to wired nodes exactly once, after a successful tick, with a propagation failure reported as an error of the tick. Setup clears input and output values, reset clears output values, and both mark all inputs as updated before the behaviour runs; untick clears the outputs' marks.",
     ["histories", "inputs"], "every node, every combination of set/unset inputs and every outcome of the behaviour and of the propagation",
     "ordering errors only show with specific wirings between parent, child and self outputs that no test builds",
     ["node.py", "data_flow_manager.py"], [("tick sequence", "node.py: Node.tick"), ("value reset", "node.py: Node.setup/reset")])
prop("N04", "Shutdown reaches every descendant despite failures",
     "Shutting down a node attempts to shut down every one of its children, whatever state the node or the children are in and even if the node's own shutdown or an earlier child's shutdown fails. Any such failure is reported as an error of the whole shutdown. A node that has never been set up runs no shutdown behaviour.",
     ["fault_sequences", "histories"], "every node state, every combination of failing and succeeding shutdowns of the node and of its children",
     "tests shut down healthy trees; the guarantee matters when one shutdown in the middle fails",
     ["node.py"], [("recursive shutdown", "node.py: Node.shutdown")])
prop("N05", "Setup, untick and reset reach every child of a composite node",
     "When a composite or decorator node is set up, unticked or reset successfully, the same operation has been applied to every one of its children that needed it: no child is left not set up after setup, none is left running after untick or reset, and none keeps an old result after reset. A conditional child that is deliberately excluded from execution, or a child whose reset a decorator documents as deferred, is the only exception.",
     ["histories", "fault_sequences"], "every built-in node type with children, every number of children up to three in every reachable combination of child states",
     "per-type tests exercise one or two child configurations, not all reachable combinations of child states",
     ["nodes/sequence.py", "nodes/fallback.py", "nodes/parallel.py", "nodes/decorators.py", "nodes/list.py", "ros_nodes/throttle.py", "ros_nodes/enum_switch.py"],
     [("child propagation", "_do_setup/_do_untick/_do_reset of FlowControl and Decorator nodes")])
prop("N06", "Built-in nodes never turn an error into a result",
     "For every built-in node type, a tick yields only running, succeeded or failed, an untick only idle or paused, a reset or setup only idle and a shutdown only shut down, or an error. If a child reports an error during an operation, or reading an input or writing an output fails while the node computes its result, the operation reports an error; it is never converted into success or failure of the node.",
     ["fault_sequences", "histories"], "every built-in node type, every reachable internal state, every combination of child results and I/O failures",
     "error paths of child calls and of data access are hardly exercised; there is one per call site",
     ["nodes/", "ros_nodes/"], [("behaviour hooks", "_do_setup/_do_tick/_do_untick/_do_reset/_do_shutdown of all Node subclasses")])
prop("N07", "No child keeps running once its parent has finished",
     "When a composite or decorator node reports succeeded or failed from a tick, none of its children is left in the running state (except below the decorator that is documented to hide a running child). The same holds after the node has been unticked or reset.",
     ["histories"], "every built-in node type with children, every reachable combination of child states and child results",
     "needs a child that was left running by an earlier tick; single-tick tests cannot see it",
     ["nodes/sequence.py", "nodes/fallback.py", "nodes/parallel.py", "nodes/decorators.py", "ros_nodes/enum_switch.py", "ros_nodes/throttle.py"],
     [("untick remaining children", "_do_tick of FlowControl nodes")])
prop("N08", "Composite nodes combine child results as documented",
     "Sequences tick children in order and stop at the first that is not succeeded, returning that result; fallbacks stop at the first that is not failed, returning that result; the memory variants resume at the child that was running and start over after the node has produced a result. Parallel nodes tick every unfinished child once and report success as soon as the required number of children succeeded, failure as soon as too many failed, and running otherwise. Named and enum switches run exactly the child selected by the input and return its result.",
     ["histories"], "all child result combinations over any tick/untick/reset history, for zero to three children",
     "the number of histories of child results is unbounded; tests sample a few",
     ["nodes/sequence.py", "nodes/fallback.py", "nodes/parallel.py", "ros_nodes/enum_switch.py"],
     [("result aggregation", "_do_tick of Sequence, MemorySequence, Fallback, MemoryFallback, NameSwitch, Parallel, ParallelFailureTolerance, EnumSwitch")])
prop("N09", "Decorators map their child's result as documented",
     "Each decorator returns exactly the documented function of its child's result: inverting, forcing success, failure or running, repeating and retrying up to the configured count, passing through or throttling. A decorator ticks its child at most once per tick and, where it restarts the child, resets it before the next execution.",
     ["histories", "inputs"], "all child results over any history, all values of the decorator's inputs",
     "counters and histories interact; tests use small fixed counts and scripted children",
     ["nodes/decorators.py", "ros_nodes/throttle.py"], [("result mapping", "_do_tick of the Decorator subclasses")])
prop("N10", "Nodes only use inputs and outputs they declare, with the declared type",
     "Every input a node reads and every output it writes is part of that node type's declared interface, in the right direction, and is read as the type that was declared. A node's interface therefore never fails at run time because of a wrong name or type inside the node itself.",
     ["programs", "inputs"], "every built-in node type and every data access in its code, on every path",
     "a mismatch only shows when that very branch of that node is executed",
     ["nodes/", "ros_nodes/", "node_config.py"], [("declared interface", "define_bt_node(NodeConfig(...)) and add_extra_inputs/outputs"), ("access", "inputs.get_value[_as]/any_updated, outputs.set_value/set_multiple_values")])
prop("N12", "Ticking never blocks",
     "No lifecycle operation of a built-in node waits for time to pass, for another thread, for a network reply or for a callback: everything long-running is started asynchronously and polled on later ticks. Locks taken on these paths are only ever held for short, non-waiting sections.",
     ["schedules", "programs"], "every built-in node type, every call path from its lifecycle operations",
     "blocking depends on servers and timing that tests do not have",
     ["nodes/", "ros_nodes/", "node.py"], [("lifecycle hooks", "_do_* of all Node subclasses")])
prop("N13", "Nodes release every ROS endpoint they create",
     "Every subscription, publisher, service client or action client a node creates is destroyed before the node forgets it and at the latest when the node is successfully shut down; none is destroyed twice or used after destruction. A node never holds two live endpoints for the same purpose.",
     ["histories", "fault_sequences"], "every built-in ROS node type, every sequence of lifecycle operations including failing ones",
     "needs repeated setup/reset/shutdown cycles against a ROS graph; unit tests use mocks for one cycle",
     ["ros_nodes/topic.py", "ros_nodes/service.py", "ros_nodes/action.py"], [("endpoint handling", "_do_setup/_do_tick/_do_reset/_do_shutdown of the ROS nodes")])
prop("N14", "Stopping a node withdraws its outstanding requests",
     "After a node has been unticked, reset or shut down it has no outstanding action goal that it has not asked the server to cancel and no pending service request it still holds on to. A reply that belongs to an abandoned request never influences a later execution.",
     ["histories", "schedules"], "every interleaving of ticks, server replies, untick, reset and shutdown for action and service nodes",
     "depends on when the server answers relative to the untick; tests have no server",
     ["ros_nodes/action.py", "ros_nodes/service.py"], [("goal state machine", "action.py: ActionBase"), ("request handling", "service.py: ServiceBase")])
prop("N15", "Lifecycle operations never hit an attribute that was not initialised",
     "Whatever order of setup, tick, untick, reset, shutdown and message callbacks a node goes through, including shutdown without or after a failed setup, its code never reads internal data that no earlier step has initialised and never leaks an internal programming error to the caller.",
     ["histories", "fault_sequences"], "every built-in node type, every lifecycle history and callback arrival",
     "needs unusual histories (shutdown before setup, callback after reset) per node type",
     ["nodes/", "ros_nodes/", "node.py"], [("attribute initialisation", "__init__/_do_setup of all Node subclasses")])
prop("N16", "Reset returns a node to the state it had right after setup",
     "After a successful reset, a node's own bookkeeping (counters, memories, cached results, timers, pending data) is the same as right after setup, so the next tick behaves as if the node had just been set up. Nothing remembered from before the reset influences what the node does afterwards.",
     ["histories"], "every built-in node type, every history before the reset",
     "needs a comparison of all histories before a reset against a fresh node",
     ["nodes/", "ros_nodes/"], [("reset hooks", "_do_reset of all Node subclasses")])
# --------------------------------------------------------------------- data
prop("D01", "Every data type can be saved and restored",
     "Every data type that can appear in a node interface is known to the reader of saved trees under exactly the identifier it is written with, and carries every parameter needed to rebuild an equal type. Value and type writing and reading are defined for all of them.",
     ["programs", "inputs"], "every data type class in the system and every constructor parameter",
     "a missing registration or field only shows for trees that use that type",
     ["data_types.py"], [("registry", "data_types.py: type registry and get_iotype_for_msg"), ("serialisation", "serialize_type/deserialize/serialize_value")])
prop("D02", "A data slot never holds a value its type forbids",
     "A value is stored in a data slot only after it was checked against the slot's declared type and limits; a rejected value is reported as an error and leaves the previous value and 'updated' mark untouched. Restoring a saved value applies the same check.",
     ["inputs"], "every data type, every value, every path that stores a value",
     "values outside the limits are endless; tests try a few per type",
     ["data_types.py"], [("validation", "set_value/deserialize_value of the DataContainer classes")])
prop("D04", "'Updated' marks reflect exactly the writes",
     "Storing a value that differs from the stored one marks a slot as updated, and only explicit resets clear the mark; reading, comparing or storing an equal value never changes it. Slots that merely reference another slot report and change the mark of the slot they stand for.",
     ["histories"], "every data type and every sequence of writes, reads and resets",
     "histories of marks across references are not sampled by tests",
     ["data_types.py", "data_flow_manager.py"], [("updated flag", "DataContainer.set_value/is_updated/reset_updated/flag_updated")])
prop("D05", "Wirings are only accepted between compatible types",
     "A value slot accepts another slot as a source only if every value the source may hold is acceptable to the target: same kind of data, and limits of the source within those of the target. Incompatible pairs are refused when the wiring is made.",
     ["inputs", "programs"], "every pair of data types and their limits",
     "pairs of types and limits are quadratic; direction errors pass symmetric tests",
     ["data_types.py", "data_flow_manager.py"], [("compatibility", "is_compatible of the DataContainer classes"), ("check on wiring", "data_flow_manager.py: DataFlowManager")])
prop("D07", "Outputs reach every wired input, or an error is reported",
     "After a successful propagation every input wired to one of the node's updated outputs holds the output's value; outputs that were not updated change nothing. If any single transfer fails, the propagation reports an error.",
     ["inputs", "fault_sequences", "configurations"], "every wiring layout, every subset of updated outputs, every failing transfer",
     "fan-out with a failing or skipped transfer in the middle is not tested",
     ["data_flow_manager.py"], [("propagation", "data_flow_manager.py: DataFlowManager.push_outputs and incoming/outgoing data")])
prop("D08", "Slots created for message fields accept exactly what the field can hold",
     "For every field of every ROS message, service and action component, the slot created for it has the field's kind of data, its length bounds and its numeric range, at every nesting depth; fields no slot can be created for are reported as an error.",
     ["inputs", "programs"], "every field type of the ROS interface language, including nested arrays and bounded strings",
     "the field types of the interface language are unbounded; a wrong limit or kind only shows for values at the edge",
     ["data_types.py"], [("field types", "data_types.py: get_message_field_io_type")])
# --------------------------------------------------------------------- edit
prop("E01", "The tree cannot be edited while it is being executed",
     "Every operation that adds, removes, replaces, moves, rewires or reconfigures nodes, renames the tree, clears it or loads another one is refused with an error response and no effect unless the tree is in its editable state. At most one such operation runs at a time, each makes its change in one piece, and the structure is published after each admitted one, whatever its outcome.",
     ["schedules", "histories"], "every edit service, every tree state, any concurrency of requests",
     "needs every service to be called in every tree state and concurrently",
     ["tree_edit_manager.py", "tree_exec_manager.py"], [("edit gate", "tree_edit_manager.py: is_edit_service and the decorated service methods")])
prop("E03", "Service responses are truthful about success and failure",
     "Every service response reports success only if all steps of the requested operation succeeded, and reports failure with a non-empty error message otherwise; every path answers with one of the two. No internal error result is ignored on the way to a successful response.",
     ["inputs", "fault_sequences"], "every service operation on every execution path including all internal failures",
     "each operation has dozens of failure branches, few of which are tested",
     ["tree_edit_manager.py", "tree_exec_manager.py", "package_manager.py", "debug_manager.py", "subtree_manager.py"],
     [("service methods", "tree_edit_manager.py, tree_exec_manager.py, package_manager.py")])
prop("E05", "Removing a node leaves no reference to it behind",
     "After a node has been removed or replaced, it is no longer known to the tree, no remaining node lists it as child or parent, and no remaining wiring, public data entry or recorded nested tree mentions it or any node removed together with it.",
     ["histories", "configurations"], "every tree shape, wiring layout and removal, including removal of subtrees and replacement",
     "dangling references need a wiring or relation of a particular shape",
     ["tree_edit_manager.py", "data_flow_manager.py", "tree_exec_manager.py"], [("removal", "tree_edit_manager.py: remove_node/replace_node; tree_exec_manager.py: clear")])
prop("E06", "Structural edits never create cycles or several parents",
     "No edit makes a node its own ancestor, gives a node two parents or lists the same child twice. Requests that would do so are refused with an error and leave the tree as it was.",
     ["histories", "inputs"], "every structural edit on every tree shape, with arbitrary node and parent identifiers",
     "adversarial identifier choices (own descendant, itself) are not tested",
     ["tree_edit_manager.py", "node.py"], [("edit preconditions", "tree_edit_manager.py: move_node/replace_node/add_node/add_node_at_index"), ("child insertion", "node.py: Node.add_child")])
prop("E07", "A failed edit leaves the tree as it was",
     "When adding, removing, moving, replacing, morphing, reconfiguring, wiring or unwiring fails at any step, the set of nodes, their parents, their children and the wirings are the same as before the request. The failure is reported and no half-added node stays behind.",
     ["fault_sequences"], "every failure point of the edit operations, except those that start by discarding the tree (loading, reloading)",
     "failures in the middle of an edit are rarely provoked",
     ["tree_edit_manager.py", "data_flow_manager.py"], [("edit operations", "tree_edit_manager.py: add_node, add_node_at_index, move_node, wire_data")])
prop("E08", "Parent and child links always agree and respect the child limit",
     "A node is listed among the children of exactly the node it names as its parent; both links are changed together by every operation that attaches, detaches, moves or replaces nodes. A node never has more children than its type allows and never two children with the same identity.",
     ["histories"], "every sequence of attach, detach, move and replace operations",
     "link asymmetry appears only in particular sequences",
     ["node.py", "tree_edit_manager.py"], [("links", "node.py: Node.add_child/remove_child")])
# ---------------------------------------------------------------- execution
prop("X01", "At most one tick thread per tree",
     "A new ticking thread is started only when no other one for the same tree is alive, and a thread that already finished is never started again. Requests to start ticking while the tree is being ticked are refused.",
     ["schedules", "histories"], "every sequence and interleaving of execution commands and thread progress",
     "thread lifetime races do not show in sequential tests",
     ["tree_exec_manager.py"], [("tick thread", "tree_exec_manager.py: control_execution")])
prop("X02", "Stopping waits for the running tick before touching nodes",
     "Stop, reset and shutdown commands and the clearing or loading of a tree never untick, reset, shut down or discard nodes while the tick thread of that tree may still be executing: the thread is asked to stop and waited for first, and if it does not finish in time the command fails instead.",
     ["schedules"], "every command in every tree state, against any progress of the tick thread",
     "requires a race between the tick thread and a service call",
     ["tree_exec_manager.py"], [("stop and join", "tree_exec_manager.py: control_execution, stop helpers")])
prop("X03", "Execution failures end in a visible error state",
     "If setting up or ticking the tree fails, or node code raises unexpectedly inside the tick thread, the tree ends up in its error state with the failure recorded, never in a state that claims it is still ticking. From the error state only the documented recovery leads back to execution.",
     ["fault_sequences"], "every failure point of the tick loop: root lookup, wiring initialisation, setup, tick, untick, unexpected exceptions",
     "exceptions inside a background thread are invisible to tests of the service interface",
     ["tree_exec_manager.py"], [("tick loop", "tree_exec_manager.py: tick, tick_report_exceptions")])
prop("X04", "Every execution command is handled in every tree state",
     "Each command of the execution service leads, in each tree state, to either its documented effect or a refusal with an explanation; no command or state is silently ignored, and unknown commands are refused.",
     ["inputs", "histories"], "all commands times all tree states",
     "the command/state table has about sixty entries",
     ["tree_exec_manager.py", "/ros_bt_py_interfaces/srv/ControlTreeExecution.srv"], [("command dispatch", "tree_exec_manager.py: control_execution")])
prop("X05", "The reported tree state is the real one",
     "The tree state in every response of the execution service equals the state the tree is in when the command has been carried out.",
     ["histories", "schedules"], "all commands, all states, all outcomes of the internal steps",
     "tests compare the response to the expected constant, not to the state",
     ["tree_exec_manager.py"], [("response", "tree_exec_manager.py: control_execution")])
# -------------------------------------------------------------- concurrency
prop("C01", "No operation can deadlock on the system's locks",
     "No code path acquires a non-reentrant lock it already holds, every lock that is taken is released on every path, and no two locks are ever taken in opposite orders. No lock is held while waiting for a thread that needs the same lock.",
     ["schedules"], "every call path from services, timers, callbacks and the tick thread",
     "deadlocks need a particular interleaving",
     ["tree_edit_manager.py", "tree_exec_manager.py", "debug_manager.py", "subtree_manager.py", "data_flow_manager.py", "ros_nodes/"], [("locks", "all threading.Lock/RLock objects in the package")])
prop("C02", "Messages that arrive during a node operation are neither lost nor kept too long",
     "A message (topic message, action feedback) that arrives while an operation of the node is under way, on another thread, is handled as if it had arrived before or after that operation: a tick never drops it without having output it, a successful reset or shutdown never leaves it behind for the next execution, and neither the operation nor the delivery of the message fails because of it.",
     ["schedules"], "every point of every operation at which a message can arrive, in every reachable state",
     "unit tests deliver messages between operations, never in the middle of one",
     ["ros_nodes/topic.py", "ros_nodes/action.py", "ros_nodes/service.py"], [("callbacks", "callbacks handed to subscriptions, action clients and futures")])
# --------------------------------------------------------------- interfaces
prop("I01", "Messages are built and read only with fields that exist",
     "Every request, response and message the system constructs, fills or reads uses only fields and constants that exist in the interface definition. No path fails because of a field that is not there.",
     ["programs"], "every access to an interface type on every path",
     "a wrong field name only fails when that line runs",
     ["node.py", "nodes/", "ros_nodes/", "tree_edit_manager.py", "tree_exec_manager.py", "package_manager.py", "subtree_manager.py", "logging_manager.py", "debug_manager.py", "tree_node.py", "/ros_bt_py_interfaces"], [("interface definitions", "ros_bt_py_interfaces/msg, srv, action")])
prop("I02", "Every service is exposed under its own name, type and handler",
     "Each service offered by the running system is bound to a handler that accepts that service's request and returns its response, no two services share a name, and every edit, execution and package operation the system implements is reachable. Handlers that run concurrently with ticking are placed in a callback group that allows it.",
     ["configurations"], "every service, topic and timer registration",
     "the ROS entry point cannot be started in unit tests",
     ["tree_node.py", "package_manager.py"], [("registration", "tree_node.py: TreeNode")])
prop("I03", "Every parameter the system reads is declared with a matching type",
     "Every configuration parameter used at start-up is declared, and used consistently with its declared type; every declared parameter has an effect, and start-up puts its value where it belongs. The launch file passes only declared parameters, each from its own launch argument, with defaults and choices the declaration allows.",
     ["configurations"], "all parameters and all their uses",
     "parameter handling needs generated code that tests do not build",
     ["tree_node.py", "/ros_bt_py/config/tree_node_parameters.yaml", "/ros_bt_py/launch/ros_bt_py.launch.py"], [("parameters", "tree_node_parameters.yaml and params.* accesses")])
# ------------------------------------------------------------------ storage
prop("S01", "Saving writes only inside the chosen location and never silently overwrites",
     "Saving a tree never writes to a file outside the storage folder or package chosen in the request, whatever file name is given, and never replaces an existing file unless the request allows it. A refused save changes nothing on disk and is answered with an error.",
     ["inputs"], "every file name and location in a save request",
     "hostile names (parent references, absolute paths) are not tested",
     ["package_manager.py"], [("save", "package_manager.py: PackageManager.save_tree*")])
prop("S02", "Malformed tree files end in an error response",
     "Loading a tree from any file content - unreadable, empty, not YAML, of the wrong shape, with unknown nodes, inconsistent ids or dangling wirings - ends with an error response in bounded time. It never crashes the service, never loops, and is never reported as success.",
     ["inputs", "fault_sequences"], "every file content and every failure of a loading step",
     "the space of malformed files is unbounded",
     ["tree_exec_manager.py", "migrate_tree_files.py"], [("loading", "tree_exec_manager.py: load_tree, load_tree_from_file")])
prop("S03", "A failed save does not destroy the previous file",
     "The content to be saved is completely produced before an existing file is opened for writing, so an error while producing it leaves the previous file intact.",
     ["fault_sequences", "crash_points"], "every failure while the tree is converted to its file form",
     "needs a failure between opening and writing",
     ["package_manager.py"], [("save", "package_manager.py: PackageManager.save_tree*")])
# ------------------------------------------------------------------ results
prop("R01", "No error result is dropped",
     "Wherever an operation of the system returns either a value or an error, the caller looks at which of the two it got: no such result is thrown away, tested for truth, or compared with a plain value. Matching on it covers both cases.",
     ["programs", "fault_sequences"], "every call site of every fallible operation",
     "a dropped result only shows when that call fails",
     ["node.py", "nodes/", "ros_nodes/", "data_flow_manager.py", "data_types.py", "tree_edit_manager.py", "tree_exec_manager.py", "package_manager.py", "subtree_manager.py"], [("fallible calls", "all functions returning Result")])
prop("R02", "A value is only taken out of a result that is known to hold one",
     "Taking the value out of a result without handling the error is only done where the result is known to be a success. Otherwise the error is handled or passed on.",
     ["programs", "fault_sequences"], "every unchecked extraction on every path",
     "needs the failing branch to be taken",
     ["node.py", "nodes/", "ros_nodes/", "tree_edit_manager.py", "tree_exec_manager.py", "data_flow_manager.py"], [("unwrap", "all unwrap/unwrap_err/expect call sites")])
prop("R03", "The result type obeys its algebra",
     "Mapping, chaining, defaulting and inspecting operations on success and error results call the given function exactly when the result is of the kind they apply to, pass the contained value, return the documented result and otherwise return the receiver unchanged. Equality, hashing and truth tests distinguish successes from errors.",
     ["inputs"], "every operation on both kinds of result, for arbitrary contained values and functions",
     "the repository contains no tests of its vendored result type",
     ["vendor/result/result.py"], [("Ok/Err", "vendor/result/result.py")])
prop("G01", "Names, attributes and arguments used in the package exist",
     "No code path of the package refers to a name that is not defined, to an attribute no object of that kind has, or calls a function of the package with arguments it does not take. Such a path would end in an unexpected exception the first time it is taken.",
     ["programs"], "every name, attribute access and call in the package whose type is known statically",
     "a wrong name or argument only fails when that very line runs",
     ["node.py", "nodes/", "ros_nodes/", "data_types.py", "data_flow_manager.py", "debug_manager.py", "logging_manager.py", "subtree_manager.py", "tree_edit_manager.py", "tree_exec_manager.py", "package_manager.py", "migrate_tree_files.py", "tree_node.py"],
     [("uses", "all modules of the package")])
# ------------------------------------------------------------- subtree, log
prop("T01", "Node diagnostics never disturb the nodes they report on",
     "Collecting node diagnostics can be switched on and off at any time, also while a node operation is under way, and never makes that operation fail, run twice or lose its error, nor changes the node. While collecting is on, every operation is reported once before and once after it, with the node's own name, id and path and with the phase it is in; while it is off nothing is reported.",
     ["schedules", "configurations"], "every setting, every change of the setting by another thread at any point of a report, every node operation, succeeding or failing",
     "needs the setting to change between the two halves of a report; unit tests do not switch diagnostics at all",
     ["debug_manager.py", "node.py"], [("reports", "debug_manager.py: report_state, report_tick"), ("switch", "debug_manager.py: set_collect_node_diagnostics")])
prop("T02", "Subtree information is removed with the subtree",
     "Whatever information about a nested tree is recorded for display (structure, state, data, nested trees) is removed completely when that subtree node is removed or the tree is cleared, and is reported for all nested trees that are still present when publishing is enabled.",
     ["histories"], "every sequence of adding, updating, removing and clearing subtree information, at any nesting depth",
     "tests add and read; removal across nested levels is not sampled",
     ["subtree_manager.py", "tree_edit_manager.py"], [("bookkeeping", "subtree_manager.py: SubtreeManager")])
prop("L01", "Log calls keep their severity and origin",
     "A message logged at a given severity is forwarded to the ROS log and to the published log at that same severity, with the originating node's identity; logging never fails because no publisher or no logging manager is attached.",
     ["inputs", "configurations"], "every severity, with and without node identity, publisher and logging manager",
     "tests cover a subset of the severity/attachment combinations",
     ["logging_manager.py", "node.py"], [("forwarding", "logging_manager.py: LoggingManager; node.py: Node.log*")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
