"""Which function decides which property, by which method, at what strength."""
import debugcheck as dbg
import editcheck as ec
import algebra as al
import datacheck as dc
import execcheck as xc
import lifecycle as lc
import logcheck as lo
import fscheck as fs
import iocheck as io
import startcheck as stc
import subtreecheck as su
import resultcheck as rc
import racecheck as rac

CHECKS = {}
META = {}
NOT_APPLICABLE = {}

TYPESTATE = ("typestate analysis by abstract interpretation of the syntax tree (finite domains, fixpoint over all "
             "operation sequences)")
LCNOTE = ("Every concrete node class is analysed from its current source, for all orders of lifecycle operations and "
          "message callbacks and for all input values (abstracted), with 0 to 3 children (0 to 2 for Parallel, "
          "ParallelFailureTolerance, EnumSwitch in the quick tier and NameSwitch). Children and data maps are "
          "represented by the contracts decided by N01 to N03. Trusted: the interpreter's model of Python, "
          "of rclpy endpoints and of the Result type.")


def check(prop, technique=TYPESTATE, note=LCNOTE):
    def deco(f):
        CHECKS[prop] = f
        META[prop] = {"technique": technique, "note": note}
        return f
    return deco


@check("N05")
def n05(ctx):
    ctx.explain("Every composite and decorator class is interpreted abstractly over all operation sequences; "
                "after a successful setup, untick or reset the abstract states of all children are inspected.")
    lc.run_all(ctx, "n05", kmin=1, opts={"callbacks": False, "err_forks": True})
    ctx.need("node classes", 25)


@check("N06")
def n06(ctx):
    ctx.explain("For every transition of every node class that ends in success, the returned state is compared with "
                "the states the operation permits, and no child operation, input read or output write on that path "
                "may have failed.")
    lc.run_all(ctx, "n06", opts={"trace_io": True})
    ctx.need("node classes", 60)


@check("N07")
def n07(ctx):
    ctx.explain("After every tick that reports succeeded or failed, and after every successful untick and reset, no "
                "child may be in the running state.")
    lc.run_all(ctx, "n07", kmin=1)
    ctx.need("node classes", 25)


@check("N12")
def n12(ctx):
    ctx.explain("All code reachable from the lifecycle operations is executed abstractly; calls to functions that "
                "wait, re-acquisition of held locks and child operations under a lock are reported.")
    lc.run_all(ctx, "n12", kmax=1)
    ctx.need("node classes", 60)


@check("N13")
def n13(ctx):
    ctx.explain("Subscriptions, publishers, clients and action clients are typestate objects; after every transition "
                "the set of live endpoints is compared with what the node still refers to, and after shutdown with "
                "the empty set.")
    lc.run_all(ctx, "n13", kmax=1)
    ctx.need("transitions creating endpoints", 20)


@check("N14")
def n14(ctx):
    ctx.explain("Goal handles and request futures are typestate objects; after every successful untick, reset and "
                "shutdown no accepted goal may be active without a cancel request and no pending service request "
                "may still be referred to.")
    lc.run_all(ctx, "n14", kmax=1)
    ctx.need("transitions sending requests", 5)


@check("N15")
def n15(ctx):
    ctx.explain("All operation and callback orders are explored abstractly; a path that raises AttributeError, "
                "NameError or UnboundLocalError to the caller is reported.")
    lc.run_all(ctx, "n15")
    ctx.need("node classes", 60)


@check("N16")
def n16(ctx):
    ctx.explain("The attribute values after every successful reset are compared with those right after the first "
                "set-up; a left-over value is a violation when a second fixpoint, in which it is marked stale, "
                "shows a tick that reads it.")
    lc.run_all(ctx, "n16", kmax=2)
    ctx.need("resets compared", 100)


@check("N01")
def n01(ctx):
    ctx.explain("The public operations of Node are interpreted with an arbitrary behaviour (any result) in every state, "
                "with unknown input and output slots; a refused operation must leave everything as it was and an "
                "accepted one must run the matching behaviour once. Every concrete class is checked for overrides "
                "that do something although the operation is refused.")
    lc.run_wrappers(ctx, "n01", ks=(0, 1))
    lc.run_all(ctx, "n01c", kmax=1, opts={"trace_io": True})
    ctx.need("illegal operations", 150)
    ctx.need("illegal operations on node classes", 1000)


@check("N02")
def n02(ctx):
    ctx.explain("For every state, operation and result of the node's behaviour (including states it must not return) "
                "the returned result is compared with the node's state and with the permitted states; the same "
                "comparison is made for every concrete class with its real behaviour.")
    lc.run_wrappers(ctx, "n02", ks=(0, 1))
    lc.run_all(ctx, "n02", kmax=1)
    ctx.need("operations judged", 5000)


@check("N03")
def n03(ctx):
    ctx.explain("Real data containers with unknown value and mark are attached to the node; a snapshot of all values "
                "and marks is taken when the behaviour runs, when outputs are propagated and at the end.")
    lc.run_wrappers(ctx, "n03", ks=(0, 1))
    ctx.need("ticks judged", 500)
    ctx.need("successful ticks", 200)
    ctx.need("setups and resets judged", 500)


@check("N04")
def n04(ctx):
    ctx.explain("Shutdown is interpreted for the base class with arbitrary behaviour and for every concrete class; each "
                "child must be shut down or have been asked to, and every failure must be reported.")
    lc.run_wrappers(ctx, "n04")
    lc.run_all(ctx, "n04", kmin=1, kmax=2, opts={"callbacks": False})
    ctx.need("shutdowns judged", 5000)


@check("N08")
def n08(ctx):
    ctx.explain("All orders of operations are explored for every composite class; each successful tick is compared with "
                "an independent oracle (order of ticked children, where execution starts, when it stops, the result, "
                "the thresholds of the parallel nodes as intervals of the unknown inputs).")
    lc.run_all(ctx, "n08", opts={"ghost_name": "g_running", "callbacks": False},
               only=lambda ci: ci.qual in lc.COMPOSITES)
    ctx.need("node classes", 8)
    ctx.need("threshold decisions", 1000)


@check("N09")
def n09(ctx):
    ctx.explain("Each successful tick of every decorator class is compared with an independent table of documented "
                "results; counted restarts are compared with a ghost counter and the interval of the configured "
                "limit known on that path.")
    p = lc.program()
    lc.run_all(ctx, "n09", opts={"ghost_name": "g_dec", "callbacks": False},
               only=lambda ci: lc.spec_of(p, ci) is not None)
    ctx.need("node classes", 20)
    ctx.need("counted restarts judged", 500)


EDIT = ("abstract interpretation of the edit services over all trees they can produce (explicit-state fixpoint, "
        "bounded number of nodes)")
EDITNOTE = ("The service methods, the service decorator, the manager's bookkeeping and the link operations of Node are "
            "interpreted from their current source for every request worth distinguishing in every tree that requests "
            "can produce: up to 3 nodes (4 in the thorough tier) of the three kinds unbounded / one child / no "
            "children, up to two wirings, malformed and unknown ids, failing node creation. Replaced by a contract: "
            "creating a node from its description, data containers. Trusted: the interpreter's model of Python, "
            "uuid and copy.")


def edit_check(prop, text, **needs):
    @check(prop, technique=EDIT, note=EDITNOTE)
    def f(ctx):
        ctx.explain(text)
        ec.run(ctx, prop)
        for k, v in needs.items():
            ctx.need(k.replace("_", " "), v)


edit_check("E01", "Every edit request is interpreted in every tree state: outside the editable state it must be refused "
           "without effect; inside it, what the request changes is compared at every acquisition and release of a lock "
           "(all changes in one critical section of the manager's lock) and the structure must have been published.",
           refusals_judged=500, changes_made_under_the_edit_lock=5000)
edit_check("E03", "Every response of an edit service is compared with what happened: success means the documented effect "
           "is there (an independent description per operation), failure comes with a message, and no request raises.",
           responses_judged=20000, success_responses_judged=5000)
edit_check("E05", "After every successful removal or replacement the links, wirings, public data entries and recorded "
           "nested trees are searched for the removed nodes.", removals_judged=2000)
edit_check("E06", "After every request the links of all nodes are searched for cycles and for nodes listed twice.",
           edits_judged=20000)
edit_check("E07", "For every request that fails (refusal, failing step or exception) the nodes, links and wirings are "
           "compared with those before it.", failed_edits_judged=10000)
edit_check("E08", "After every request the parent and child links of all nodes are compared with each other and with "
           "the child limit.", edits_judged=20000)

EXEC = ("abstract interpretation of the execution service and of the tick thread, with interference at every "
        "observation (explicit-state fixpoint over all situations)")
EXECNOTE = ("tick_report_exceptions and control_execution are interpreted from their current source. The sequences of tree "
            "states the tick thread can write are computed first; then every command, including an unknown one, is "
            "interpreted in every situation reachable by commands, for trees without nodes, with one root and with two, "
            "while the tick thread progresses and another request stops it or starts one (once per command) wherever the "
            "locks allow it. Replaced by contracts: the root's operations (their results decided by N01 to N04), data "
            "flow. Trusted: the interpreter's model of Python, threading and rclpy. Not modelled: more than one "
            "concurrent starting request per command, concurrent shutdowns.")


def exec_check(prop, text):
    @check(prop, technique=EXEC, note=EXECNOTE)
    def f(ctx):
        ctx.explain(text)
        xc.run(ctx, prop)


exec_check("X01", "At every start of a tick thread: the thread is new, no other one of the tree is alive, and the lock held "
           "makes the check and the start one step; requests to tick while the thread runs are refused.")
exec_check("X02", "At every node operation of the service the tick thread must be known to have ended and the lock needed "
           "to start one must be held; the tree is opened for edits only when the thread has ended; discarding nodes "
           "holds that lock too.")
exec_check("X03", "For every outcome of the tick thread, failures of setup, data flow and ticking and exceptions must end "
           "in the recorded error state; the error state is left by SHUTDOWN only; no situation claims to be ticking "
           "without a thread.")
exec_check("X04", "Every response is compared with what the command did (an independent description of each command); "
           "failures come with a message; no command raises; the tick loop ends exactly when its mode says.")
exec_check("X05", "The tree state in every response is compared with the state of the tree at that moment.")


TYPES = ("custom rules over the type-checked program (pyright on an instrumented scratch copy, interface stubs generated "
         "from the .msg/.srv/.action files) plus syntax-directed dataflow")
TYPENOTE = ("All modules of the package (without the vendored result library) are type-checked as they are; what the type "
            "checker cannot resolve is not judged. Trusted: pyright, the annotations of functions it does not infer.")


@check("R01", technique=TYPES, note=TYPENOTE)
def r01(ctx):
    ctx.explain("Every call whose static type is a result is followed: thrown away, bound to a name that some path does not "
                "look at, tested for truth, compared with a plain value, or matched without the error case.")
    rc.run_r01(ctx)


@check("R02", technique=TYPES + "; remaining sites by abstract interpretation over all small trees", note=TYPENOTE)
def r02(ctx):
    ctx.explain("At every unwrap/expect the static type of the receiver, narrowed by all checks on the way, must exclude "
                "the other kind of result. What remains must never meet the other kind in the exploration of all small "
                "trees, or be unreachable.")
    rc.run_r02(ctx, rc.tree_evidence)


@check("I01", technique=TYPES, note=TYPENOTE)
def i01(ctx):
    ctx.explain("Attribute accesses on and constructions of interface types are checked against the interface definitions.")
    rc.run_i01(ctx)


@check("G01", technique=TYPES, note=TYPENOTE)
def g01(ctx):
    ctx.explain("Undefined names, attributes no class of the family has and calls that do not fit the signature.")
    rc.run_g01(ctx)


DATA = ("abstract interpretation of the data slot classes in every configuration (all order patterns of limits and values, "
        "all flags and marks) against an independent description of the types")
DATANOTE = ("The container classes, their registration and the readers of type messages are interpreted from their current "
            "source. Limits, lengths and values come from small ordered sets that contain every order pattern the "
            "comparisons can distinguish, nesting goes three levels deep. Trusted: the interpreter's model of Python, "
            "json, re, typeguard and the ROS interface registry. Arrays (numpy, array.array) are not modelled.")


def data_check(prop, text, need, technique=DATA):
    @check(prop, technique=technique, note=DATANOTE)
    def f(ctx):
        ctx.explain(text)
        dc.run(ctx, prop)
        for k, n in need.items():
            ctx.need(k, n)


data_check("D01", "Every configuration of every type is written and read back and compared with the original; every value it "
           "accepts is written and read back; every type used in a node interface must be registered.",
           {"types judged": 500, "values judged": 400, "declared types": 15})
data_check("D02", "Every value is stored in and restored into every configuration; what the description of the type forbids "
           "must be refused and leave value and mark alone, what it allows must be stored.", {"assignments judged": 4000})
data_check("D04", "The mark before and after every operation of every type (and of references to slots, which share the "
           "mark of their target) is compared with what the operation does.", {"marks judged": 3000})
data_check("D05", "Every pair of configurations: accepted exactly if the value sets are contained in one another; then the "
           "decision of the wiring check for outputs and inputs, including missing slots.",
           {"pairs judged": 4000, "wirings judged": 150})
data_check("D07", "The data flow manager is interpreted on every layout of up to three wirings, incoming and outgoing data, "
           "every state of the outputs and every refusing target; all slots are compared before and after.",
           {"transfers judged": 1500, "wiring layouts": 50},
           "abstract interpretation of the data flow manager over all small wiring layouts, output states and refusals")
data_check("D08", "The slot built for every form of field type is compared with the rules of the ROS interface language.",
           {"field types judged": 300})


@check("R03", technique="abstract interpretation of every operation of the result type against a table of its laws",
       note="All synchronous operations of Ok and Err, the tests, equality, hash, iteration and the do function, for "
            "contained values of every truth value and kind. Not judged: the asynchronous variants and as_result (unused).")
def r03(ctx):
    ctx.explain("Each operation is interpreted on a success and on an error with recording functions as arguments; calls, "
                "arguments, results and exceptions are compared with the law.")
    al.run(ctx)
    ctx.need("laws judged", 400)


@check("L01", technique="abstract interpretation of every log call in every combination of severity, minimum, publisher and origin",
       note="LoggingManager and the logging methods of all node classes are interpreted from their current source. Trusted: "
            "the interpreter's model of Python and rclpy loggers. Not judged: file and line of the caller.")
def l01(ctx):
    ctx.explain("Every severity is logged with every minimum level (set through the service on another manager), with and "
                "without publisher, tree, node and attached manager; what reaches the ROS log and the publisher is compared.")
    lo.run(ctx)
    ctx.need("log calls judged", 400)
    ctx.need("logging methods of nodes", 5)


@check("T02", technique="abstract interpretation of all histories of subtree bookkeeping, edits, commands and Subtree operations",
       note="SubtreeManager, the tree managers and the Subtree node are interpreted from their current source; nodes are created by "
            "their contract. Trusted: the interpreter's model of Python and deepcopy.")
def t02(ctx):
    ctx.explain("Three alphabets of operations on one to three nested subtree managers are explored until no new state appears; "
                "after every operation the reports are compared with what was recorded and not removed. Every edit and command "
                "is interpreted with every node having reported a nested tree. Every operation of a Subtree node has to report "
                "the state after it.")
    su.run(ctx)
    ctx.need("subtree operations judged", 3000)
    ctx.need("edits judged", 1000)
    ctx.need("commands judged", 500)
    ctx.need("subtree node outcomes judged", 30)


FSNOTE = ("The services are interpreted from their current source against a model of the file system. Trusted: the interpreter's "
          "model of Python, os, os.path, pathlib, open and the YAML reader. Symbolic links are not modelled.")


def fs_check(prop, technique, text, need):
    @check(prop, technique=technique, note=FSNOTE)
    def f(ctx):
        ctx.explain(text)
        fs.run(ctx, prop)
        for k, n in need.items():
            ctx.need(k, n)


fs_check("S01", "abstract interpretation of the save service against a model of the file system",
         "Saves with every kind of file name, flags, storage paths and previous content are interpreted with every file operation "
         "failing in turn; every file operation and the answer are judged.", {"save outcomes judged": 500})
fs_check("S02", "abstract interpretation of loading over an enumeration of malformed files, paths and failing steps",
         "Reading a tree is interpreted for every kind of path and document and every failing step; the search for node classes "
         "for every failing import, and every node constructor. Loading malformed trees into a manager is part of E03.",
         {"outcomes of loading judged": 150})
fs_check("S03", "abstract interpretation of saving and migrating with every step that produces content failing",
         "After a failure while content is produced, every file must have its previous content.",
         {"failing productions judged": 50})


@check("N10", technique="abstract interpretation of every node's accesses against the interpreted declaration of its interface",
       note="Every concrete node class is instantiated with an enumeration of options; every access in its lifecycle methods is "
            "judged against the inputs and outputs the instance really declares, with the type rules of the data types interpreted "
            "from source. Trusted: the interpreter's model of Python, rclpy and rosidl.")
def n10(ctx):
    ctx.explain("For every node class and option set the declared interface is computed by interpreting the constructor; the lifecycle "
                "methods are then interpreted over all operation orders and every read and write of an input or output is compared "
                "with the declaration.")
    io.run(ctx)
    ctx.need("accesses judged", 120)
    ctx.need("typed reads judged", 40)
    ctx.need("node classes", 50)


STARTNOTE = ("main() of the ROS node is interpreted from source for unknown parameters and every outcome of what it calls; the "
             "interfaces come from the .srv/.msg files, the parameters from the parameter description. Trusted: the interpreter's "
             "model of Python, of rclpy node creation and of the generated parameter class.")


@check("I02", technique="abstract interpretation of the start-up code; recorded registrations judged against the interface", note=STARTNOTE)
def i02(ctx):
    ctx.explain("Start-up is interpreted on all paths; each registered callback is then interpreted with a request to see which operation "
                "handles it and what is answered; executor, callback groups, topics and the default tree are judged on every path.")
    stc.run(ctx, "I02")
    ctx.need("service calls judged", 40)
    ctx.need("executor starts judged", 5)
    ctx.need("publish calls judged", 8)


@check("I03", technique="abstract interpretation of start-up and launch description with value tracking of every parameter", note=STARTNOTE)
def i03(ctx):
    ctx.explain("Every parameter value is tracked from the declared parameter set to where start-up puts it; types are compared with "
                "fields and annotations; the launch description is interpreted and its parameters, arguments and defaults are compared "
                "with the declaration.")
    stc.run(ctx, "I03")
    ctx.need("parameters declared", 6)
    ctx.need("parameter uses judged", 6)
    ctx.need("launch parameters", 6)


@check("C02", technique="abstract interpretation of every node operation with message callbacks interleaved at every shared access",
       note="Every node class that hands a callback to an endpoint is interpreted in every reachable state; the callback runs (one time, "
            "two times in the thorough tier) before every access of the operation to a field the callback touches, before every lock is "
            "taken and before every endpoint is released; while the operation holds a lock the callback waits. Trusted: single accesses "
            "to a field are atomic (the interpreter lock).")
def c02(ctx):
    ctx.explain("A message that arrives in the middle of a tick must be output or kept, one that arrives in the middle of a reset or "
                "shutdown must not outlive it, and neither the operation nor the callback may fail because of it. A tick may only drop "
                "a message it would also have dropped had it arrived before the tick.")
    rac.run(ctx)
    ctx.need("interleavings judged", 1000)
    ctx.need("node classes with callbacks", 3)


@check("T01", technique="abstract interpretation of the reporting context managers with the setting volatile",
       note="The context managers of the debug manager are interpreted around an operation that succeeds or raises, for every phase, "
            "with and without publisher, with the setting fixed or read anew (either value) at every access. Trusted: the "
            "interpreter's model of Python and contextlib.")
def t01(ctx):
    ctx.explain("report_state and report_tick are interpreted around an opaque operation for every phase and setting, including a setting "
                "that another thread changes between any two reads; every published message is judged.")
    dbg.run(ctx)
    ctx.need("reports judged", 100)
    ctx.need("diagnostic messages judged", 30)
