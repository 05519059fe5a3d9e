"""Contracts by property."""
MODULES = {"P31": ["c_gen"], "P30": ["c_log"], "P28": ["c_mark"], "P16": ["c_bundle"], "P17": ["c_bundle"], "P18": ["c_bundle"], "P19": ["c_bundle"], "P20": ["c_bundle"], "P21": ["c_bundle"], "P22": ["c_bundle"], "P23": ["c_req"], "P12": ["c_env"], "P13": ["c_env"], "P07": ["c_agent"], "P08": ["c_agent"], "P09": ["c_agent", "c_exec"], "P14": ["c_exec"], "P15": ["c_exec"], "P10": ["c_agent"], "P11": ["c_agent"], "P06": ["c_delay", "c_async"], "P02": ["c_async"], "P01": ["c_async"], "P03": ["c_trig", "c_bundle"], "P04": ["c_trig", "c_bundle"], "P05": ["c_trig"], "P24": ["c_cov"], "P25": ["c_cov"], "P26": ["c_cov"], "P27": ["c_cov"], "P29": ["c_utils"]}
TRUSTED = [
    "CPython executing the instrumented functions (control flow, attribute access, calls)",
    "vc/load.py + vc/rt.py: instrumentation, symbolic values, loop cuts",
    "z3 (SMT)",
]

_LOOP = "asyncio: a task that can run is in the ready queue, a pass of the loop runs each ready task once, a task that waits is woken once by what it waits for"
_NEST = "sub-bundles satisfy the same contract as the bundle (induction over nesting; nesting is finite and not circular)"
_NAMES = "the attributes of a bundle, and the pins of a device, have distinct names"
_GEN = "generators are collected before they are consumed: the consumer does not change what the generator reads while it runs"
_PINS = "a pin of the simulation library (XData) stores what is written to its value and mode, and reads give what the device drives"
_EQ = "== of unknown values is a function of both, and is reflexive on the values compared"


def _i(explanation, *assumptions, trusted=()):
    return {"explanation": explanation, "assumptions": list(assumptions), "trusted": list(trusted)}


INFO = {
    "P01": _i("The settle loop, the cycle, the clock loop, start_clock and cancel_all_tasks are verified over a ghost event loop whose ready queue, finished tasks and step counter are unknowns: every path from one device step to the next passes a state in which no task can run and none was resumed since the last look.", _LOOP, "the device's RefreshComb/Step do not run tasks", "the tasks of the loop are those all_tasks reports"),
    "P02": _i("run, main_coro, gather and the component start-up against ghost tasks with arbitrary results, exceptions and order of completion.", _LOOP, "asyncio.run runs its coroutine to the end and gives its outcome", "the shapes of what an environment factory returns are enumerated (value, tuple, list, dictionary)"),
    "P03": _i("The waveform is an arbitrary function from cycles to values; waiting for the clock advances a ghost cycle counter by one.  ClockCycles and Bundle.step end after exactly n of them.", "waiting for the clock event of a device returns in the next cycle of that device", "all pins of one device share its clock event", _NEST, _NAMES, "real bundles of five shapes are a bounded extra"),
    "P04": _i("Triggers over an arbitrary waveform: at the return the condition holds, the delay has passed, and it did not hold at any cycle between them.", "waiting for the clock event returns in the next cycle", "a condition given by the user is a function of the cycle", "termination is not claimed (the condition may never hold)"),
    "P05": _i("As P04, with the value one cycle before.", "waiting for the clock event returns in the next cycle", "termination is not claimed"),
    "P06": _i("The window of a Delayer is a list of symbolic length d+1; one sample shifts it by one for every content.  Once-per-cycle is the frame of execute_all_coros and __process_delayer.", "the value of a signal is a function of the cycle until the next step", "d is not negative", _LOOP),
    "P07": _i("process_driver_call and the background execution for unknown numbers of models, hooks and ports: each hook is started or queued exactly once with the call's arguments, after/before the driver's code by the ghost clock of events.", "inspect.signature binds arguments as Python does", "a hook is a function that takes the arguments", "a hook that runs later sees what it was given: its closure captures only variables that are not assigned again (checked on the code in every run)", _LOOP),
    "P08": _i("compare_once and the background comparison: the exception is raised exactly if a result other than None differs from the device's result of the same call, for every position in the hooks.", _EQ, "an exception of a background task reaches the loop's exception handler (asyncio)"),
    "P09": _i("The tasks of a round are executed in the order of sorted(); the queue is emptied before; the per-call options are read once, for their call.", "sorted is stable and orders by the key (Python)", "a tie is decided by the order of becoming due"),
    "P10": _i("Port.put and the forwarding loops: every matching port gets each value once; a full port keeps its content.", "queue.Queue: put_nowait appends, full() compares with the capacity", "inspect.signature binds arguments as Python does"),
    "P11": _i("The monitor loop over an arbitrary number of cycles: each evaluation follows one wait, each value other than None is forwarded and queued once.", "asyncio.Queue: put_nowait appends, raises QueueFull at capacity", "what the monitor method itself waits for is its own affair"),
    "P12": _i("Matching is verified loop by loop: marks, connections and the completeness check against the definition of matching as a formula over names, for unknown numbers of attributes, agents, methods, hooks and ports.", "dir() lists each attribute once", "names of agents, methods, hooks and ports of one kind are distinct", "two hooks or ports of one model do not name the same method; every agent has a method", "the argument lists of the decorators are enumerated", "str.replace('__', '.') is an uninterpreted function"),
    "P13": _i("attach and unattach against the contracts of injection and collection: connections, marks, attached models and the environment of the model before and after.", "as P12", "after a rejected attach the model's connections are not stated (attach is not atomic, see DESIGN.md)"),
    "P14": _i("A call adds the coroutine at the end of its group, whatever the groups are; groups run their coroutines one after another (any number) in tasks of their own; the results map each name to what its group gave.", _LOOP, "__name__ of a coroutine names its function, and its frame shows the agent of a driver call (real coroutines: bounded extras)"),
    "P15": _i("The three exit modes over ghost group tasks that finish in any order.", _LOOP, "asyncio.wait with FIRST_COMPLETED returns when the first task is done"),
    "P16": _i("Each rule is verified against the mapping it defines (name -> place), each level hands every pin on to at most one level below, and a place without a pin becomes a dummy or stays unset.", _NEST, _NAMES, _GEN, "re.match and the join of groups are uninterpreted functions of expression and name", "a dictionary rule has distinct values"),
    "P17": _i("__init__, from_signallist, from_bundlelist build new objects; __unbind_all clears every place at every level once, and bind calls it first.", _NEST, _NAMES, _GEN),
    "P18": _i("assign over a ghost table 'how often and with what was this place written': exactly the entries of the mapping, the wildcard for the rest, warnings for unknown names.", _NEST, _NAMES, _GEN, "the entries of a mapping have distinct names (Python)", _PINS),
    "P19": _i("as_dict and all_signals list every place once with its value; the round trip follows with the contracts of assign.", _NEST, _NAMES, _GEN, _PINS),
    "P20": _i("set_all, randomize_all and set_write_mode write each connected input pin once and no other pin.", _NEST, _NAMES, _GEN, _PINS, "random.randint gives a value of its range"),
    "P21": _i("The count of a pin is the number of places that refer to it: kept by connecting, releasing and unbinding; the reports are filters over it.", _NEST, _NAMES, _GEN, "connections are made and released only by these functions", "bundles made with from_xport are not counted as connections"),
    "P22": _i("The binding functions are verified in both modes against the same mapping; detect_* returns what is left, and the frame in detection mode is empty.", _NEST, _NAMES, _GEN),
    "P23": _i("The rising-edge handler for every case of blocked and queued requests; process_requests over any number of cycles with the progress measure 'requests left'.", "StepRis: the handler is called once per device cycle", "queue.Queue is first in, first out", "a condition, once it is asked, is a function of the cycle", _NEST),
    "P24": _i("sample and __check__ over unknown groups, points, bins and conditions; counts are a ghost table.", "a condition is a function of its target and does not change the group", _NAMES.replace("attributes of a bundle, and the pins of a device,", "points of a group, and the bins of a point,")),
    "P25": _i("Every condition for an arbitrary value, and for a target that carries it.", "the relations are those of Python's operators on the values (verified for integers and unknown values with uninterpreted equality)"),
    "P26": _i("Each operation of a group: the whole table of points, bins and counts before and after.", "names are hashable and compared by equality"),
    "P27": _i("as_dict: the report part by part; the totals are sums over all points and bins.", "names of points and bins are distinct (P26 keeps them so)"),
    "P28": _i("mark_function: the functions of each bin before and after, for unknown bins, patterns and functions.", "fnmatch/re matching and strip are uninterpreted functions", "the name of a function object is a function of the object"),
    "P29": _i("LFSR and counter: all states as bit-vectors/integers.  PLRU: a tree of any height with any contents; the walks of get and update are described by their recursion and their properties proved by induction over the levels.", "a seed is an integer", "the bits of a way are its binary notation (way >> e and way & (1 << e) by their recursion equations); math.log2 of a power of two is exact"),
    "P30": _i("Handlers, filters and formatter per record; setup_logging for any number of former outputs.", "logging: a record that passes the logger's level reaches each handler once; Formatter.format is a function of format and record"),
    "P31": _i("The choice of names for devices of any size; the text is laid out for any number of names of any length and any line width: the targets of the last assignment, taken from the lines, are the chosen names, each once and in order, and as many signals are made (induction over the lines and the names of a line).", "re.match is uninterpreted", "names are identifiers, distinct", "a text of this form (names separated by commas and line continuations, = Signals(n)) means to Python what its grammar says; the harness executes samples"),
}
