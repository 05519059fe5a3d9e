#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script because JSON lines are hard to edit by hand)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))

p("P01", "The clock advances one cycle at a time and only when everything has settled",
  "While a clock runs on a device, the device is stepped by exactly one cycle at a time, and only when no task of the loop can run any further in the current cycle: every task that was just created, or woken by an event, a queue, a finished or cancelled task, or by a reference-model hook, has run until it waits again. After each step every task waiting for the clock is woken exactly once, before the next step.",
  ["schedules", "programs"], "all sets of tasks built from creation, events, queues, gathers, cancellation and clock waits, in every order of creation and wake-up, and all numbers of cycles",
  "The tests run a handful of fixed coroutines on idle buses; the order in which tasks wake each other inside one cycle is never varied, so an early clock edge is not noticed.",
  ["toffee/asynchronous.py", "toffee/executor.py"],
  [("settle loop before every step", "toffee/asynchronous.py: __other_tasks_done, __has_unwait_task, execute_all_coros"), ("clock loop", "toffee/asynchronous.py: __clock_loop, start_clock")],
  [("new_task_run", "a task was resumed since the last round", "event loop attribute")], ["order of device steps and task actions"])
p("P02", "run and gather return each coroutine's own outcome",
  "Running a test returns exactly what the test returns, passes it exactly the values its environment factory produced, and lets an exception of the test escape to the caller; work already possible in the cycle in which the test ends is still done before the run returns. Gathering coroutines starts all of them before waiting and yields their results in argument order whatever the order in which they finish.",
  ["schedules", "inputs"], "all tests, environment factories (none, one value, a tuple of values), results, numbers of gathered coroutines and completion orders",
  "Tests only use run() as a vehicle; return values, tuples from the factory and completion orders other than submission order are not asserted.",
  ["toffee/asynchronous.py"], [("main_coro / run / gather", "toffee/asynchronous.py"), ("component start-up", "toffee/asynchronous.py: Component.__main_wrapper")], [], ["returned values", "order of actions"])
p("P03", "Waiting n cycles consumes exactly n clock cycles",
  "Waiting for n clock cycles on a pin, a bundle or a device returns after exactly n further cycles of that device, for every n including zero, when it is bound directly, through sub-bundles, or through lists of sub-bundles. Several waiters on the same device never delay each other.",
  ["inputs", "schedules", "configurations"], "all n >= 0, all three kinds of item, all bundle nestings, any number of concurrent waiters",
  "Tests wait one or a few cycles in one task and never count the cycles of the device.",
  ["toffee/triggers.py", "toffee/bundle.py"], [("ClockCycles", "toffee/triggers.py"), ("Bundle.step and the clock event it waits on", "toffee/bundle.py")], [("clock event of a bundle", "event of the device whose pins the bundle holds", "Bundle")], ["device cycle counter"])
p("P04", "Value, AllValid and Condition return at the first satisfying cycle",
  "Waiting for a pin value, for all pins to be valid, or for a user condition returns at the first cycle, not earlier than the given minimum delay after the call, in which the awaited condition holds, and never returns while it does not hold.",
  ["inputs", "histories"], "all signal waveforms, target values, sets of pins, conditions and delays >= 0",
  "No test samples these triggers over a waveform; a trigger that skips or repeats one cycle still passes.",
  ["toffee/triggers.py"], [("Value, AllValid, Condition", "toffee/triggers.py")], [], ["cycle at which the trigger returns"])
p("P05", "Change, RisingEdge and FallingEdge return exactly at the edge",
  "Waiting for a change returns at the first later cycle in which the pin differs from its value at the call. Waiting for a rising edge returns at the first later cycle in which the pin is non-zero after being zero in the cycle before, and waiting for a falling edge at the first later cycle in which it is zero after being non-zero.",
  ["inputs", "histories"], "all waveforms of a pin, including multi-bit values and any start cycle",
  "The tests contain no waveform; edges between two non-zero values and edges next to the call are not exercised.",
  ["toffee/triggers.py"], [("Change, RisingEdge, FallingEdge", "toffee/triggers.py")], [], ["cycle at which the trigger returns"])
p("P06", "A Delayer shows the signal exactly d cycles late",
  "A delayer of d cycles has no value until d+1 cycles have ended since it was created, and from then on always shows the value its signal had at the end of the cycle d cycles before the last one that ended. This holds for any number of delayers on the same or different signals, and whatever reference-model hooks run in those cycles.",
  ["inputs", "histories", "schedules"], "all delays >= 0, all waveforms, any number of delayers, with and without hooks executed in the same cycles",
  "The one test uses delays 2 and 3 over ten cycles with a counting signal and no hooks.",
  ["toffee/delay.py", "toffee/asynchronous.py"], [("sampling window", "toffee/delay.py: Delayer.sample, value"), ("once-per-cycle sampling", "toffee/asynchronous.py: execute_all_coros")], [("value_list", "the last d+1 samples, oldest first", "Delayer")], ["Delayer.value in each cycle"])
p("P07", "Each driver call runs every matching hook exactly once with the call's arguments",
  "Every call of a driver method runs each matching driver hook exactly once with the call's own arguments, and each matching agent hook exactly once with the method's path and all of its parameters by name with defaults filled in; no hook that does not match runs. Hooks ordered before the device complete before the driver's own code starts, hooks ordered after it run only once the driver's code has finished, and the caller gets exactly the driver's own result.",
  ["inputs", "programs", "schedules", "configurations"], "all driver signatures and argument lists, all numbers of models, hooks and ports, both orders, any number of concurrent calls",
  "Tests call a few methods with one or two arguments, mostly one call per cycle and one model.",
  ["toffee/_base_agent.py", "toffee/agent.py", "toffee/executor.py"], [("process_driver_call", "toffee/_base_agent.py"), ("priority task queue", "toffee/executor.py"), ("driver_method wrapper", "toffee/agent.py")], [("model_infos", "hooks and ports of each attached model", "driver")], ["hook call log"])
p("P08", "A reference-model result that differs from the device's fails the test",
  "Whenever a hook of a driver call returns something other than nothing, it is compared with the device's result of that same call: equal results never fail the test, and any difference does, for every hook of the call. Hooks that return nothing are never compared.",
  ["inputs", "histories", "schedules"], "all pairs of device and model results, all sets of hooks before and after the device, any number of calls",
  "Tests cover a few matching results and hardly a mismatch; a comparison that is skipped for some hook still passes.",
  ["toffee/_base_agent.py", "toffee/_compare.py"], [("compare_once", "toffee/_compare.py"), ("background comparison", "toffee/_base_agent.py: process_driver_call")], [], ["run() outcome"])
p("P09", "Hooks due in the same cycle run in order of priority",
  "All hooks that become due at the same point of a cycle run in ascending order of their priority, and hooks of equal priority in the order in which they became due. A priority or order given for one driver call replaces the hooks' own for that call only and never affects another call.",
  ["schedules", "inputs", "histories"], "all assignments of priorities 0 to 99 and orders to hooks and calls, all sequences and interleavings of calls",
  "Tests use two or three fixed priorities in one cycle and never reuse a driver after a call with its own priority.",
  ["toffee/executor.py", "toffee/_base_agent.py"], [("priority-ordered execution", "toffee/executor.py"), ("per-call options", "toffee/executor.py: Executor; toffee/_base_agent.py: process_driver_call")], [("priority tasks", "hooks due in this cycle", "toffee/executor.py")], ["hook call order"])
p("P10", "Ports deliver every driver call and monitored value in order, within capacity",
  "A driver port receives the arguments of every call of its driver method (the bare argument if there is only one, otherwise all of them by name), and an agent port the path together with the arguments or the monitored value, each exactly once and in order. A port never holds more than its capacity: when it is full the new value is dropped and reported and the older ones stay untouched; an unbounded port never drops.",
  ["inputs", "histories", "schedules"], "all sequences of puts and gets, all capacities, all argument lists",
  "Tests push a handful of values and never fill a port.",
  ["toffee/model.py", "toffee/_base_agent.py"], [("Port.put", "toffee/model.py"), ("forwarding to ports", "toffee/_base_agent.py")], [], ["values read from ports"])
p("P11", "Every monitored value reaches all its consumers exactly once",
  "A monitor is evaluated again after each clock cycle it waits for, and every value it produces other than nothing is delivered exactly once and in order to each matching hook, each matching port, and the monitor's own queue once that queue has been enabled. The queue holds at most its capacity, and values arriving when it is full are dropped and reported without disturbing monitoring.",
  ["inputs", "histories", "configurations"], "all sequences of monitored values (including falsy ones), all sets of consumers, capacities and read patterns",
  "Tests monitor short sequences with one consumer and do not overflow the queue.",
  ["toffee/_base_agent.py", "toffee/agent.py"], [("monitor loop and forwarding", "toffee/_base_agent.py: Monitor")], [("get_queue", "values waiting to be read", "monitor")], ["values delivered"])
p("P12", "Attaching a model accepts it exactly when everything in it matches",
  "Attaching a model to an environment succeeds exactly when every driver hook, monitor hook and port of the model names an existing driver, monitor, agent or method of that environment and every agent or method listed by an agent hook exists; otherwise it raises a value error and connects nothing of the model. Each hook and port is connected to exactly those methods it names, by explicit path, by agent and method name, by function or attribute name, or by agent.",
  ["configurations", "inputs"], "all environments and models: any number of agents, methods, hooks and ports (every agent with at least one method; at most one driver or monitor hook and one such port per method and model), every naming form, matching or not",
  "Tests use a few well-formed models and two mismatches.",
  ["toffee/env.py", "toffee/model.py"], [("matching", "toffee/env.py: attach and helpers"), ("collection and completeness check", "toffee/model.py: collect_all, ensure_all_matched, get_*")], [("matched marks", "which hooks and ports found a method", "model")], ["attach outcome", "which hooks run for which method"])
p("P13", "Attach and unattach keep environments and models consistent",
  "After a model is attached, exactly its environment drives it; after it is unattached, none of its hooks and ports receives anything from that environment and other models are unaffected. A model attached while it belongs to another environment is moved, the two attachments are independent of what other models of the same class were attached to before, and it can be attached again with the same effect as the first time.",
  ["histories", "configurations"], "all sequences of attach and unattach over any number of environments and models, also of the same classes",
  "Tests attach once and never unattach or attach a second model of a class elsewhere.",
  ["toffee/env.py", "toffee/model.py"], [("attach / unattach", "toffee/env.py"), ("clear_matched / is_attached", "toffee/model.py")], [("attached_models", "models of the environment", "Env"), ("attached_env", "environment of the model", "Model")], ["hook call log", "is_attached"])
p("P14", "An executor runs groups concurrently and each group in order",
  "Coroutines given to an executor run one after another, in the order given, within the same group, and concurrently across groups; a coroutine without a group belongs to the group of its own name, qualified by its agent for driver methods. A coroutine that the executor rejects belongs to no group. The results map every group to the result of its only coroutine, or to the list of results in the order given.",
  ["schedules", "inputs"], "all numbers of groups and coroutines, durations, results and interleavings",
  "Tests use at most a few coroutines with fixed durations.",
  ["toffee/executor.py"], [("grouping and sequential execution", "toffee/executor.py: Executor")], [("groups", "coroutines by group in the order given", "Executor")], ["start and end cycles", "get_results()"])
p("P15", "An executor leaves its block exactly when its exit mode says",
  "An executor block ends when all groups are complete in mode all, as soon as one group is complete in mode any, and immediately in mode none; any other mode is rejected with a value error. In the modes any and none the remaining coroutines keep running to completion, and waiting for all of them returns only then with the results of every group.",
  ["schedules", "inputs"], "all exit modes, numbers of groups, durations and completion orders",
  "Tests check one timing per mode.",
  ["toffee/executor.py"], [("exit modes and wait_all", "toffee/executor.py: Executor")], [("uncompleted", "tasks still running", "Executor")], ["cycle at which the block ends", "get_results()"])
p("P16", "Binding connects every signal to exactly the pin its rules name",
  "Binding a bundle connects each of its signals, at every level of sub-bundles, signal lists and bundle lists, to the device pin whose name the rules along the path (prefix, regular expression or dictionary) map to that signal, and to no other pin. A signal without such a pin is left harmless (reads nothing, ignores writes) or, if access to unconnected signals is disallowed, keeps raising on access. Each signal without a pin is reported once, by its own path.",
  ["inputs", "configurations"], "all bundle structures and nestings, all combinations of the three rules, all sets of device pin names",
  "Tests bind a few fixed structures with friendly names; overlapping prefixes, leftover pins and deep nesting are not varied.",
  ["toffee/bundle.py"], [("recursive binding", "toffee/bundle.py: Bundle.bind, __bind_from_signal_list"), ("rule matching", "toffee/bundle.py: PrefixBindMethod, RegexBindMethod, DictBindMethod")], [("current_level_signals", "signals of one level", "Bundle")], ["identity of connected pins"])
p("P17", "Bundle instances are independent and can be bound again",
  "Every instance of a bundle class has its own connections, sub-bundles, signal lists and bundle lists: binding, writing or re-binding one instance never changes another. Binding a bundle again releases all its former connections and leaves it as if it had been bound to the new device only, including its clock.",
  ["histories", "configurations"], "all sequences of instantiation and (re)binding over any number of instances, devices and bundle structures",
  "Tests bind each bundle once.",
  ["toffee/bundle.py"], [("per-instance recreation", "toffee/bundle.py: Bundle.__init__, SignalList.from_signallist, BundleList.from_bundlelist"), ("release on re-bind", "toffee/bundle.py: __unbind_all")], [], ["identity of connected pins", "connection accounting"])
p("P18", "Assigning a mapping writes exactly the named signals",
  "Assigning a mapping to a bundle writes each named signal with its value and leaves every other signal as it was; a wildcard entry gives its value to all input signals that the mapping does not name. Nested mappings and dotted single-level names, including those inside bundle lists, address the same signals; unknown names are reported and change nothing, and the mapping itself is not modified.",
  ["inputs", "configurations"], "all bundle structures and all mappings, nested or single-level, with and without wildcards and unknown names",
  "Tests assign two or three fixed dictionaries.",
  ["toffee/bundle.py"], [("assign", "toffee/bundle.py: Bundle.assign, SignalList.assign, BundleList.assign")], [], ["values written to pins"])
p("P19", "Reading a bundle as a mapping returns every signal's current value",
  "Reading a bundle as a mapping yields one entry for every signal at every level with its current value, nested or flattened with dotted names, and nothing else. Assigning such a mapping, in the same form, to a bundle of the same structure reproduces all the values.",
  ["inputs", "configurations"], "all bundle structures and signal values, both forms",
  "Tests compare one fixed structure.",
  ["toffee/bundle.py"], [("as_dict", "toffee/bundle.py: Bundle.as_dict"), ("all_signals", "toffee/bundle.py: Bundle.all_signals")], [], ["returned mapping"])
p("P20", "set_all, randomize_all and write modes touch exactly the input pins",
  "Setting all signals writes the value to every connected input pin at every level exactly once and never to an output pin. Randomising writes every connected input pin that is not excluded a value within the given range, or within the width of the pin; setting a write mode configures every connected input pin and applies to later binds too.",
  ["inputs", "configurations"], "all bundle structures, pin directions and widths, exclusion lists, ranges and random sources",
  "Tests contain no output pins or exclusions.",
  ["toffee/bundle.py"], [("set_all, randomize_all, set_write_mode", "toffee/bundle.py"), ("all_signals", "toffee/bundle.py")], [], ["writes and modes seen by pins"])
p("P21", "Connection reports list exactly the unconnected and multiply connected pins",
  "After any sequence of binds and re-binds, the report of unconnected signals lists exactly the device pins that no bound bundle signal refers to, and the report of multiple connections exactly those that more than one refers to.",
  ["histories", "configurations"], "all sequences of binds and re-binds of any bundles to any devices",
  "Tests query the reports after at most a few binds.",
  ["toffee/bundle.py"], [("connection counting", "toffee/bundle.py: __update_signal_info, __remove_signal_attr, detect_*")], [("number_of_bundles_connected_to", "connections of a pin", "pin data")], ["returned lists"])
p("P22", "Connectivity predictions agree with binding",
  "Asking whether a device pin name could be connected to a bundle answers yes exactly if binding to a device with such a pin would connect it, and asking about a specific signal answers yes exactly if it would be connected to that signal. Asking never changes the bundle.",
  ["inputs", "configurations"], "all bundle structures and rules, all pin names, all signals of the bundle",
  "Tests query no specific signal and few names.",
  ["toffee/bundle.py"], [("detection mode of binding", "toffee/bundle.py: detect_connectivity, detect_specific_connectivity")], [], ["answers compared with bind"])
p("P23", "Requests on a bundle are applied one per cycle, in order, none lost",
  "Processing requests applies them in the order given, at most one per device cycle, and returns only when all have been applied; a request with a condition is held back, together with those behind it, until the first cycle in which its condition holds. Each request that asks for returned data yields the cycle in which it was applied and the data and callback results of that cycle, in order.",
  ["inputs", "histories"], "all request lists (mappings, callables, conditions, callbacks, returned bundles) and condition behaviours",
  "The existing tests do not process requests.",
  ["toffee/bundle.py"], [("rising-edge request handler", "toffee/bundle.py: ___dut_call_on_rise__, process_requests")], [("request queue and blocked request", "requests not yet applied", "Bundle")], ["values on pins per cycle", "returned list"])
p("P24", "Coverage counts every bin exactly once per sample in which it holds",
  "Each active sample of a coverage group adds exactly one to the count of every bin whose condition holds for its target (for a list of conditions, if all of them hold) and changes no other count; a point is covered exactly when every one of its bins has been hit, and the group when every point is. A group that stops once everything is covered stops exactly then.",
  ["inputs", "histories"], "all groups, points, bins, conditions and sequences of values and samples",
  "Tests sample a few values against a few bins.",
  ["toffee/funcov.py"], [("sample and bin check", "toffee/funcov.py: CovGroup.sample, __check__, is_point_covered, is_all_covered")], [("hints", "count of each bin", "coverage point")], ["counts in as_dict()"])
p("P25", "Every coverage condition implements its relation",
  "Each built-in coverage condition holds for a value, or for a target object carrying a value, exactly when the relation it is named after holds: equal, greater, less, at least, at most, not equal, member, not member, and within an inclusive range.",
  ["inputs"], "all values and parameters, plain values and targets",
  "Tests try a few values per condition; boundaries are not covered.",
  ["toffee/funcov.py"], [("conditions", "toffee/funcov.py: CovCondition and subclasses")], [], ["returned truth value"])
p("P26", "Stopping, resuming, resetting, clearing and deleting coverage do just that",
  "A stopped group counts nothing until it is resumed; resetting a point zeroes the counts of that point only and makes it uncovered; deleting a point removes that point only and clearing removes all; adding a point starts it at zero and lets a group that ended because it was covered sample again. A duplicate or unknown point name, or something that is not a condition, is rejected with a value error and changes nothing.",
  ["histories", "inputs"], "all sequences of these operations and samples",
  "Tests run no such sequences.",
  ["toffee/funcov.py"], [("group operations", "toffee/funcov.py: CovGroup")], [("sampling state", "stopped / covered / all once", "CovGroup")], ["counts in as_dict()", "is_point_covered"])
p("P27", "The coverage report adds up",
  "A coverage report contains every point with every bin and its exact count, and its totals are the numbers of all bins, of bins with a positive count, of all points and of covered points. It also states whether any point samples only until covered, and how often the group was sampled.",
  ["inputs", "histories"], "all groups and sampling histories",
  "Tests compare no totals.",
  ["toffee/funcov.py"], [("as_dict", "toffee/funcov.py: CovGroup.as_dict")], [], ["returned report"])
p("P28", "Marking functions attributes them to exactly the selected bins",
  "Marking a function for a coverage point records it for exactly the bins selected by exact name, wildcard or regular expression, keeps earlier marks, and records every function of a given list once. An unknown point raises a value error unless errors are disabled, and a pattern that selects no bin is rejected.",
  ["inputs", "histories"], "all sets of bin names and patterns, lists of functions, sequences of marks",
  "Tests mark nothing.",
  ["toffee/funcov.py"], [("mark_function", "toffee/funcov.py: CovGroup.mark_function, get_func_full_name")], [], ["functions in as_dict()"])
p("P29", "The hardware helper blocks implement their definitions",
  "The 64-bit shift register produces for every seed the sequence of the documented feedback (bits 0, 1, 3 and 4) and never leaves the 64-bit range; the two-bit counter saturates at both ends and predicts taken exactly in its upper half. The pseudo-LRU tree over a power-of-two number of ways always names a valid way, and never the way just used when there is more than one.",
  ["inputs", "histories"], "all seeds and numbers of steps, all update sequences, all power-of-two numbers of ways",
  "There are no tests for these blocks.",
  ["toffee/utils/lfsr_64.py", "toffee/utils/plru.py", "toffee/utils/two_bits_counter.py"], [("LFSR_64.step", "toffee/utils/lfsr_64.py"), ("PLRU.update / get", "toffee/utils/plru.py"), ("TwoBitsCounter", "toffee/utils/two_bits_counter.py")], [], ["returned values"])
p("P30", "Logging counts every record once and shows it everywhere alike",
  "Every record that passes the configured level is counted exactly once by severity and once by its id, and appears once on each configured output with the configured format, its own id and the colour of its severity. Setting logging up again replaces the former outputs instead of adding to them.",
  ["histories", "inputs"], "all sequences of set-up calls and log calls, levels, ids, formats and outputs",
  "There are no tests for logging.",
  ["toffee/logger.py"], [("StatsHandler, ToffeeFormatter, setup_logging", "toffee/logger.py")], [("counts", "records by severity and id", "statistics handler")], ["statistics", "emitted text"])
p("P31", "Generated bundle code defines exactly the matching signals",
  "The generated source text for a bundle, executed as it is, defines a bundle class with exactly the device signals that match the given prefix, regular expression or dictionary, and an instance that binds every one of them, whatever the line width limit. It is an error if nothing matches.",
  ["inputs", "configurations"], "all sets of device signal names, rules and line widths",
  "There are no tests for the generator.",
  ["scripts/bundle_code_gen.py"], [("code generation", "scripts/bundle_code_gen.py")], [], ["the text, executed"])

with open(OUT, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
