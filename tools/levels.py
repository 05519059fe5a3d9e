"""Verification level of each property (read by gen_manifest.py)."""
AS = "asyncio's scheduling of tasks is assumed by contract"
PROOF = {
    "P01": "the clock function of the device, tasks and callbacks of any number; " + AS,
    "P02": "gather: any number of coroutines and outcomes; run: any test and outcome, over the shapes a factory's result can take; " + AS,
    "P03": "any count and any waveform; bundles of any structure by the contract of binding (its clock is one of a pin of the device, induction over nesting); real bundles of 5 shapes as bounded extras",
    "P04": "any waveform, count, condition and structure of a bundle (as P03)",
    "P05": "any waveform",
    "P06": "a sample step for every delay and every content; whole runs of 0 to 5 cycles over 14 samples are bounded extras; " + AS,
    "P07": "any number of models, hooks and ports, any arguments; a hook that runs later is shown to see the same variables by a check on its closure; fixed signatures with the real inspect, and which driver a call reaches, are bounded extras; the binding of arguments by inspect.signature is assumed; " + AS,
    "P10": "any number of ports, values and capacities, any arguments; fixed signatures with the real inspect are bounded extras; queue.Queue and the binding of arguments are assumed",
    "P08": "any number of models, hooks and ports, any arguments and results; one bounded extra on the failing of the test; inspect's binding of arguments assumed",
    "P09": "any number of priority tasks, hooks and coroutines; the per-call options for any coroutine, driver or not; sorted is assumed stable",
    "P11": "any number of hooks, ports and monitored values; the two monitors of one agent are a bounded extra; asyncio.Queue assumed",
    "P12": "any number of attributes, agents, methods, hooks and ports with distinct names; two hooks or ports of one model do not name the same method and every agent has a method; the shapes of the decorators' argument lists are enumerated; str.replace is uninterpreted",
    "P13": "any number of attributes, agents, methods, hooks and ports (as P12); the order in which errors are searched is not part of it",
    "P14": "any number of groups and coroutines, any names, results and earlier calls (a call is a transition of an arbitrary executor); real coroutines of up to 4 calls as bounded extras; " + AS,
    "P15": "any number of groups and coroutines; " + AS,
    "P24": "all groups, points, bins and conditions of any number; conditions assumed to be functions of the target",
    "P25": "all values and arguments",
    "P26": "all groups and points of any number",
    "P27": "all groups, points and bins of any number",
    "P29": "register and counter: all states (bit-vectors, integers); PLRU: any power-of-two number of ways, any contents and access (induction over the levels; 1 to 16 ways again as bounded extras); the binary notation of a way and log2 of a power of two are assumed",
}
OTHER = {
}
NEST = "one level at a time over the contract of the levels below (induction over nesting), any number of signals, lists and bundles with distinct names"
PROOF.update({
    "P16": "any number of pins, names, signals, lists and bundles (" + NEST + "); prefix, regular expression and dictionary rules; the expression's matches and the join of its groups are uninterpreted, dictionaries have distinct values",
    "P17": "making, unbinding, binding: " + NEST + "; the classes of sub-bundles are called by contract (induction over nesting)",
    "P18": NEST + "; generators are collected before they are consumed; entries of a mapping have distinct names",
    "P19": NEST,
    "P20": NEST + "; the default source of random numbers is only seen by the bounded runs",
    "P21": "any number of pins, connections and bundles: each connection counts one, each release takes one off, a bind releases first (" + NEST + ")",
    "P22": "any number of pins and names, both modes against the same contracts (" + NEST + ")",
    "P23": "one cycle: every case of a request, any number of functions and bundles to be read; processing: any number of requests and of cycles; StepRis and queue.Queue assumed",
})
PROOF.update({
    "P28": "any number of bins, patterns, functions and earlier marks; whether a wildcard or expression matches, stripping and the names of function objects are uninterpreted; a function that is not in a list is a bounded extra",
    "P30": "any record, level, id, format and number of former outputs; logging's own dispatch (a record that passes the level reaches each handler of the logger once) and logging.Formatter are assumed",
})
PROOF["P31"] = "the choice of names: devices of any size, all three rules; the laying out of the text: any number of names, names and line width of any length (induction over lines and names); what a text of that form means to Python is tried by executing samples; 1 to 5 (8) signals with the layout of every width are bounded extras; re and the sort are assumed"
BOUNDED = {}
NA = {}
