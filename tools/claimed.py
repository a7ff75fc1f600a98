SIM = "Seeded search, no proof: holds on every simulated execution of the run; assumes the simulated system calls behave like the real ones (assumptions in the evidence file). "
CLAIMED = {
 "C01": ("fault_enumeration", SIM + "Within each generated scenario every system call is a crash point (process kill before/inside/after, power loss with seeded write-back)."),
 "C02": ("fault_enumeration", SIM + "Within each generated scenario every system call fails with every applicable error, plus seeded fault pairs, small disks, few descriptors."),
 "C03": ("exploration", SIM + "24 seeded schedules per scenario, invariant after every event."),
 "C04": ("fault_enumeration", SIM + "Within each generated scenario every open, read, stat and listing fails with every applicable error, plus seeded pairs, few descriptors, read slicings."),
 "C05": ("fault_enumeration", SIM + "Within each generated scenario every create, write, sync and close fails with every applicable error, plus seeded pairs and small disks."),
 "C06": ("exploration", SIM + "13 perturbed executions per scenario (map order, directory order, read slicing, time of day, unrelated files)."),
 "C07": ("exploration", SIM + "Independent date arithmetic is the oracle; each scenario runs report commands at a seeded clock, time zone and clock jumps."),
 "C08": ("exploration", SIM + "Histories of format/modify/report separated by clock movements, against an independent model of the dates."),
 "C09": ("exploration", SIM + "Histories of 3 to 9 steps with faults and power losses in the rewrites, against a reference model of the ledger read by a reader of the harness's own."),
 "C10": ("exploration", SIM + "Every report of a history is compared with an independent reference model of the ledger."),
 "C11": ("exploration", SIM + "Histories of up to 12 imports and rewrites with faults, against a reference model of what each import must emit and what the ledger must hold in the end."),
 "C12": ("exploration", SIM + "Every import is compared with a reference interpreter of source definitions and rules; five executions per scenario with sliced and failing reads, truncated and spoiled inputs."),
 "C13": ("exploration", SIM + "Clock, zone, range, random choices and split seeded; text, JSON, files and loading compared."),
 "C14": ("exploration", SIM + "Up to four days of quote fetching from a simulated HTTP service with seeded failures and delays; every printed line is judged and loaded back."),
 "C15": ("exploration", SIM + "Histories of coin test runs over generated test files with includes, results removed and spoiled in between, 30% of the runs hit by a fault; every file compared with the expected text byte for byte."),
 "C16": ("exploration", SIM + "Generated databases converted intact (compared entity by entity with the database) and damaged (truncation, flipped bits, failing system calls)."),
 "C17": ("exploration", SIM + "Each command is compared with the same command over the ledger with every include replaced by the included text, and repeated with failing operations and small limits on open files."),
 "C18": ("exploration", SIM + "The data embedded in the page is compared with an independent reference model; the viewer itself is not run."),
 "C19": ("fault_enumeration", SIM + "After a fault-free run every system call fails or kills the command (up to 65 plans per scenario); the whole simulated disk is compared."),
 "C20": ("exploration", SIM + "Five ways to format the same files compared byte for byte, the in-place attempt interrupted in 60% of the scenarios."),
}
