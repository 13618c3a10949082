B="Sampled, not exhaustive: seeded random and priority schedules over generated projects and histories; stand-ins replace crates that are not available offline (see DESIGN.md). "
B2="Sampled, not exhaustive: seeded latencies, faults and operation histories; the editor API and the language client library are simulated (see DESIGN.md). "
NOTE={
"C01":B+"Every request of every run is matched with its responses.",
"C02":B+"Syntax-tree view of every open document compared with the client's text and with a fresh server.",
"C03":B+"All read requests at quiescence compared with a freshly started server.",
"C04":B+"Every answer compared with serial executions at each state the request overlapped.",
"C05":B+"Deadlock, idleness, progress nesting and status are checked at every point of rest.",
"C06":B+"Malformed traffic and injected file-system errors; liveness and later answers checked.",
"C07":B+"Shutdown, exit and disconnect at arbitrary instants of concurrent work.",
"C08":B+"Histories of manifest and folder changes overlapping reloads, compared with a fresh server.",
"C09":B+"A simulated movefmt with some twenty behaviours.",
"C10":B+"The same final state asked in all three encodings and both line endings.",
"C11":B+"The simulated client delivers only events that match the registered patterns.",
"C12":B+"Configuration histories with slow, failing and invalid answers, compared with a server started with the last one.",
"C13":B+"Outcome of every interrupted request compared with the serial executions.",
"C14":B+"Items resolved after edits; every document edit applied to the version it names.",
"C15":B+"The same state loaded under other schedules, worker counts, hash seeds and directory orders.",
"C16":B+"A pull client's view compared at rest with what the server answers.",
"C17":B+"Output and exit status of the batch check, under permuted directory orders, hash seeds, options and read faults, compared with what the language server reports for the same tree.",
"C23":B+"The content of every source file after every system call of the run (each a crash point) is one of the whole texts; full disks, permuted orders, second run for order dependence, parse check through the language server.",
"C19":B2+"Clients alive, released and running are checked at every step and at rest; downloads are cut at every file-system call.",
"C24":B2+"Registrations, status item, launch parameters and forwarded settings compared with the settings and reports in force.",
"C18":B+"Random capability sets; every server message judged against them.",
}
NA={
"C20":"a pure function of the input text: no schedule, clock, fault or interleaving for a simulator to control",
"C21":"a pure function of the program: no schedule, clock, fault or interleaving for a simulator to control",
"C22":"a pure function of the program and target: no schedule, clock, fault or interleaving for a simulator to control (that edits fit the version they name is part of C14)",
}
