GEN = ('Seeded search, not exhaustive: every run is a complete execution of the real operators, managers, informers and work queues '
       'under a simulated clock, scheduler, API server and network. Trusts the API server model and the Go reference of each pipeline template.')
notes = {
 'C01': ('seeded search over event histories and interleavings against a reference evaluation of the pipeline', GEN),
 'C02': ('seeded search over API fault sequences, watch interruptions and interleavings against a reference evaluation', GEN),
 'C04': ('seeded search over multi-source histories and interleavings against a reference join and aggregation', GEN),
 'C03': ('seeded search over crash points (statement, API request, instant), outages and repeated crashes against a reference evaluation', GEN),
 'C05': ('seeded search over histories with effect-free events, relists, reconnects and long idle periods; every API write and view event accounted for by the reference', GEN),
 'C06': ('seeded search over interleavings of controller writes and foreign writes with API faults; every native write is judged field by field, final objects against the composition of both writers', GEN),
}
STORE = ('Seeded search, not exhaustive: every run is a complete execution of the real view caches, view clients, composite client and headless manager under a simulated scheduler and clock, '
         'interleaved at every statement of pkg/cache. Data races below statement granularity are out of reach.')
notes['C08'] = ('seeded search over interleavings of concurrent store clients; every history is searched for a linearization against an executable model, every value is poisoned after use', STORE)
notes['C09'] = ('seeded search over interleavings of writers with opening, slow reading and stopping of watches, informer handlers and controller sources; every event sequence is compared with the transitions of the matching objects', STORE)
notes['C10'] = ('seeded search over interleavings of operators that start, stop and come back under the same name beside others on the same API server and view store; every write and handler event is attributed to an operator', GEN)
notes['C11'] = ('seeded search over histories, periods, interleavings and API faults under a simulated clock; every trigger is timed by undoing what the harness tampers with, one-shot triggers are counted', GEN)
notes['C12'] = ('seeded search over histories of good, bad and corrected objects beside misconfigured controllers, with API faults and prompt, slow or absent error readers; targets of good objects, reports and final state against reference evaluations', GEN)
notes['C13'] = ('seeded search over histories of Operator resources created, changed, replaced and deleted beside running controllers, with API faults, watch interruptions and crashes; targets, statuses and the writer of every object against the declared specs', GEN)
notes['C15'] = ('seeded search over interleavings of HTTP clients, store clients, watches and controller caches over the same views: histories searched for a linearization, event sequences compared with transitions, raw requests against a reference model, connection resets as faults', STORE + ' HTTP servers and clients are real and talk over simulated sockets.')
notes['C14'] = ('seeded search over interleavings of registering, re-registering and removing groups with discovery and resource requests, and over histories of Operator resources with API faults and crashes: every answer must describe a state the group had during the request, exact states once quiet; part of the runs have the race detector', STORE + ' HTTP servers and clients are real and talk over simulated sockets.')
notes['C07'] = ('seeded search over the executions of all other checks, each run with the race detector compiled into the simulated process, so that every pair of conflicting accesses not ordered by synchronization in the simulated execution is reported, whichever came first', 'Seeded search, not exhaustive. Reports data races whose innermost repository function on both sides is not a constructor, and crashes; accesses made by the harness itself are not observed.')
notes['C16'] = ('seeded search over tokens, rules, requests, forged tokens and request tricks of concurrent users on machines whose wall clocks differ and jump; every answer against a reference authorizer at the server\'s clock, every effect against a reference store', STORE + ' HTTP server and client are real, over sockets in memory; TLS itself is not simulated.')
notes['C17'] = ('seeded search over the instant of the stop (time, n-th API request, n-th write) of operators, operator controllers and API servers with faults, open watches and half-sent requests; goroutines, connections, requests and writes after the stop are accounted for by the simulated node', GEN)
not_applicable = {p['id']: 'check under construction' for p in props}
