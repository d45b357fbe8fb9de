"""What each check runs. MANIFEST.json is generated from this (mkmanifest.py)."""

INST = {'build': 'inst', 'procs': 1}
WIRE = {'build': 'plain', 'procs': 2, 'needs_main': True}
PLAIN = {'build': 'plain', 'procs': 1}

CHECKS = {
 'C01': {
  'level': 'model_checking',
  'technique': 'stateless model checking of the real handler under a controlled scheduler in virtual time (all schedules up to a preemption bound) against a nondeterministic reference model',
  'parts': [dict(INST, name='C01')],
  'budget': {'quick': 75, 'thorough': 700},
 },
 'C13': {
  'level': 'model_checking',
  'technique': 'stateless model checking of concurrent requests on the real handler under a controlled scheduler (all schedules up to a preemption bound), each request compared with its stand-alone reference model',
  'parts': [dict(INST, name='C13')],
  'budget': {'quick': 75, 'thorough': 700},
 },
 'C12': {
  'level': 'model_checking',
  'technique': 'exhaustive enumeration of dice grid x label orders x event histories on the real handler with an owned random number generator, plus all schedules of concurrent policy decisions up to a deviation bound',
  'parts': [dict(INST, name='C12'), dict(INST, name='C12x')],
  'budget': {'quick': 75, 'thorough': 500},
 },
 'C02': {
  'level': 'model_checking',
  'technique': 'exhaustive enumeration of environment answers (per attempt outcomes and instants) on the real handler in virtual time, and on the real server over raw sockets in real time, against an explicit-state reference model of retry discipline',
  'parts': [dict(INST, name='C02'), dict(WIRE, name='C02w')],
  'budget': {'quick': 90, 'thorough': 600},
 },
 'C03': {
  'level': 'model_checking',
  'technique': 'exhaustive enumeration of environment answers (per attempt outcomes and instants) on the real handler in virtual time, and on the real server over raw sockets in real time, against an explicit-state reference model of timeouts',
  'parts': [dict(INST, name='C03'), dict(WIRE, name='C03w'), dict(WIRE, name='C03l', weight=0, min_budget=100, replay_timeout=150)],
  'budget': {'quick': 90, 'thorough': 600},
 },
 'C25': {
  'level': 'model_checking',
  'technique': 'exhaustive enumeration of environment answers (per attempt outcomes and instants) on the real handler in virtual time against an explicit-state reference model of resource release, and of histories on real servers whose sockets and goroutines are counted afterwards',
  'parts': [dict(INST, name='C25'), dict(WIRE, name='C25w')],
  'budget': {'quick': 90, 'thorough': 600},
 },
 'C04': {
  'level': 'model_checking',
  'technique': 'exhaustive enumeration of bounded request bodies (framing, chunking, size, truncation point, mutation, arrival pattern) sent to the real server over raw sockets and to the real handler, against a reference framing model',
  'parts': [dict(WIRE, name='C04', weight=3), dict(PLAIN, name='C04h')],
  'budget': {'quick': 80, 'thorough': 500},
 },
 'C05': {
  'level': 'model_checking',
  'technique': 'exhaustive enumeration of the product of accepted codings, upstream codings, bodies, statuses, methods and framings on the real server over raw sockets, decoded by an independent reference',
  'parts': [dict(WIRE, name='C05')],
  'budget': {'quick': 80, 'thorough': 500},
 },
 'C06': {
  'level': 'model_checking',
  'technique': 'exhaustive enumeration of header alphabets, methods, statuses and request id histories on the real server over raw sockets, compared field by field with what the other side received',
  'parts': [dict(WIRE, name='C06')],
  'budget': {'quick': 80, 'thorough': 500},
 },
 'C10': {
  'level': 'model_checking',
  'technique': 'exhaustive enumeration of ordered route sets and request targets on the real configuration pipeline, handler and server, against a longest prefix reference model',
  'parts': [dict(PLAIN, name='C10h'), dict(WIRE, name='C10')],
  'budget': {'quick': 80, 'thorough': 500},
 },
 'C11': {
  'level': 'model_checking',
  'technique': 'exhaustive enumeration of request targets up to a token length on the real server over raw sockets, with byte exact upstreams and trap servers as oracle',
  'parts': [dict(WIRE, name='C11')],
  'budget': {'quick': 80, 'thorough': 600},
 },
 'C07': {
  'level': 'model_checking',
  'technique': 'exhaustive enumeration of algorithm x key x kid products, single position tampering, header shapes and serialisations against the real server over raw sockets, with an independent signature reference as oracle',
  'parts': [dict(WIRE, name='C07')],
  'budget': {'quick': 80, 'thorough': 500},
 },
 'C08': {
  'level': 'model_checking',
  'technique': 'exhaustive enumeration of claim combinations around every boundary x skews x instants on the real handler in virtual time, against a reference predicate',
  'parts': [dict(PLAIN, name='C08')],
  'budget': {'quick': 80, 'thorough': 500},
 },
 'C09': {
  'level': 'model_checking',
  'technique': 'exhaustive enumeration of publication, request and time histories on the real refresh in virtual time, and on the real server in real time, against an explicit-state reference monitor',
  'parts': [dict(PLAIN, name='C09'), dict(WIRE, name='C09w', replay_timeout=90)],
  'budget': {'quick': 150, 'thorough': 800},
 },
 'C24': {
  'level': 'model_checking',
  'technique': 'exhaustive enumeration of key set documents and endpoint failures served to the real server at boot and at refresh, against a reference classification of keys and tokens',
  'parts': [dict(WIRE, name='C24')],
  'budget': {'quick': 90, 'thorough': 600},
 },
 'C16': {
  'level': 'model_checking',
  'technique': 'exhaustive enumeration of certificate chains (expiry orders, boundaries, serials, file orders) under the real health check loop in virtual time against a reference, and on the real server with compressed time',
  'parts': [dict(PLAIN, name='C16', weight=3), dict(WIRE, name='C16w', fast=True)],
  'budget': {'quick': 90, 'thorough': 600},
 },
 'C15': {
  'level': 'model_checking',
  'technique': 'exhaustive enumeration of client hellos (versions, suites, groups, shares, signature algorithms) and of certificate chains against the real server process, with the stated policy as oracle',
  'parts': [dict(WIRE, name='C15', weight=2), dict(WIRE, name='C15b')],
  'budget': {'quick': 120, 'thorough': 700},
 },
 'C14': {
  'level': 'model_checking',
  'technique': 'exhaustive enumeration of parameter states through the real configuration pipeline and of sources, wrong types and illegal classes on the real server process, against the documented values as reference model',
  'parts': [dict(PLAIN, name='C14', weight=2), dict(WIRE, name='C14w', weight=3)],
  'budget': {'quick': 120, 'thorough': 700},
 },
 'C17': {
  'level': 'model_checking',
  'technique': 'exhaustive enumeration of the causes of generated responses, upstream error statuses and histories of upstream answers on the real server over raw sockets and HTTP/2, with the documented shape as oracle',
  'parts': [dict(WIRE, name='C17')],
  'budget': {'quick': 90, 'thorough': 700},
 },
 'C18': {
  'level': 'model_checking',
  'technique': 'exhaustive enumeration of addresses over octet and group alphabets x textual forms x messages on the real extraction, plus real connections and failing handshakes from many source addresses, against the address itself as oracle',
  'parts': [dict(PLAIN, name='C18', weight=2), dict(WIRE, name='C18w')],
  'budget': {'quick': 90, 'thorough': 600},
 },
 'C19': {
  'level': 'model_checking',
  'technique': 'exhaustive enumeration of sample sequences (all up to a depth, and all with a bounded number of deviations) on the real history against a reference list, and of memory courses on the real sampling daemons in virtual time',
  'parts': [dict(PLAIN, name='C19'), dict(PLAIN, name='C19d')],
  'budget': {'quick': 90, 'thorough': 600},
 },
 'C20': {
  'level': 'model_checking',
  'technique': 'exhaustive enumeration of the product of algorithms, key material classes, jwks answers and skews on the real validation, plus boots of the real server, against a reference classification of key material',
  'parts': [dict(PLAIN, name='C20', weight=2), dict(WIRE, name='C20w')],
  'budget': {'quick': 90, 'thorough': 600},
 },
 'C21': {
  'level': 'model_checking',
  'technique': 'exhaustive enumeration of response causes, bytes and histories on the real server whose log is parsed line by line, and of all schedules (preemption bounded) of exchanges on the real handler, each compared with what client and upstream saw',
  'parts': [dict(WIRE, name='C21', weight=2), dict(INST, name='C21x')],
  'budget': {'quick': 100, 'thorough': 700},
 },
 'C22': {
  'level': 'model_checking',
  'technique': 'exhaustive enumeration of upstream certificate chains x skip settings x trust stores x methods x attempts and of histories of certificates over connections on the real server, with a recording TLS upstream and the validity of each chain by construction as oracle',
  'parts': [dict(WIRE, name='C22')],
  'budget': {'quick': 90, 'thorough': 600},
 },
 'C23': {
  'level': 'model_checking',
  'technique': 'exhaustive enumeration of requests over method, target, version, header, token and framing alphabets (bounded number of deviations) and of upstream answers, on the real server over raw sockets with a pipelined probe and a bystander, oracle: one well formed response, no panic',
  'parts': [dict(WIRE, name='C23', weight=2), dict(WIRE, name='C23u'), dict(WIRE, name='C23f', weight=0, min_budget=80, replay_timeout=110, replays=3)],
  'budget': {'quick': 100, 'thorough': 700},
 },
 'C27': {
  'level': 'model_checking',
  'technique': 'exhaustive enumeration of bounded histories of client actions on one connection to the real server in real time, against an explicit-state reference of answers and of the connection life time',
  'parts': [dict(WIRE, name='C27')],
  'budget': {'quick': 120, 'thorough': 800},
 },
 'C28': {
  'level': 'model_checking',
  'technique': 'exhaustive enumeration of places of secrets x causes x log levels against the real server, and of failing and passing boots, with a search of the whole log for marked secrets in several encodings as oracle',
  'parts': [dict(WIRE, name='C28')],
  'budget': {'quick': 100, 'thorough': 700},
 },
 'C29': {
  'level': 'model_checking',
  'technique': 'exhaustive enumeration of environments (bounded number of variables off their default) in which the real server is booted, exercised and its log and answers compared with a reference',
  'parts': [dict(WIRE, name='C29')],
  'budget': {'quick': 120, 'thorough': 800},
 },
 'C30': {
  'level': 'model_checking',
  'technique': 'exhaustive enumeration of bounded histories of upstream exchanges (complete, cut off, garbled, late, refused, hanging), with and without retries, over http and https, on the real server over real sockets, against an explicit-state model of the connection pool',
  'parts': [dict(WIRE, name='C30')],
  'budget': {'quick': 120, 'thorough': 700},
 },
 'C26': {
  'level': 'model_checking',
  'technique': 'exhaustive enumeration of requests and upstream answers (bounded number of components off their default), each sent over every protocol to the real server, with the equality of what both ends see as oracle',
  'parts': [dict(WIRE, name='C26')],
  'budget': {'quick': 100, 'thorough': 700},
 },
}

NOT_APPLICABLE = {}

NOTES = {
 'C01': 'All schedules up to a preemption bound (complete iterations are in the evidence) of the real handler code for every scenario of a small grid. Trusts that switches at the instrumented shared accesses, channel and timer operations cover the relevant interleavings, and the reference model in px.go.',
 'C02': 'Every outcome history within the bounds, run on the real handler in virtual time. The wire part plays shorter histories through the real transport; what net/http repeats by itself on dead reused connections is outside.',
 'C03': 'Every outcome history with instants around both deadlines, in virtual time; answers due at exactly a deadline may go either way. The wire part keeps events 250 ms apart and allows a busy machine 900 ms.',
 'C04': 'All bodies of the stated alphabets and sizes over real sockets; instants of arrival are ordered, not timed.',
 'C05': 'The full product of the stated alphabets over real sockets, decoded by Go\'s gzip reader; brotli and deflate bodies are opaque bytes.',
 'C06': 'The stated header alphabets over real sockets. What net/http itself rewrites (empty User-Agent, 304 Content-Type) is exempt, see DESIGN.md.',
 'C07': 'The stated token space against the real server. Trusts Go\'s crypto packages for the verdict; tokens in JSON serialisation with a valid signature may pass or not.',
 'C08': 'All claim combinations of the grid at exact virtual instants. The clock is compared with one second granularity, in the second that starts at nbf-s either verdict is fine.',
 'C09': 'All histories up to the stated depth, requests and refreshes in virtual time through a replaced http.DefaultTransport; machine level data races on the key slices are outside.',
 'C10': 'All ordered route sets of the alphabets. Paths with regular expression meta characters are outside.',
 'C11': 'All targets up to the stated token length. Targets that net/http refuses or redirects by itself are exempt.',
 'C12': 'All dice grids and orders on the real code; concurrent decisions under all schedules up to a deviation bound.',
 'C13': 'All schedules up to a preemption bound of two or three requests; comparison with solo runs of the reference model.',
 'C14': 'The full product of absent, zero and set over the numeric parameters and pairwise products with further values; effects of the parameters on the wire once or twice each, in real time with tolerances.',
 'C15': 'All client hellos of the stated grid (what the server picks in its hello is taken for what it would complete; real clients complete the handshake for every Go suite and curve) and all stated chains at boot.',
 'C16': 'All chains of the stated shapes for the stated number of virtual days; each loop iteration sees exact instants. Cross signed chains with more than one path are outside.',
 'C17': 'Every cause of a generated response x method x accepted coding x protocol, all 4xx upstream statuses and histories of pairs of answers; requests refused by net/http before the handler are outside.',
 'C18': 'Octets and groups over boundary alphabets in every position and form on the real extraction; the wire part is limited to the addresses loopback offers.',
 'C19': 'All sample sequences up to the stated depth over a value alphabet, and all with a bounded number of deviations beyond it; the daemons read a fake proc tree in virtual time.',
 'C20': 'The full product of the stated alphabets of algorithms, key material, jwks documents and skews; RSA keys below 1024 bits, PKCS1 public keys and text around a PEM block may be accepted or not.',
 'C21': 'The stated causes, byte alphabets and histories; every exchange of the C01 and C13 scenarios under all schedules up to a deviation bound. Requests that net/http answers by itself (redirects of unclean paths, malformed requests) never reach j8a and are outside.',
 'C22': 'The stated chain shapes, each acceptable or not by construction, for a name and both kinds of address on loopback. Connections made to fetch jwks are outside.',
 'C23': 'Requests with up to two (thorough: three) components off their default in every combination of the stated alphabets, and all stated upstream answers. Whether a body that breaks off is answered is outside.',
 'C24': 'All key sets of one or two entries of the alphabet (quick: a stated subset of the pairs) and all stated answers, on the real server process; one refresh per case.',
 'C27': 'All histories of up to two (thorough: three) actions with every ending, plain and TLS; ends are accepted from 0.2 s before to 2.5 s after the moment due.',
 'C28': 'All listed places, causes, levels and boots. Secrets are recognised in plain, other case, base64, hex, decimal bytes and reversed; secrets a client puts into the path, query, X-Request-Id or User-Agent are not counted.',
 'C30': 'All histories of up to two (thorough: three) exchanges of the stated alphabet and rows of up to twelve equal ones. Whole unsolicited responses on an idle connection, and what net/http repeats by itself on dead reused connections, are outside.',
 'C29': 'All environments with up to two (thorough: three) of five variables off their default.',
 'C26': 'All requests with up to three (thorough: four) components off their default; what belongs to a protocol (framing, connection headers, HSTS, header order across names) is not compared.',
 'C25': 'Every outcome history within the bounds in virtual time; leftovers are read off the bubble after the horizon. The wire part compares socket and goroutine counts of the server process with those of one that served a single exchange; timers that hold no goroutine are only seen in virtual time.',
}
