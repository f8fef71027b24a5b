"""Texts for MANIFEST.json."""
SESSION = "TLA+ session model checked by TLC; its behaviours replayed in the library, recorded runs validated against it"
ASSUME = ("Bounded: exhaustive over the model's small sets, random beyond. Trusts TLC, the Rust harness and the trace conversion. ")
TECHNIQUE = {i: SESSION for i in ("C01", "C02", "C03", "C04", "C18")}
TECHNIQUE.update({
    "C05": "TLA+ SHA-1/HMAC/base64 computed by TLC; recorded runs of the library validated against the session specification",
    "C06": "recorded runs of the library validated by TLC against the TLA+ session specification",
    "C07": "TLA+ RSASSA-PKCS1-v1_5 verification by TLC of signatures recorded from the library",
    "C08": "TLA+ model of several builders checked by TLC, all its behaviours replayed; recorded histories of builders validated by TLC",
    "C10": "TLA+ condition on recorded nonces evaluated by TLC over threads, forks, processes and entry points; session trace validation",
    "C11": "recorded runs under an interposed clock validated by TLC against the TLA+ session and builder specifications",
    "C12": "TLA+ model of what a request feeds, checked by TLC and replayed; recorded feedings validated by TLC",
    "C13": "TLA+ specification of derived requests; model of every combination of attributes checked by TLC and replayed with generated structs; random structs validated",
    "C14": "TLA+ specification of rejected inputs; model of all short attribute lists checked by TLC and given to the compiler; recorded diagnostics validated by TLC",
    "C15": "TLA+ model of parameter list histories checked by TLC and replayed; recorded random histories validated by TLC",
    "C16": "TLA+ model of a chunked encoder checked by TLC and replayed; recorded encodings of every Unicode scalar value validated by TLC",
    "C19": "TLA+ model of recorders checked by TLC, all its behaviours replayed; recorded histories and comparisons validated by TLC",
    "C20": "TLA+ model of reading maps checked by TLC, all its maps deserialized; recorded (de)serializations validated by TLC",
    "C21": "TLA+ model of two uses in lockstep that differ in secrets only, checked by TLC, all its behaviours replayed; recorded pairs of debug outputs validated by TLC",
    "C23": "TLA+ model of requests and what tampering makes of them, checked by TLC, all its pairs replayed; recorded pairs and altered outputs validated by TLC",
    "C22": "TLA+ model of conversions checked by TLC, all its behaviours replayed; recorded sequences validated by TLC",
    "C25": "TLA+ model of serializers in registers, opened, fed, cloned, dropped and ended in any order, checked by TLC; every schedule replayed; recorded interleavings, nested and threaded runs validated against it",
    "C26": "TLA+ model of sessions into sinks of every size and with failing texts, checked by TLC; every behaviour replayed; recorded runs near every limit validated against it",
    "C27": "TLA+ model of client, server, network and attacker checked by TLC; every behaviour of the client replayed; recorded flows with repeated and altered deliveries validated by a server in TLA+",
    "C24": "TLA+ model of the same use in every configuration checked by TLC, its behaviours replayed in builds of different features and profiles; recorded runs of all builds validated together",
    "C09": "TLA+ table of entry points over the session specification; recorded runs of all of them validated by TLC",
    "C17": "TLA+ model of all short feedings checked by TLC; every behaviour replayed in debug and release builds; random runs validated",
})
NOTE = {
    "C01": ASSUME + "The base string is judged as put together from the calls a recording signature method gets, and through HMAC-SHA1 signatures made with trivial keys.",
    "C02": ASSUME + "Strict octet equality with the specified header.",
    "C03": ASSUME + "Strict octet equality with the specified form or query.",
    "C04": ASSUME + "Strict octet equality with the specified text; the model shows it to parse back.",
    "C05": ASSUME + "SHA-1 and HMAC are executed by TLC from FIPS 180 and RFC 2104 definitions, anchored by published vectors.",
    "C06": ASSUME,
    "C07": ASSUME + "Six fixed keys of 512 to 2048 bits; verification only uses the public key.",
    "C08": ASSUME + "Up to four builders at a time.",
    "C10": ASSUME + "Freshness is statistical: no nonce repeats and no bit is stuck or tied to another in some thousands of nonces.",
    "C11": ASSUME + "The clock is interposed at clock_gettime in the harness process; some runs use the real one.",
    "C12": ASSUME + "Derived requests are left to C13.",
    "C13": ASSUME + "Structs are generated, compiled with the tree's macro and executed.",
    "C14": ASSUME + "Places are compared by line; messages are not compared.",
    "C15": ASSUME + "Owned, boxed, shared and borrowed pairs in vectors, arrays, slices and boxed slices.",
    "C16": "Exhaustive over all Unicode scalar values (one by one, and 64 to 256 together) in a form value and in the signed text; in the other places thorough only, quick samples. Chunkings exhaustive to five steps. Trusts TLC, the Rust harness and the trace conversion.",
    "C19": ASSUME + "Eight representations of records, each compared with each.",
    "C20": ASSUME + "JSON, urlencoded forms and serde's map deserializers with text or octet keys; formats without field names are out.",
    "C21": ASSUME + "Pairs of runs under five formats at each stage; signature methods holding an RSA key are out, as in the statement.",
    "C23": ASSUME + "Assumes that HMAC-SHA1 of different texts differs where only signatures are observed.",
    "C22": ASSUME + "Four combinations of string types.",
    "C25": ASSUME + "Schedules of threads are those the machine happens to give; interleavings within one thread are exhaustive to five events over two serializers.",
    "C27": ASSUME + "The server reads headers strictly and compares what it reads with what the client means; responses are forms or JSON.",
    "C26": ASSUME + "A refusal may be reported at the step it happens or later, but before a result is given.",
    "C24": ASSUME + "Eleven combinations of features and profiles in quick, thirty in thorough; heap allocation is counted by the harness's allocator.",
    "C09": ASSUME + "All entry points, every pairing with buffer and URI types at random.",
    "C17": ASSUME + "Panics are judged by the exact step at which they happen.",
    "C18": ASSUME + "Every call and its arguments are compared.",
}
NOT = {}
