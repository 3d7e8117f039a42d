#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
Q = "noodle/src/query.rs"; M = "noodle/src/matcher.rs"; E = "noodle/src/expression.rs"
P = "noodle/src/parser.rs"; W = "noodle/src/words.rs"; S = "noodle-webapp/src/main.rs"; C = "noodle-cli/src/main.rs"
B = "noodle/src/bitset.rs"
props = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    props.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("Q01", "Interrupting and resuming a query changes nothing it reports",
  "However often and at whatever moments a query is paused because its deadline passed and is then resumed, the matches it reports, their order, and its final completion notice count are exactly those of the same query evaluated without any interruption. A pause never loses, repeats or reorders a result.",
  ["schedules", "inputs"],
  "Every query, every word list, and every sequence of deadlines and clock readings, including deadlines that are already past, clock stalls, and pauses that fall between any two results or in any phase of the search.",
  "The tests never pass a deadline, so no test ever pauses an evaluation; the outcome depends on where in the search the clock happens to cross the deadline.",
  [Q, M],
  [("resumable step: evaluation state survives a timeout return", Q + ": QueryEvaluator::next_within_deadline"),
   ("per-word progress index and prefix-table cache kept across calls", M + ": WordMatcher::next_single_word")],
  [("word_index / search_layers / layer_index", "position of the paused search", Q + ", " + M),
   ("table_chars", "valid prefix of the cached transition tables", M)],
  ["sequence of responses returned by successive steps of one evaluation"])

p("Q02", "Every reported result really satisfies the whole query",
  "Every word or phrase that a query reports consists of entries of the word list in use, has at most the allowed number of words, and satisfies every line of the query as documented (regular-expression operators, subset, superset and substring groups, enumerations, macros, spaces and punctuation ignored unless made explicit, fuzzy lines within the stated edit distance). An anagram that makes up a whole line is reported only for true rearrangements. This holds at every point of the search, whatever pauses, earlier words or earlier results preceded it.",
  ["inputs", "schedules", "histories"],
  "Every query and word list, every order in which words share prefixes with their predecessors, and every pause/resume schedule.",
  "The result for a word depends on cached state left by all previous words and on merging of states and word classes for the particular list; the tests run one query on a list that is not in the repository.",
  [Q, M, E, P, B],
  [("all lines must accept", Q + ": next_within_deadline (word and phrase phases)"),
   ("prefix-cached NFA evaluation", M + ": next_single_word; " + E + ": fill_transition_table"),
   ("list-specific state merging", M + ": optimize_for_wordlist"),
   ("NFA construction and simplification", E + ": build_states, optimize_states"),
   ("anagram expansion", P + ": expand_expressions")],
  None, ["phrases carried by match responses"])

p("Q03", "A completed query has reported every match exactly once",
  "When a query announces completion without having reached its result limit, every word of the list, and every phrase of up to the allowed number of words from it, that satisfies all lines of the query has been reported, and each has been reported exactly once per choice of list entries. This includes words within the edit distance of fuzzy lines and all rearrangements of anagram lines.",
  ["inputs", "schedules", "histories", "configurations"],
  "Every query, word list (including duplicates, several frequency tiers, words with spaces, punctuation or accents), phrase length limit, and pause/resume schedule.",
  "Absence of a result can only be judged against the full set of matches, and it depends on pruning of words, states, lengths and tiers that is specific to each list; tests sample one query.",
  [Q, M, E, P],
  [("single-word pass followed by iterative-deepening phrase search", Q + ": next_within_deadline"),
   ("dead-word, dead-state and search-phase pruning", M + ": optimize_for_wordlist, filter_search_phases"),
   ("edit-distance closure", E + ": fill_transition_table")],
  [("search_queue", "remaining (length, tier) phases", Q), ("phase_had_partial_match", "whether longer phrases are still possible", Q)],
  ["set of match responses up to the completion response"])

p("Q04", "Result limits cut the result stream cleanly, and queries end once",
  "A query never reports more results than its limit, and with a limit of N it reports exactly the first N results of the same query without a limit, then completes. Completion is announced exactly once while results are being consumed, no result follows it, and phrases never exceed the requested number of words; limits given in the query text and limits set by the caller behave the same.",
  ["inputs", "configurations", "schedules"],
  "Every query, word list, result limit (including 0, and limits that fall inside the word pass, on its last result, or inside the phrase search), phrase limit and pause/resume schedule.",
  "The cut can fall at any result and after any pause; the one test that sets a limit never reaches it with the intended word list and never pauses.",
  [Q, P],
  [("results_limit and results_count", Q + ": next_within_deadline"), ("limits from pragmas", P + ": QueryAst::new_from_str; " + Q + ": QueryEvaluator::from_ast"),
   ("iterator stops once done", Q + ": Iterator for QueryEvaluator")],
  [("results_count", "results already handed out", Q)],
  ["responses of an evaluation, with and without limits"])

p("Q05", "Deadlines are honoured promptly, never early, and progress resumes",
  "A step given a deadline reports a timeout only if the clock has in fact passed that deadline, and once the clock has passed it the step hands control back after a small bounded amount of further search work, independent of list size and phrase length. A query that keeps being resumed with time left on its deadline always reaches completion in a bounded number of steps.",
  ["schedules", "inputs"],
  "Every query, word list and clock behaviour (slow, fast, stalled, jumping forward), in the word pass and in the phrase search, with and without matches nearby.",
  "No test passes a deadline or controls the clock.",
  [Q, M],
  [("periodic clock checks in the word pass", M + ": next_single_word"), ("periodic clock checks in the phrase search", Q + ": next_within_deadline")],
  [("deadline_check_count", "work since the clock was last read", Q + ", " + M)],
  ["timeout responses and the simulated clock at each step"])

p("Q06", "Results stream in the promised order",
  "All single-word results come before any phrase, and single words come in word-list order, most common tier first. Among phrases, a phrase that is no longer and uses no rarer tier than another comes first, and phrases of equal length and tier come in word-list order of their words.",
  ["inputs", "schedules", "histories"],
  "Every query, multi-tier word list and pause/resume schedule.",
  "Order across tiers and lengths is decided by sizes computed from each list; no test looks at order.",
  [Q, M, W],
  [("search phases sorted by size", Q + ": next_within_deadline"), ("word list sorted by tier, then letters", W + ": load_wordlist"),
   ("tier tracking along the phrase", Q + ": SearchLayer.max_tranche")],
  [("search_queue", "ordered (length, tier) phases", Q)],
  ["order of match responses"])

p("W01", "The server's query counters tell the truth",
  "Whenever the server is idle its active-query gauge is zero, however earlier queries ended: completed, timed out, failed to parse, or cut off because the client closed, reset or vanished (until the network reports it as gone) at any byte of the exchange. The gauge never exceeds the number of queries actually in progress, and the total counter equals the number of queries received.",
  ["schedules", "fault_sequences", "crash_points", "histories"],
  "Every interleaving of concurrent HTTP and WebSocket clients with disconnects, resets, stalls and malformed messages at every point.",
  "The web server has no tests; leaks need a disconnect at the moment the server is writing.",
  [S],
  [("gauge increment/decrement around a query", S + ": run_query_sync, run_websocket"), ("metrics endpoint", S + ": get_metrics")],
  [("ACTIVE_QUERIES", "queries in progress", S), ("TOTAL_QUERIES", "queries ever received", S)],
  ["GET /metrics"])

p("W02", "No client can take the server down or change others' answers",
  "Whatever bytes, queries, disconnects or resets other clients produce, the server process keeps running, and every well-formed request made afterwards is accepted and answered correctly.",
  ["fault_sequences", "inputs", "schedules", "crash_points"],
  "Every finite sequence of client behaviours: arbitrary query text, arbitrary request bodies and WebSocket frames, connections dropped or reset at any byte, and failed accepts.",
  "No test starts the server; the deployed profile aborts the whole process on any panic, so one unlucky message ends service for everyone.",
  [S, P, Q, E],
  [("parse errors are answers, not panics", P + ": QueryAst::new_from_str; " + S + ": run_query_sync, run_websocket"),
   ("per-connection error handling", S + ": run_websocket")],
  None, ["server process exit", "answers to later requests"])

p("W03", "A WebSocket query delivers exactly its results, then ends cleanly",
  "A client that sends a query over the WebSocket and keeps reading receives a well-formed message stream: status and log messages, each result of the query exactly once and in order, one final status saying that the query completed, timed out or did not parse, and then a close. Slow reading, fragmented delivery, back-pressure, pings and stalls change only the timing, never the results.",
  ["schedules", "fault_sequences", "inputs"],
  "Every query, every network schedule (segmentation, delay, back-pressure, client pauses) and every thread interleaving of the server.",
  "The WebSocket path has no tests; its loop interleaves polling the client, the clock and the search.",
  [S, Q],
  [("message loop", S + ": run_websocket"), ("JSON encoding of responses", S + ": Response, flatten_phrase; " + W + ": Word")],
  None, ["messages received by the WebSocket client"])

p("W04", "Stopping a query stops it",
  "When a WebSocket client closes or resets its connection while its query runs, or vanishes and the network reports it as gone, the server notices and stops working on that query within a few seconds of server time, whatever the client sent before, and the connection is released. No further results of the stopped query are computed after that.",
  ["schedules", "fault_sequences", "crash_points"],
  "Every moment of the exchange at which the client can leave (before, between and inside messages), by close frame, half-close or reset, with and without back-pressure, while other queries run.",
  "No test runs the server; the stop is only noticed through polling and write errors inside the query loop.",
  [S],
  [("polling the client between steps", S + ": run_websocket"), ("short evaluation slices", S + ": run_websocket (50 ms deadlines)")],
  None, ["connection close by the server", "active-query gauge"])

p("W05", "HTTP queries return exactly their results, within the time limit",
  "A GET or POST query is answered with exactly the query's results in order: for GET one line of words per result, at most 15 unless the query sets its own limit; for POST one JSON object per line. If the time limit (10 seconds for GET, 150 for POST) passes first, the answer arrives promptly after it, contains a prefix of the results and ends with a timeout line; a parse error is answered with its message.",
  ["inputs", "schedules", "fault_sequences"],
  "Every query and word list, every clock behaviour and every segmentation or delay of request and response, with other queries running.",
  "The HTTP paths have no tests, and the time limit only matters for long-running searches.",
  [S, Q],
  [("deadline loop", S + ": run_query_sync"), ("default GET limit", S + ": run_query_sync")],
  [("TIMEOUT_PLAINTEXT, TIMEOUT", "time limits", S)],
  ["HTTP response bodies and simulated response time"])

p("W06", "Concurrent queries do not influence one another",
  "The results a client receives are the same whether its query runs alone or together with any other queries, on any dictionary, including queries that bring their own word list, macros or limits. Each query is evaluated against the dictionary it names, the default one if it names none or an unknown one, or its own list.",
  ["schedules", "histories", "configurations"],
  "Every set of concurrent clients, query texts, dictionaries and thread interleavings.",
  "No test runs two queries at once.",
  [S, P, Q],
  [("per-request evaluator over shared immutable word lists", S + ": run_query_sync, run_websocket, words"), ("query options", P + ": QueryOptions")],
  [("WORDLISTS", "shared dictionaries, loaded once on first use", S)],
  ["responses of each client"])

p("W07", "Word-list endpoints deliver the loaded lists in full",
  "Downloading a word list returns every word of exactly that list, one per line and in list order, however slowly or irregularly the client reads, and an unknown name returns the default list. The list index and the metrics name every loaded list once, with its true size.",
  ["schedules", "fault_sequences", "configurations"],
  "Every set of word-list files, every order in which the directory yields them, and every read schedule of the client.",
  "No test starts the server or reads a list through it.",
  [S, W],
  [("streamed body", S + ": get_wordlist"), ("index", S + ": get_wordlist_js, get_metrics"), ("directory scan", S + ": WORDLISTS")],
  [("WORDLISTS", "loaded dictionaries by name", S)],
  ["GET /wordlist/NAME, /wordlists.js, /metrics"])

p("L01", "Loading a word list does not depend on how the file arrives",
  "The words, scores, tiers and order obtained from a word-list file depend only on its contents: they are the same whether reads are short, interrupted by signals or whole, and whether the file is plain or compressed. Every acceptable entry is present exactly once per line, with the score given in its count column if there is one.",
  ["fault_sequences", "schedules", "inputs"],
  "Every word-list content (one or two columns, blank, accented, digit-bearing or one-letter lines, final line without newline) and every way the operating system may split or interrupt the reads.",
  "The only test that loads a list reads it in whole buffers from a healthy disk and looks only at one query's match count.",
  [W],
  [("line reader over plain or zstd stream", W + ": load_wordlist"), ("tier sizes and sorting", W + ": load_wordlist")],
  None, ["list returned by the loader; GET /wordlist/NAME; command-line results"])

p("L02", "A damaged or unreadable word list is never silently truncated",
  "If reading a word-list file fails part-way (I/O error, truncated or corrupted compressed data), loading ends promptly with a failure instead of hanging or handing back part of the list as if it were complete.",
  ["fault_sequences", "crash_points"],
  "Every word-list file and every byte position at which the file can end early, be corrupted or fail to read.",
  "No test reads from a failing disk or a damaged file.",
  [W],
  [("error handling of the line stream", W + ": load_wordlist")],
  None, ["outcome of the loader, exit status and output of the command-line tool"])

p("C01", "The command-line tool prints exactly the query's results",
  "The command-line tool prints each result of the query on its own line, in order, honouring the requested number of results and words per phrase, and exits successfully, however the operating system splits or interrupts its reads and writes.",
  ["fault_sequences", "schedules", "inputs", "configurations"],
  "Every query, word list, -n and -m value and every pattern of short or interrupted reads and writes.",
  "The tool has no tests.",
  [C, Q, W],
  [("result loop", C + ": main"), ("option handling", C + ": Opt")],
  None, ["standard output and exit status"])

p("C02", "The command-line tool never passes off a partial answer as complete",
  "If the word list cannot be read, the query does not parse, or standard output fails (closed pipe, full disk) before all results are written, the command-line tool exits with a failure status, promptly, and whatever it did print is a prefix of the correct output.",
  ["fault_sequences", "crash_points"],
  "Every read or write of a run at which an error can strike, and every malformed query.",
  "The tool has no tests, and tests never inject I/O errors.",
  [C, W],
  [("unwrap on load and parse errors, panicking prints", C + ": main")],
  None, ["standard output and exit status"])

p("P01", "Printing a parsed expression and parsing it again is stable",
  "Parsing an expression, printing it, and parsing the printed form again yields an expression that matches the same strings.",
  ["inputs"], "Every expression the parser accepts.",
  "The round-trip test covers six hand-picked expressions.",
  [P], [("Display and parser", P + ": impl Display for Ast, parse_term")], None, ["ExpressionAst"])
p("P02", "Word normalisation reduces any text to the 28-symbol alphabet",
  "Any word text is reduced to lower-case letters a-z, punctuation and spaces, followed by one word end: accents are dropped, ligatures are split and letter case is ignored.",
  ["inputs"], "Every Unicode string.", "No test builds words from non-ASCII text.",
  [W], [("normalisation", W + ": Word::new")], None, ["Word.chars"])
p("P03", "Multi-dimensional bit sets behave like sets",
  "The bit sets used by the search behave like mathematical sets of index tuples under insertion, removal, union, intersection, difference and iteration, in one, two and three dimensions, for every size.",
  ["inputs"], "All sizes and operation sequences.", "Three tests with fixed sizes.",
  [B], [("BitSet", B)], None, ["BitSet operations"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in props: f.write(json.dumps(q) + "\n")
print(len(props), "properties")
