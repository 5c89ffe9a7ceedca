"""What each check builds and runs: harness, sanitizers, workloads and their case counts
(quick, thorough), and the words that go into the evidence."""

import os

CHECKS = {}


def check(pid, programs, rule, technique, note, level="exploration", assumptions=()):
    CHECKS[pid] = {"programs": programs, "rule": rule, "technique": technique, "note": note,
                   "level": level, "assumptions": list(assumptions)}


check("C08", [
    {"src": "c08_cookies.cpp", "modes": {"auth-strict": (20000, 400000), "auth-loose": (20000, 400000),
                                          "auth-wild": (20000, 400000), "auth-small": (3906, 3906),
                                          "session-strict": (20000, 400000), "session-spaces": (20000, 400000), "session-wild": (10000, 200000),
                                          "quotes": (2000, 20000)}}],
    rule="generated cookie headers (0-5 cookies, names equal to, prefixing, containing the session name; separators "
         "with and without space; mutated and random bytes; all strings of <=5 tokens over a 5 token alphabet); "
         "distinct = distinct header strings",
    technique="ASan/UBSan runs over exact-size buffers with a reference cookie splitter as oracle",
    note="samples headers; the small-token mode is complete for its alphabet and length")

check("C09", [
    {"src": "c09_base64.cpp", "modes": {"round-trip": (6000, 200000), "bad-text": (15000, 400000),
                                        "small-texts": (1555, 1555), "small-bytes": (8000, 65536)}},
    {"src": "c09_base64.cpp", "san": "plain", "tag": "-huge", "flags": ["-DPART_HUGE"], "shards": (1, 1), "modes": {"huge": (1, 4)}}],
    rule="random byte strings up to 700 bytes in string, char, signed and unsigned char containers, arrays; texts of "
         "<=4 characters over a 6 character alphabet completely; mutated, cut and padded texts; strings of 2^29 bytes and more; distinct = distinct byte strings and texts",
    technique="ASan/UBSan runs with a bitwise RFC 4648 reference oracle and canaries around fixed targets",
    note="samples inputs; texts up to 4 characters over the alphabet A/=z+- are complete")

check("C10", [
    {"src": "c10_sha1.cpp", "modes": {"chunks": (4000, 100000), "accept-token": (3000, 50000), "signatures": (400, 400)}},
    {"src": "c10_sha1.cpp", "san": "plain", "tag": "-long", "flags": ["-DPART_LONG"], "shards": (1, 1), "modes": {"longer": (1, 4)}}],
    rule="every message length 0..199, random ones up to 20 kB and ones of half a gigabyte and more, split into random, single byte, block sized and empty "
         "pieces; distinct = distinct (message, split)",
    technique="ASan/UBSan runs with an independent FIPS 180-4 SHA-1 as oracle",
    note="samples messages and splits; few messages above 20 kB (around 2^29 bytes, thorough also 2^32)")

check("C01", [
    {"src": "c01_send.cpp", "san": "asan0", "modes": {"endpoint-stream": (1200, 40000), "every-size": (1600, 4000)}, "shards": (2, 4)},
    {"src": "c01_send.cpp", "san": "asan0", "tag": "-sender", "flags": ["-DPART_SENDER"],
     "modes": {"sender-shapes": (600, 10000), "sender-fails": (200, 3000), "huge": (1, 4)}}],
    rule="messages of sizes 0, 1, around and on multiples of the fragment limit and up to 70000 bytes, sent before and after "
         "start and from inside handlers, against peers that read everything or a few bytes at a time with small kernel buffers; "
         "frame limits 1..70000 and two payload types on the sender; distinct = distinct size sequences and (size, limit) pairs",
    technique="ASan/UBSan runs of the real endpoint on a socket pair, an independent RFC 6455 decoder as trace checker",
    note="samples message sequences and socket progress; sizes 0..1300 are complete one by one")

check("C02", [
    {"src": "c02_receive.cpp", "san": "asan0", "shards": (2, 4),
     "modes": {"endpoint-legal": (1500, 40000), "reader-legal": (1500, 40000), "every-length": (646, 646), "every-split": (250, 250), "huge": (2, 6)}}],
    rule="generated legal frame streams (1-5 messages, 1-6 fragments, pings and pongs with payloads between fragments, masks "
         "per frame, sizes over all three length forms) written in one piece, byte by byte and in random pieces; payload "
         "lengths 0..299 and all form boundaries; one stream split at every byte; distinct = distinct frame shapes",
    technique="ASan/UBSan runs of the real reader and endpoint on socket pairs; the generator's message list as oracle",
    note="samples streams; lengths below 300 and every two-piece split of one stream are complete")

check("C03", [
    {"src": "c02_receive.cpp", "san": "asan0", "tag": "-hostile", "flags": ["-DPART_HOSTILE"], "shards": (2, 4),
     "modes": {"endpoint-hostile": (2500, 60000), "reader-hostile": (2500, 60000), "every-cut": (260, 2000), "reset": (300, 5000)}}],
    rule="random bytes, mutated, truncated and extended frame streams, reserved opcodes, declared lengths up to 2^64-1, "
         "non-shortest lengths, oversized and fragmented control frames, every truncation of one stream, resets while data "
         "flows both ways; distinct = distinct byte streams",
    technique="ASan/UBSan runs with a byte level framing model, an allocation-size monitor and a terminal-event monitor",
    note="samples byte streams; for streams that break RFC 6455 only safety, bounded allocation, one end and no invented message are judged")

check("C04", [
    {"src": "c04_exchange.cpp", "san": "asan0", "shards": (2, 4), "modes": {"exchange": (3000, 60000), "conversation": (600, 10000), "burst": (80, 2000)}}],
    rule="a server and a client endpoint on one io context, connected directly or through a relay that moves 1..5000 bytes at a "
         "time with small kernel buffers; 0-14 messages (bursts: up to 3500) each way before start, after start and from inside handlers, handlers run "
         "one at a time or all at once, endpoints released by their owner meanwhile; distinct = distinct (message sizes, relay steps)",
    technique="ASan/UBSan runs of both real endpoints through a byte relay; exactly-once in-order log checker per direction",
    note="samples interleavings; both endpoints are driven from one thread, as the library requires")

check("C06", [
    {"src": "c06_server_handshake.cpp", "san": "asan0",
     "modes": {"valid": (2500, 60000), "every-split": (220, 220), "broken": (4000, 100000), "endless": (20, 200),
               "vanish": (300, 5000), "interleaved": (200, 3000)}}],
    rule="generated upgrade requests (random order, case, spacing, extra headers with any bytes, cookies around the session "
         "cookie), cut into random pieces, every two-piece split and truncation of one request, mutated and random bytes, "
         "missing and empty keys, over-long lines, vanishing peers, interleaved sessions; distinct = distinct requests",
    technique="ASan/UBSan runs of the real server endpoint; line-based request model, independent SHA-1/base64 for the answer",
    note="samples requests; which of several key or cookie headers counts and header lines over 200 bytes are left open")

check("C07", [
    {"src": "c07_client_handshake.cpp", "san": "asan0",
     "modes": {"valid": (1500, 40000), "bad": (2500, 60000), "every-cut": (390, 390), "vanish": (300, 5000)}}],
    rule="random tokens (up to 20 kB) and origins; valid answers in random pieces with frames right behind them, every truncation, "
         "split and single changed byte, answers for other keys, other status lines, random bytes; distinct = distinct (configuration, answer)",
    technique="ASan/UBSan runs of the real client endpoint against a scripted peer; request parser and event-count monitor",
    note="samples answers; every truncation and split of the valid answer is complete, one changed value per byte")

check("C05", [
    {"src": "c05_lifecycle.cpp", "san": "asan0", "shards": (3, 4),
     "modes": {"lifecycle": (20000, 300000), "blocked-close": (2000, 20000), "churn": (1000, 10000)}}],
    rule="generated scripts of 1-20 steps over messages both ways, pings, close by either or both sides, stop, half close, vanishing "
         "peer, partial network progress, release by the owner, and reactions from inside handlers; close frames held up in full "
         "sockets; many connections on one context; distinct = distinct scripts",
    technique="ASan/UBSan runs; event-log, wire-trace and lifetime (use count) monitors over scripted connection histories",
    note="samples interleavings; one thread, Unix socket pairs in place of TCP")

check("C11", [
    {"src": "c11_json.cpp", "san": "asan0", "tag": "A", "flags": ["-DSHAPES_A"], "modes": {"round-trip": (12000, 300000)}},
    {"src": "c11_json.cpp", "san": "asan0", "tag": "B", "flags": ["-DSHAPES_B"], "modes": {"round-trip": (12000, 300000)}}],
    rule="random values of 41 shapes: every scalar at its limits, text with any code point and NUL, byte buffers, fixed buffers, nested "
         "and empty containers, entities, sequences of 1-5 members with empty ones, variants, optionals, maps, all message kinds; read into a "
         "fresh and into a used target, twice; distinct = distinct (shape, document)",
    technique="ASan/UBSan runs; bit exact structural equality written independently of nbdl's traversal",
    note="samples values; only member types the reader can be compiled for, valid Unicode text and normal floating point numbers")

check("C12", [
    {"src": "c11_json.cpp", "san": "asan0", "tag": "HA", "flags": ["-DPART_HOSTILE", "-DSHAPES_A"], "modes": {"hostile": (12000, 300000), "cuts": (450, 450)}},
    {"src": "c11_json.cpp", "san": "asan0", "tag": "HB", "flags": ["-DPART_HOSTILE", "-DSHAPES_B"], "modes": {"hostile": (12000, 300000)}}],
    rule="documents of 41 shapes mutated as trees (node replaced, removed, added, swapped, wrapped, extreme numbers) and as text (cut, flipped "
         "bytes, inserted tokens, deep nesting, random bytes); distinct = distinct (shape, text)",
    technique="ASan/UBSan runs; the verdict and the value read are compared with an independent decoder over the parsed document",
    note="JsonCpp's parser decides what is JSON; extra members and integral reals may be accepted or refused")

check("C13", [
    {"src": "c13_equality.cpp", "san": "asan0", "shards": (2, 4),
     "modes": {"pairs": (40000, 1000000), "parts": (600, 6000), "members": (400, 4000), "containers": (800, 20000), "sets": (400, 8000), "ids": (200, 4000)}},
    {"src": "c13_equality.cpp", "san": "plain", "tag": "uid", "flags": ["-DPART_UID"], "modes": {"generators": (2, 12)}},
    {"src": "c13_equality.cpp", "san": "asan0", "tag": "web", "flags": ["-DEMSCRIPTEN=1", "-Iharness/web"], "modes": {"web-ids": (8, 200)}}],
    rule="pairs of values of 8 shapes (entities, variants, optionals, tuples, identifiers) from small domains, equal, differing in one part or "
         "unrelated; hash maps keyed by each shape against an association list; ordered and unordered sets built along different ways; 200 neighbours of a value; 320000 uid generators on 8 threads "
         "per case, and the generators of the web fed with chosen random numbers; distinct = distinct pairs of hashes",
    technique="ASan/UBSan runs; equality oracle written member by member, hash-consistency monitor, duplicate detector over all identifiers",
    note="hash quality is judged only as: each member matters, and at most half of 200 neighbours collide; element types of hashed containers need std::hash")

check("C14", [
    {"src": "c14_variant.cpp", "san": "asan0", "shards": (4, 6),
     "modes": {"history": (6000, 150000), "holder": (3000, 60000), "optional": (3000, 60000), "nested": (3000, 60000)}}],
    rule="random histories of construction, copy, move, assignment within, across and to self, unresolved and empty alternatives, swaps "
         "and destruction over pools of variants of counted types (trivial, heap owning, over-aligned, nested variants), variant holders "
         "and optionals; distinct = distinct histories",
    technique="ASan/UBSan runs; instance ledger (construct/destroy pairs by address) and reference model compared after every step",
    note="samples histories; copy and move constructors which throw are not exercised, nbdl has no guarantee for them")

check("C15", [
    {"src": "c15_store.cpp", "san": "asan0", "shards": (2, 4),
     "modes": {"map": (8000, 200000), "basic": (5000, 100000), "bulk": (400, 8000), "single": (3000, 60000)}}],
    rule="random sequences of all eight kinds of message (confirmed or not, with and without uid, as lvalue, const and rvalue) and raw "
         "insertions over map stores keyed by paths, entities, integers and strings; up to 400 items under rehashing; single value stores "
         "changed by assignment, by actions and by nested messages; distinct = distinct histories",
    technique="ASan/UBSan runs; reference map compared for every path (by match, const match and raw content) after every message",
    note="samples histories; whether deleting an absent path counts as a change is left open")

CTX = ("a context of two producers, three consumers and two observers over six paths (nested, shared roots, one key, listening stores); messages of all "
       "kinds from every actor and the context itself, with and without uid, key-carrying uid and confirmation; ")
check("C16", [
    {"src": "c16_context.cpp", "san": "asan0", "shards": (2, 4), "modes": {"routing": (12000, 250000), "answers": (8000, 150000)}}],
    rule=CTX + "producers answer at once or never, consumers read back what was created, observers match inside notifications, "
         "stores refuse or accept; distinct = distinct (history, configuration)",
    technique="ASan/UBSan runs; event log of all stores and actors compared after each message with a model of the routing rules",
    note="samples histories; the order among consumers and among observers is not judged; one thread")
check("C18", [
    {"src": "c16_context.cpp", "san": "asan0", "tag": "notify", "flags": ["-DPART_NOTIFY"], "shards": (2, 4),
     "modes": {"observers": (12000, 250000), "observers-acting": (8000, 150000)}}],
    rule=CTX + "stores accept, refuse or act at once on upstream messages, listening stores name up to two changed paths; observers match the path "
         "they are told of, which may send a read and be answered inside the notification; distinct = distinct (history, configuration)",
    technique="ASan/UBSan runs; notification log, with the state each observer sees, compared after each message with a model",
    note="samples histories; the order among observers is not judged; one thread")
check("C17", [
    {"src": "c17_read_through.cpp", "san": "asan0", "shards": (2, 4), "modes": {"answers-later": (10000, 200000), "answers-at-once": (10000, 200000)}}],
    rule="a context of two producers over four map stores; reads by message and by matching from every actor, answered at once, later in any "
         "order, with not_found, or never; updates, creates and deletes both ways; observers match inside notifications; distinct = distinct histories",
    technique="ASan/UBSan runs; event log and every matched value compared with a read-through cache model",
    note="samples histories; what a match shows which was answered while it asked may be the placeholder or the answer")

SHAPES4 = ("entities of one to eight members (numbers, text, nested entities, lists, arrays, variants, optionals) with values drawn from small sets, so that "
           "members often coincide; ")
check("C20", [
    {"src": "c20_delta.cpp", "san": "asan0", "shards": (2, 4), "modes": {"laws": (40000, 1000000), "chains": (25000, 600000)}}],
    rule=SHAPES4 + "deltas between related and unrelated values, merges in any bracketing of chains of up to eight; distinct = distinct value tuples",
    technique="ASan/UBSan runs; content of every delta and every result compared member by member (as text) with the algebra of partial maps",
    note="samples values")
check("C19", [
    {"src": "c20_delta.cpp", "san": "asan0", "tag": "local", "flags": ["-DPART_LOCAL"], "shards": (2, 4), "modes": {"history": (25000, 600000)}}],
    rule=SHAPES4 + "local edits, their confirmations in any order (as asked, extended or replaced), foreign confirmed changes and copies, "
         "in histories of up to twenty steps; distinct = distinct histories",
    technique="ASan/UBSan runs; view, pending identifiers and reported change compared with a reference model after each message",
    note="samples histories; one thread; nbdl has no operation to discard a pending edit")

check("C21", [
    {"src": "c21_match.cpp", "san": "asan0", "shards": (2, 4),
     "modes": {"trees": (4000, 80000), "combinators": (3000, 60000), "composed": (3000, 60000), "ranges": (6000, 120000), "visitors": (4000, 80000)}},
    {"src": "c21_kin.cpp", "san": "asan0", "modes": {"kin": (200, 2000)}}],
    rule="trees of entities, tuples, pairs, maps (static and hashed), map stores, variants within variants, optionals, aliases, references, local "
         "versions, composed stores and ranges, with random presence and alternatives; 40 path shapes, keys present and absent, by lvalue, const "
         "lvalue, rvalue and reference, with generic, typed, mapped and match_when handlers; variants of types which convert to one another, each asked for each; distinct = distinct trees and keys",
    technique="ASan (use after return)/UBSan runs; every call of a handler recorded with type and address and compared with a walk written by hand",
    note="samples trees; values held by reference_wrapper may be handed out as the wrapper; path shapes are fixed at compile time")

def pipes(flags, quick, thorough):
    return [{"src": "c22_promise.cpp", "san": "asan0", "tag": "%s%d" % ("state" if flags else "", base), "flags": flags + ["-DSHAPES=12", "-DSHAPE_BASE=%d" % base],
             "shards": (2, 2), "modes": {m: ((quick, thorough) if base < 200 else (0, thorough)) for m in ("async", "loops", "sync")}}
            for base in (0, 100, 200, 300, 400, 500)]
SHAPES22 = ("pipelines of pseudo random shape (24 shapes in the quick, 72 in the thorough tier; 3-13 stages, nested up to three deep: functions, void, forwarding and "
            "reference returning functions, promises, taps, tries, holds, lazy holds, catches of any of four rejection types, pipelines run by a stage), one to four at "
            "a time, interleaved, moved in or kept by the caller, run once, looped or synchronously; stages resolve with none, one or two values, reject or terminate, at once or later; ")
check("C22", pipes([], 6000, 60000),
    rule=SHAPES22 + "distinct = distinct (shapes, ways of running, seeds of decisions)",
    technique="ASan/UBSan runs; log of every stage run and the values it was given compared with a sequential model of the pipeline",
    note="samples shapes and decisions; a stage never answers twice; lazy holds answer later, as they must")
check("C23", pipes(["-DPART_STATE"], 6000, 60000),
    rule=SHAPES22 + "distinct = distinct (shapes, ways of running, seeds of decisions)",
    technique="ASan (use after free and return)/UBSan runs; a ledger of the live copies of every stage's state and held value, and their addresses, checked whenever the pipelines are idle",
    note="samples shapes and decisions; leaks are judged by the ledger; pipelines which never end are not judged")

check("C24", [
    {"src": "c24_messages.cpp", "san": "asan0", "modes": {"made": (500, 20000), "relayed": (2000, 60000)}}],
    rule="messages of all eight kinds with every combination of path, identifier, payload, private payload and confirmation, with random contents, made "
         "from and read as lvalues, const lvalues and rvalues; their answers, their normalized paths and their relay through JSON; distinct = distinct messages",
    technique="ASan/UBSan runs; every part is a counted heap value and each accessor, trait and conversion is compared with the parts the message was made of",
    note="samples contents; kinds and optional parts are complete")
check("C25", [
    {"src": "c25_echo.cpp", "san": "asan0", "modes": {"requests": (2000, 60000), "lifetime": (2, 8)}}],
    rule="histories of creates, updates and deletes over paths of one to three keys with plain, wrapped, wide, narrow and empty keys, with and without "
         "identifiers; distinct = distinct histories",
    technique="ASan/UBSan runs; log of every answer compared with the request, and the set of all keys handed out in the process",
    note="samples histories; the counters of narrow keys are not run to their overflow")

check("C26", [
    {"src": "c26_sql.cpp", "san": "asan0", "link": ["-lsqlite3"], "modes": {"rows": (5000, 100000), "database": (700, 20000)}}],
    rule="entities with nested children (two levels, several of one type), collections of rows (none to many), texts with quotes and NUL characters, numbers "
         "at their limits; the rows emitted, and the generated statements run against an in-memory SQLite database; distinct = distinct values",
    technique="ASan/UBSan runs; every emitted action recorded and compared with a traversal written by hand; a real database as the oracle for the statements",
    note="samples values; a row without a column of its own is not judged; entities are fixed at compile time")
check("C27", [
    {"src": "c27_views.cpp", "san": "asan0", "modes": {"paths": (300, 10000), "branches": (3000, 60000), "params": (3000, 60000), "promises": (3000, 60000)}},
    {"src": "c27_views.cpp", "san": "asan0", "tag": "views", "flags": ["-DPART_VIEWS"], "modes": {"predicates": (3000, 60000), "views": (3000, 60000)}}],
    rule="path specifications of one to six keys with values taken from the state, branch sets with overlapping and missing cases, parameter views over "
         "tuples of every category and their concatenations, evaluated again after each change of the state; distinct = distinct states and keys",
    technique="ASan (use after return)/UBSan runs; the branch run, its values and their addresses compared with a model of the state",
    note="samples states; branch sets and path shapes are fixed at compile time; a whole std::unordered_map at the end of a path is not supported")
check("C28", [
    {"src": "c28_tiles.cpp", "san": "asan0", "shards": (2, 4), "modes": {"moves": (1500, 40000), "context": (800, 20000), "last-row": (300, 3000), "edge": (4, 4)}}],
    rule="boards of every size up to 64 tiles with random permutations and random bytes beyond the board; histories of moves at every index a byte and an "
         "int can hold, on the board and through a context with the echo producer; distinct = distinct boards",
    technique="ASan/UBSan and bounds checked runs; board, answer and notifications of every move compared with a two dimensional model, and an invariant of solvability",
    note="samples boards and histories; all 256 indices are tried on a quarter of the boards")
check("C29", [{"src": "c29_helpers.cpp", "san": "asan0", "modes": {"strings": (20000, 400000), "empties": (10000, 200000), "groups": (300, 300), "trees": (300, 300),
                                                                 "lists": (300, 300), "maps": (300, 300), "joins": (300, 300)}}] +
    [{"src": "c29_helpers.cpp", "san": "asan0", "tag": str(n), "flags": ["-DSEED=%d" % n], "modes": {m: (0, 300) for m in ("groups", "trees", "lists", "maps", "joins")}}
     for n in range(1000, 9000, 1000)],
    rule="strings of every kind and length with NUL characters; sequences of empty and other elements; pseudo random lists, maps, trees of settings and "
         "strings of the compile time (30 shapes of each in the quick, 270 in the thorough tier); distinct = distinct inputs and shapes",
    technique="ASan/UBSan runs; results, addresses of elements handed on, and the printed types of compile time results compared with run time models",
    note="samples inputs and shapes")

def threads(src, tag="", flags=(), quick=48, thorough=1500, **more):
    return dict({"src": src, "san": "tsan0", "tag": tag, "flags": list(flags), "shards": (4, 8), "modes": {"threads": (quick, thorough)}}, **more)
check("C30", [
    threads("c04_exchange.cpp"), threads("c01_send.cpp"), threads("c02_receive.cpp"), threads("c05_lifecycle.cpp"), threads("c06_server_handshake.cpp"),
    threads("c07_client_handshake.cpp"), threads("c08_cookies.cpp"), threads("c09_base64.cpp"), threads("c10_sha1.cpp"), threads("c11_json.cpp"),
    threads("c13_equality.cpp"), threads("c14_variant.cpp"), threads("c15_store.cpp"), threads("c16_context.cpp"), threads("c17_read_through.cpp"),
    threads("c20_delta.cpp"), threads("c20_delta.cpp", "local", ["-DPART_LOCAL"]), threads("c21_match.cpp"), threads("c22_promise.cpp", "", ["-DSHAPES=6"]),
    threads("c22_promise.cpp", "state", ["-DPART_STATE", "-DSHAPES=6", "-DSHAPE_BASE=300"]), threads("c24_messages.cpp", quick=16, thorough=400), threads("c25_echo.cpp"),
    threads("c26_sql.cpp", link=["-lsqlite3"]), threads("c27_views.cpp"), threads("c28_tiles.cpp"), threads("c29_helpers.cpp", "", ["-DSHAPES=4"])],
    rule="two to six threads at once, each running one to four cases of the other monitors (endpoints, contexts, stores, deltas, promises, JSON, messages, "
         "identifiers, views, SQL) with objects of its own, the same case or different ones, with delays injected at the monitors' counters, in many fresh "
         "processes so that first uses coincide; distinct = distinct sets of cases",
    technique="ThreadSanitizer runs; everything each case observed (counts, violations, digests) compared with the same case run alone",
    note="samples schedules; races are found between accesses which both occur in a run, whatever their order; libjsoncpp and libsqlite3 are not instrumented")
check("C31", [
    {"src": "c31_routes.cpp", "san": "asan0", "shards": (2, 4), "modes": {"there-and-back": (20000, 400000), "any-text": (40000, 800000), "small-texts": (19531, 19531)}}],
    rule="routes with none to ten parameters of every supported kind with values at and beyond their limits and long texts; texts made by joining, cutting and "
         "altering valid paths; all 19531 texts of up to six symbols; distinct = distinct routes and texts",
    technique="ASan/UBSan and bounds checked runs on exactly sized buffers; the route read compared with a parser written by hand from the map",
    note="samples texts beyond six symbols; leading zeros and one trailing slash are left open; the parts needing emscripten are not built")
check("C32", [
    {"src": "c32_definitions.cpp", "san": "asan0", "tag": str(g), "flags": ["-DDEF_GROUP=%d" % g], "modes": {"definitions": (1000, 40000)}} for g in range(4)],
    rule="sixteen pseudo random context definitions (one to several producers, stores, consumers and listeners, nested access points, every set of actions, "
         "actors made with arguments by name, by position and by default), each driven by random histories; distinct = distinct histories",
    technique="ASan/UBSan runs; a log of every actor's construction, start, messages and destruction compared with a model which reads the definition as data; "
              "the printed message types compared with the model's",
    note="definitions are fixed at compile time (tools/gen_defs.py makes them); histories are sampled")


WEB_FLAGS = ["-fms-extensions", "-Iharness", "-Iharness/web", '-DWEB_HOST_SCRIPT="%s/harness/web/host.js"' % os.path.dirname(os.path.abspath(__file__)),
             "-no-pie", "-fno-pie", "-fsanitize-address-use-after-return=never"]  # handles are addresses of 32 bits: no fake stack


def web(src, modes):
    return {"src": src, "san": "asan0", "flags": WEB_FLAGS, "shards": (4, 8), "modes": modes}


WEB_NOTE = ("a node process and C++ stand-ins play emscripten, the document, its events, history and sockets (harness/web); they follow the "
            "standards for what nbdl uses, with 32 bit addresses; the code of nbdl, its JavaScript snippets included, is the real one")

check("C33", [web("c33_jsvalues.cpp", {"values": (2400, 60000), "others": (3000, 60000)})],
    rule="random values of structures with every bindable kind of member (numbers at their limits, texts of one to four byte characters, containers, variants, "
         "nested entities) given to JavaScript and read back, from values made by JavaScript too, and values of other shapes; distinct = distinct values",
    technique="ASan/UBSan runs of the binder and its JavaScript; the JavaScript value compared with a JSON text and the value read with the original",
    note=WEB_NOTE)
check("C34", [web("c34_jshandles.cpp", {"handles": (400, 12000), "callbacks": (600, 16000), "promises": (500, 16000)})],
    rule="random sequences of making, copying, assigning (to itself too), comparing and dropping of JavaScript values, of calls of C++ from JavaScript, also within calls "
         "and after their end, and of promises settled at once, later, several times and never; distinct = distinct sequences",
    technique="ASan/UBSan runs; a ledger of the JavaScript side's table, callbacks and of the values it must show after each step",
    note=WEB_NOTE)
check("C35", [web("c35_renderer.cpp", {"texts": (280, 8000), "branches": (320, 8000), "groups": (480, 8000), "nested": (400, 8000), "rows": (160, 4000)})],
    rule="user interfaces with text, attributes, classes, styles, nested branches, unresolved branches and rows, over contexts changed by messages, by user events and by rows "
         "which remove themselves; after each change the document is read; distinct = distinct documents",
    technique="ASan/UBSan runs; the document compared with one rendered by hand from the state; events compared with the messages they must send; ledgers of nodes, "
              "handlers and memory", note=WEB_NOTE)
check("C36", [web("c36_navroute.cpp", {"nav": (1200, 40000)})],
    rule="random histories of routes and texts sent by the program, steps through the browser's history and changes of the page, under random prefixes; distinct = distinct places",
    technique="ASan/UBSan runs; location, history, text and route compared with a model of the browser and a parser of routes after every step",
    note=WEB_NOTE)
check("C37", [web("c37_jsendpoint.cpp", {"json": (1600, 40000), "bytes": (1600, 40000)})],
    rule="random conversations through the browser's socket, text and binary, with texts of all character widths, bad messages, closing by either side and errors; "
         "distinct = distinct messages",
    technique="ASan/UBSan runs; what the socket was given and what the handlers saw compared with what was sent on either side", note=WEB_NOTE)

check("C38", [
    {"src": "c38_app.cpp", "san": "asan0", "flags": ["-Iharness/app"], "shards": (4, 8),
     "modes": {"exchange": (300, 10000), "crowd": (24, 800), "strangers": (160, 6000), "servers": (320, 12000), "documents": (400, 20000), "addresses": (3000, 100000)}}],
    rule="one server context and up to five, in crowds sixty, client contexts over TCP on the loopback device: messages of 11 kinds each way (up to 120 kB), before the connection "
         "stands, answered from inside the producer, clients which join and leave, hundreds of messages on one connection; peers without a handshake, without an upgrade, with nonsense, broken or "
         "fragmented frames; clients of strange servers; documents valid and broken; addresses; distinct = distinct histories",
    technique="ASan/UBSan runs of the application layer; exact per-client message lists, an interleaving checker for the server, a monitor of stages which answer twice",
    note="full_duplex, the promise library this layer is written against, is not installed: harness/app has a stand-in of the parts used (upstream's own test of "
         "the layer passes with it); the code of nbdl and Beast is the real one")

_c39 = web("c39_appjs.cpp", {"exchange": (1600, 40000), "crowd": (24, 800), "strangers": (600, 15000), "servers": (1000, 25000), "values": (500, 12000)})
_c39["flags"] = _c39["flags"] + ["-Iharness/app", "-DEMSCRIPTEN=1"]
check("C39", [_c39],
    rule="one server context and up to five, in crowds seventy, client contexts of the web in one JavaScript process, joined by sockets whose traffic the check moves: messages of 11 "
         "kinds each way, sent before the connection stands, from inside a handler and while others are under way, hundreds on one connection, clients which leave; peers which send unknown "
         "messages, system messages, messages of another shape and texts which are not JSON; servers which refuse, fail, close or send unknown messages; values "
         "through the serializers; distinct = distinct histories and values",
    technique="ASan/UBSan runs over a heap which watches itself; exact per-client message lists, a count of the JavaScript values held and of stages which answer twice",
    note=WEB_NOTE + "; full_duplex is a stand-in as in C38")
