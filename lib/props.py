import server

CHECKS, REPLAYS, DESCR = {}, {}, {}
NOT_APPLICABLE = {}

REPLAYS["server"] = server.replay
for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10",
           "C11", "C12", "C13", "C24"):
    CHECKS[_p] = server.check
    DESCR[_p] = (
        "TLA+ specification (Server.tla) model-checked with TLC; TLC-generated "
        "behaviours replayed into the real server under systematically explored "
        "schedules; recorded traces checked by TLC against the specification",
        "The invariants of the property are checked exhaustively on small closed "
        "instances of the specification; the implementation is bound to it by "
        "trace inclusion on bounded scenarios (a few connections and messages, "
        "all placements of one goroutine switch and many of two, random "
        "schedules). Trusts TLC, the Go runtime, the scripted sockets/hooks and "
        "that goroutines switch at the inserted yield points.",
        "model_checking")
BINARIES = [("srv", True)]

import codec
BINARIES.append(("codec", False))
REPLAYS["codec"] = codec.replay
for _p in ("C16", "C17", "C18", "C19"):
    CHECKS[_p] = codec.check
    DESCR[_p] = (
        "TLA+ specification of the wire format (Codec.tla), model-checked with TLC; "
        "TLC-enumerated inputs applied to the real codec; every observed call checked "
        "by TLC against the specification",
        "All shapes (type, length, length flag, encoding, faulty write, chunking) "
        "around every boundary are enumerated, contents are sampled; UTF16: all code "
        "units, all triples of 17 classes. Trusts TLC and the JSON transport of "
        "observations.", "model_checking")

import reqman
BINARIES.append(("reqman", True))
REPLAYS["reqman"] = reqman.replay
CHECKS["C21"] = reqman.check
DESCR["C21"] = (
    "TLA+ specification of the request manager (ReqMan.tla), model-checked with TLC; "
    "generated and directed call sequences of concurrent workers replayed into the "
    "real request manager under explored schedules; recorded histories checked by "
    "TLC for linearizability against the specification",
    "Exhaustive on small instances of the specification; the implementation is bound "
    "to it on bounded histories (up to 5 workers, 14 calls) with all placements of one "
    "goroutine switch and sampled pairs. Trusts TLC, the Go runtime and that "
    "goroutines switch at the inserted yield points.", "model_checking")

import memchan
BINARIES.append(("memchan", True))
REPLAYS["memchan"] = memchan.replay
for _p in ("C22", "C23"):
    CHECKS[_p] = memchan.check
    DESCR[_p] = (
        "TLA+ specification of the in-memory transport (MemChan.tla), model-checked "
        "with TLC; generated and directed call sequences of concurrent workers "
        "replayed into the real transport under explored schedules; recorded "
        "histories checked by TLC against the specification",
        "Exhaustive on small instances of the specification; the implementation is "
        "bound to it on bounded histories (up to 6 workers, 3 connections) with "
        "placements of one goroutine switch and sampled pairs. Trusts TLC, the Go "
        "runtime and that goroutines switch at the inserted yield points.",
        "model_checking")

import store
BINARIES.append(("store", True))
REPLAYS["store"] = store.replay
for _p in ("C14", "C15"):
    CHECKS[_p] = store.check
    DESCR[_p] = (
        "TLA+ specification of the session store (Store.tla), model-checked with TLC; "
        "generated and directed histories of concurrent operations, restarts, crashes "
        "and failing writes, and hostile keys, applied to the real session manager; "
        "recorded histories checked by TLC against the specification",
        "Exhaustive on small instances of the specification; the implementation is "
        "bound to it on bounded histories with placements of one goroutine switch or "
        "crash and sampled pairs. Crashes are simulated by continuing on a copy of the "
        "session directory, the order of unsynced writes isn't. Trusts TLC, the Go "
        "runtime and that goroutines switch at the inserted yield points.",
        "model_checking")

import config
BINARIES.append(("config", False))
REPLAYS["config"] = config.replay
CHECKS["C25"] = config.check
DESCR["C25"] = (
    "TLA+ specification of the server options (Config.tla, on top of the wire format), "
    "model-checked with TLC; TLC-enumerated option sets applied to the real server, "
    "what it announces and enforces checked by TLC against the specification",
    "All combinations of the boundary values of the timeout and the buffer size, all "
    "combinations of the switches, samples of the products; limits are probed around "
    "their values for buffers up to 128 KiB. Trusts TLC and the scripted sockets.",
    "model_checking")

import sessinfo
BINARIES.append(("sessinfo", True))
REPLAYS["sessinfo"] = sessinfo.replay
CHECKS["C20"] = sessinfo.check
DESCR["C20"] = (
    "TLA+ specification of sessions and infos as values (Info.tla), checked with TLC "
    "against a model with a heap (InfoMC.tla); TLC-generated and directed sequences of "
    "copies and modifications applied to the real library, all values read back after "
    "each step and checked by TLC against the specification",
    "Exhaustive on small values; the implementation is bound to it on random values up "
    "to a depth of 6 of 30 types of maps, slices and scalars. Arrays, pointers and "
    "structs within infos aren't covered. Trusts TLC and the Go runtime.",
    "model_checking")

import race
REPLAYS["race"] = race.replay
