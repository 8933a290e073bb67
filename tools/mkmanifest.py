#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
MC, FE, EX = "model_checking", "fault_enumeration", "exploration"
H = "explicit-state model checking of the real code: "
checks = {
 "C01": (MC, H+"all texts up to a length, all multi-key splits", "All texts over the character classes up to a length and one-character sweeps over every position of multi-key messages, enciphered by one real instance and deciphered by another; states are the coding positions reached. Trusted: the hand decoder is not needed here, only equality."),
 "C02": (MC, H+"all runs of the hand procedure automaton, both directions", "Every ciphertext produced within the bounds is decoded by an independent hand decoder written from the README tables; every ciphertext the hand encoder automaton can write up to a length is given to the real decipherer. Trusted: the hand decoder and encoder in harness/ref."),
 "C03": (MC, H+"complete state space of the trigraph functions", "All letter pairs, all runes and bytes in both argument places, all key positions of short keys and all call sequences up to a depth. Oracle: the printed table, committed as text."),
 "C04": (MC, H+"all operation histories up to a depth", "Explicit-state search over histories of encipher, decipher, delete, save, reload and failing attempts on real stores; the monitor keeps every key ever used."),
 "C05": (MC, H+"all failing attempts over all small stores", "All small key stores x messages x explicit keys; the store is compared field by field before and after each failing attempt, and the attempt is repeated after the cause is removed."),
 "C06": (MC, H+"complete state space of small key stores", "Every store of up to three keys over the attribute classes, every addressee list up to two; oracle is the stated predicate."),
 "C07": (MC, H+"all single damages of all small received messages", "Every letter substitution, deletion, insertion and truncation of small cipher messages plus all short ordinary texts, on stores with each key missing."),
 "C08": (MC, H+"all coding states at every distance from the end of a key", "Every text over the coding classes placed at every distance from the end of a key; oracle is a lower bound on room computed from the tables."),
 "C09": (EX, "exhaustive enumeration of the whole input domain (every rune at every coding state), explicit-state", "All 2^21+ rune values at several coding states and positions; complete, nothing sampled."),
 "C10": (MC, H+"all small stores x all receiving states, saved and reloaded", "All stores over field variants saved and loaded into fresh and used instances."),
 "C13": (FE, "exhaustive enumeration of damages (every truncation, bit flip, removal, insertion, splice) of saved stores on the real loader", "Every single-point damage of several saved stores, loaded into an empty, a used and a foreign instance."),
 "C16": (MC, H+"all exports and imports between all small stores", "All pairs of small stores x selections x options, including wiping and changing either side afterwards."),
 "C11": (FE, "exhaustive enumeration of crash points, torn writes and power losses of real saves under a system call overlay", "Kill before every file operation and after every prefix of a write, and every subset of unsynced effects after a power loss within the bounds; trusted: the page-cache model in harness/checks/powerloss.go and the syscall overlay."),
 "C12": (FE, "exhaustive enumeration of failing system calls (each call x each error, short writes) on real saves, exports and printouts", "Every file operation fails in every way listed; exit code, returned error and what is on disk are judged. Trusted: the syscall overlay."),
 "C14": (FE, "exhaustive enumeration of stores, umasks and observation points (every file operation) on the real programs", "Mode and content of every file is read before each file operation; secrets are looked for in several encodings."),
 "C17": (MC, H+"all subsets of deletions and wipes over small stores, memory and stores searched for traces", "All small stores x all deletions; aliased slices are kept by the harness and examined afterwards."),
 "C18": (FE, "exhaustive enumeration of failures of the random source during wiping", "The random source fails at every byte; every buffer handed to the wiper is examined afterwards."),
 "C15": (MC, H+"complete decision trees of the random draws, every failure point of the source", "The random source is replaced by an enumerated tape: every decision of the generators is explored and weighed, so the exact distribution is computed; every failure point of the source is tried. Trusted: the operating system's source itself."),
 "C24": (MC, "stateless model checking of the real code: all schedules up to a preemption bound under a cooperative scheduler", "crand is rebuilt with a scheduling sync package; all interleavings of two to three threads up to the bound; oracle is the sequential result on the block each draw got. Trusted: atomicity between synchronisation operations and source reads, which the race-free locking itself establishes."),
 "C19": (MC, H+"all radiograms over the grammar up to a length", "Every text the radiogram forms can produce within the bounds is parsed and printed by the real code; oracle is a second parser written from the stated forms. Trusted: that second parser."),
 "C20": (MC, H+"all exchanges of messages between small stations", "Explicit-state exploration of stations exchanging printed traffic by the printed forms alone; the plain text, addressee and sender that arrive are compared with what was sent."),
 "C21": (MC, H+"all small stores printed and read back", "Every small store in every field class is printed as text and PDF and the printout read by an independent reader (own PDF interpreter); oracle is the store."),
 "C22": (MC, H+"all combinations of selection options over a store of all classes", "Every combination of the selection options of the real command line program on a store holding every class of key and message, incl. interactive selection over a pseudo terminal; oracle is a predicate written from the help texts."),
 "C23": (MC, H+"all histories of persistence key changes up to a depth", "Explicit-state exploration of all ways to give and change the persistence key over sessions of the real program, the store opened with every key ever involved; trusted: the key derivation and the cipher library."),
 "C27": (MC, "stateless model checking of the real programs: all interleavings of two sessions at their file operations up to a preemption bound", "Two real program processes under a scheduler that stops each before every operation on a file both use; all schedules with up to two preemptions (three for the core commands). Oracle: the ends reached by running them one after the other. Reads of an opened file that nobody writes to are not preempted (partial order reduction, checked at run time)."),
 "C31": (MC, "explicit-state exploration of the real code: all operation sequences up to a depth, merged at equal abstract states, every transition judged by a relation and every state by invariants", "Real instances and files; the relation of every operation is written from its documentation; sequences are not continued from a state equal to one continued before (identifiers and letters that are random named by their order), so an effect of memory shared between equal states is only seen within the first two steps and along the sequences kept."),
 "C30": (MC, H+"all lists over an alphabet up to a length, all sequences of set operations", "Every list of up to a number of characters over letters, commas and white space; all sequences of operations on keepers and addressees against mathematical sets; all spellings of the own call-sign through the library and the real program."),
 "C29": (MC, H+"all ways to name the store and the secrets, all command lines with one thing wrong", "The real program with nine stores present; store, key, password and salt named by option, environment, both or neither, good and bad, in every spelling; each secret on stores under every other key named; every option of every command with every kind of bad value."),
 "C28": (MC, H+"all combinations of operations in a session and all short sequences of sessions, against an executable specification", "The specification is a transition relation on the contents of the store; every session of the real program, from four stores, is compared with it: contents afterwards, reports, output files, exit status."),
 "C26": (MC, H+"all operation sequences over files with and without permission, all settings around their limits", "Every command that creates a store against every kind of existing target, with every answer on a pseudo terminal; all sequences of operations on an instance over four files with a permission monitor; all pairs (thorough: all combinations) of settings around their limits."),
 "C25": (MC, H+"all histories of command line sessions, each ended at every operation", "State space of the store under sessions of the real program, each complete, killed at every operation, cut short in its output or failing from any operation on; successor states merged by canonical content; the monitor keeps all traffic ever shown."),
}
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
na_reason = {}
m = {"version": 1,
 "setup_cmd": "./run.sh build",
 "hooks": {"guard": "verif", "enable": "no hook is compiled into /repo; file operations are observed through a go build -overlay of the toolchain's syscall package, kept in /verif/harness", "source_commits": []},
 "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks:
        lv, te, no = checks[i]
        m["checks"].append({"property": i, "quick_cmd": "./run.sh %s --tier quick" % i, "thorough_cmd": "./run.sh %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": te, "level": lv, "level_note": no})
    else:
        m["not_applicable"].append({"property": i, "reason": na_reason.get(i, "no check built yet")})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
