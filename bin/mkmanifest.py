#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("TLA+ call machine; TLC validates outcomes of the real code on documents of the grammar machine, damaged bytes, cuts, deep nestings", "Every outcome recorded is a result or an error within the time limit, for statements, files, walks and interpretations; nesting up to 10000 levels."),
 "C02": ("TLA+ grammar machine explored by TLC; its verdicts replayed on the real parser, and random and damaged documents validated against it", "Every configuration of the machine up to nesting 1 (2) with every next token, in both modes; larger documents at random."),
 "C03": ("TLA+ grammar machine explored by TLC; its sentences replayed on the real parser, and random sentences validated against it", "Every configuration of the machine up to nesting 1 (2) with every next token, in both modes; larger documents at random."),
 "C04": ("TLA+ grammar machine builds the tree; TLC validates recorded trees (trace validation)", "Sentences of all configurations and random documents up to 40 kB."),
 "C05": ("TLA+ grammar machine builds the constants; TLC validates recorded trees", "Sentences of all configurations and random constants."),
 "C06": ("TLA+ lexer machine assigns positions; TLC validates recorded positions", "Sentences of all configurations in random layouts, and random documents."),
 "C07": ("TLA+ grammar machine places the comments; TLC validates recorded trees", "Comments in random gaps of sentences of all configurations."),
 "C08": ("TLA+ relation of two recorded runs (with, without the option) and the grammar machine, checked by TLC", "Comments in random gaps of sentences of all configurations."),
 "C09": ("TLA+ relation of two recorded runs whose texts the lexer machine reads as the same tokens, checked by TLC", "Pairs of random layouts of documents of all configurations, valid or not."),
 "C10": ("TLA+ product of the strict and the permissive machine, model checked by TLC; recorded pairs of runs validated", "The product within the bounds of ProtoGen; recorded pairs on documents of all configurations."),
 "C11": ("TLA+ relation of recorded runs under all settings of debug and file name, checked by TLC", "Documents of all configurations and random ones, six settings each."),
 "C12": ("TLA+ reader machine: TLC enumerates deliveries, which are replayed on the real code and validated", "All deliveries of short texts; random ones of texts up to 20 kB."),
 "C13": ("TLA+ reader machine with faults: TLC enumerates deliveries and failure points, replayed on the real code and validated", "All failure points and deliveries of short texts; random ones of texts up to 20 kB; seven kinds of failure."),
 "C14": ("TLA+ machine of parallel parses: TLC enumerates interleavings of reads, replayed with gated readers; runs under the race detector validated", "All interleavings of three parses with three reads each; free-running parses under the race detector."),
 "C15": ("TLA+ walk machine; TLC validates recorded walks for enumerated sets of declined elements", "All sets of declined elements for trees of up to 5 (7) elements, random sets beyond."),
 "C16": ("TLA+ machine of the unordered view; TLC validates recorded views", "Trees of all configurations and random ones."),
 "C17": ("TLA+ machine of the lexer with push-back; histories enumerated by TLC are replayed and validated", "All histories of 3 (4) operations on chosen texts; random longer ones on random texts."),
 "C18": ("TLA+ lexer machine; texts enumerated by TLC are lexed by the real code in all modes and validated", "All texts up to 2-4 (3-6) characters over four alphabets; random longer ones."),
 "C19": ("TLA+ grammar machine knows the first wrong token; TLC validates recorded error positions", "Every wrong token in every configuration, in both modes; random damaged documents."),
 "C20": ("TLA+ grammar machine started in one statement; TLC validates recorded results and what is left unread", "Random statements of 16 kinds, valid or not, with random text behind."),
 "C21": ("TLA+ lexer and grammar machines on every prefix; TLC validates recorded outcomes", "Every byte prefix of some hundred random documents."),
 "C22": ("TLA+ relation of a statement's recorded tree alone and in a context, checked by TLC", "Random and enumerated statements in random contexts."),
 "C23": ("TLA+ machine of comment lines; TLC enumerates comments and validates recorded lines", "All bodies up to 4 (6) characters that matter, in both styles; random ones."),
 "C25": ("TLA+ machine that passes over white space and comments from the reported position; TLC validates what recorded errors say", "Every wrong token in every configuration; random damaged documents, malformed literals, cuts."),
 "C24": ("TLA+ machine of the lexer with composite reads; recorded histories validated by TLC", "Reads at all pairs of pieces and random histories on random texts."),
}
m = {"version": 1,
     "setup_cmd": "python3 bin/setup.py",
     "checks": [{"property": k, "quick_cmd": "python3 bin/check.py %s quick" % k, "thorough_cmd": "python3 bin/check.py %s thorough" % k,
                 "technique": t, "level": "model_checking", "level_note": n} for k, (t, n) in sorted(T.items())],
     "not_applicable": [],
     "notes": "TLA+ with TLC. The specification is in spec/, the driver that runs the real code in driver/, the checks in bin/check.py. No hooks are needed in /repo. Repairs of defects: known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
