#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = "Trusts gopkg.in/yaml.v3 to read YAML, and the independent reader of RAML in mon/canon.go as the oracle."
T = {
 "C01": ("crash, stack, memory and time monitor around hostile inputs", "No panic, hang or half-success on random, damaged and odd inputs; bounded by the generators and the time of a run."),
 "C02": ("round-trip oracle over generated API documents", "Every generated document is compared with what is written, node by node. " + TRUST),
 "C03": ("round-trip oracle over generated libraries", "Every generated library is compared with what is written, node by node. " + TRUST),
 "C04": ("round-trip oracle over generated type declarations", "All kinds and facets at random nesting. " + TRUST),
 "C05": ("round-trip and form oracle over generated examples", "All example kinds and forms. " + TRUST),
 "C06": ("accessor oracle against an independent reader", "All accessors of every object of a document. " + TRUST),
 "C07": ("classification oracle over generated declarations", "All kinds, names and facet orders. " + TRUST),
 "C08": ("model-based monitor of setter histories", "Every getter is compared with a model after every call, on all interfaces of documents, types, examples and facets."),
 "C09": ("build, write and read back against a value model", "Random values are assembled through the API. " + TRUST),
 "C10": ("model-based monitor of map histories", "All 21 map types against one abstract ordered map, every query after every operation."),
 "C11": ("serialization oracle over map histories", "YAML and JSON of maps in both modes are read independently. " + TRUST),
 "C12": ("order oracle over large generated documents", "Collections of up to hundreds of entries, parsed and assembled. " + TRUST),
 "C13": ("byte comparison of repeated writes, parses and processes", "Repeats within and across processes."),
 "C14": ("snapshots around every accessor, serializer and writer", "Snapshots hold all that can be observed, and writers fail on purpose."),
 "C15": ("fault-injecting readers and writers", "Faults at sampled and, for small documents, all offsets, with several error kinds and ways to split."),
 "C16": ("Go race detector and sequential-equivalence monitor", "Random schedules with injected delays under the race detector."),
 "C17": ("negative oracle over documents with one wrong value", "One modelled node at a time gets a value of a wrong type or range."),
 "C18": ("output format monitor", "Header, number of YAML documents and tags of everything written, read by an independent parser."),
 "C19": ("default oracle over all facets with a default", "All facets with a default, by parsing and through setters."),
 "C20": ("metamorphic comparison of equivalent spellings", "An independent reader confirms that both texts mean the same. " + TRUST),
 "C21": ("isolation monitor with snapshots", "Every change of one object is followed by a snapshot comparison of the others."),
 "C22": ("differential monitor of the regenerated library", "The regenerated library runs the same workloads in another process and its observations are compared."),
 "C23": ("round-trip oracle over free-form content", "Structure, scalar types, tags and order of uninterpreted nodes. " + TRUST),
 "C25": ("fault injection with unwritable values", "27 kinds of values without a YAML form, and texts that are not UTF-8, at random places of random documents; every serializer of every object."),
 "C26": ("differential oracle between serializers and accessors", "Every serializer of every reachable object. " + TRUST),
 "C27": ("differential oracle between nodes read alone and in a document", "Nodes of declarations, examples, documentation and whole documents, sound and damaged. " + TRUST),
 "C24": ("acceptance oracle over specification-style documents", "Hand-written documents, their respellings and nestings, and generated ones. " + TRUST),
}
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "checks": [{
   "property": p, "quick_cmd": "./check.sh " + p, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p,
   "evidence_file": "evidence/%s.json" % p, "technique": "runtime monitoring: " + t, "level": "exploration", "level_note": n,
 } for p, (t, n) in sorted(T.items())],
 "not_applicable": [],
 "notes": "No hooks: the monitors observe the public API of the unmodified library. Every check builds the monitor (mon/) against /repo's working tree in a scratch directory.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
