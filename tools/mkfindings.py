#!/usr/bin/env python3
"""Writes known_findings.txt: repaired defects, with the hashes of /repo's fix commits."""
import subprocess, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = {
 "make model_selection usable": ("C18,C19", "importing kamrecsys.model_selection failed with scikit-learn >= 0.24, fold generators passed wrong KFold arguments, lists were not accepted"),
 "drop the encoding argument": ("C23,C24", "json.load(encoding=...) raises TypeError on Python >= 3.9, so merging and statistics scripts never ran"),
 "predict events with any event_index": ("C02,C07", "predict and to_iid_event failed or used the wrong default missing value when event_index or event_otypes differ from the identity"),
 "predict events whose external ids are strings": ("C07", "predict raised on string ids (numeric check_array)"),
 "generate a 0/1 array": ("C12", "repeated events gave entries above 1 in the implicit feedback matrix, and event_index was applied twice"),
 "keep conversion tables": ("C06", "a fitted recommender shared eid/iid/n_objects with its training container, so that reloading the container changed predictions"),
 "accept lists in statistics_mean": ("C17", "statistics_mean raised on statistics that are lists"),
 "accept a python int as the number of bins": ("C15", "score_histogram did not recognise a Python int as a number of bins"),
 "count score levels robustly": ("C05,C15", "rounding errors in (max-min)/stride lost or added score levels, bins and histogram cells"),
 "discard features of old objects": ("C04", "features of the previous objects survived a reload of events and were attached to other objects"),
 "record the test file and the end time": ("C22", "holdout experiments recorded the training file as the test file and no end time of the test"),
 "keep predictions as an array": ("C22", "an experiment failed when a test set has a single event"),
 "load files that consist of a single line": ("C20", "loaders failed on files of one line or one id column"),
 "reject non-finite values": ("C17", "variance_with_gamma_prior with NaN/overflowing input passed the check for finite values"),
 "display reports of scores whose type": ("C14,C16", "reports failed for scores whose dtype is not float64"),
 "reject unsuitable data before": ("C09,C11", "a refused fit had already overwritten the tables of a fitted recommender; data without scores raised AttributeError"),
 "report status of fitting of MultinomialPLSA": ("C13", "success/status/n_iterations/final_loss of MultinomialPLSA were wrong when maxiter is reached or zero"),
 "reject negative internal ids": ("C02", "to_eid(-1) returned the last object instead of raising ValueError"),
 "keep a caller's dictionary": ("C06", "constructors changed the options dictionary of the caller, and shared it between recommenders"),
 "copy score_domain and event_index": ("C06", "later changes of the caller's score_domain or event_index arrays changed containers and recommenders"),
 "accept group labels given as lists of names": ("C18,C19", "KFoldWithinGroups and ShuffleSplitWithinGroups raised ValueError if groups is a list or tuple of strings"),
 "accept lists in methods of containers": ("C01,C02,C04", "set_event, to_iid_event, to_eid_event and set_feature raised on lists, documented as array_like"),
 "keep booleans of numpy": ("C24", "json_decodable turned numpy booleans into strings"),
 "respect train_size": ("C19", "ShuffleSplitWithinGroups ignored train_size"),
 "fit factorization models to data of a single user": ("C10,C11,C12", "fit raised TypeError if the data has exactly one user or one item"),
 "keep non-ascii letters": ("C20", "names of items with non-ASCII letters were loaded as '???' by the sample loaders"),
 "sparse matrices in the dok format": ("C24", "json_decodable left scipy dok matrices, which are dictionaries, unconverted"),
}
out = ["# Defects of kamrecsys found by the checks.  Entries 'fixed:' were repaired in /repo and suppress nothing.",
       "# An open finding would read:  known: property=<id> match=\"<module:op:clause>\" <what fails>"]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE).stdout.decode()
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    k = [x for x in W if x in s]
    assert len(k) == 1, s
    for p in W[k[0]][0].split(","):
        out.append("fixed: property=%s %s %s" % (p, h, W[k[0]][1]))
open(os.path.join(HERE, "known_findings.txt"), "w").write("\n".join(out) + "\n")
print(len(out) - 2)
