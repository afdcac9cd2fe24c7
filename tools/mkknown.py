"""Writes known_findings.json (committed; never written by a check)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("C01", "820bc13", "residence times and transition counts are attributed to the wrong parent combination when parents have different cardinalities or edges are not in variable order (index strides)"),
 ("C02", "820bc13", "same strides: transition counts attributed to the wrong parent combination"),
 ("C04", "a605e6e", "the table of parent combinations misses and repeats combinations for parents with different cardinalities"),
 ("C18", "059abf5", "waiting times were drawn with scale q instead of 1/q"),
 ("C18", "967e1f4", "sampled rows truncated the time to an integer and aliased the previous row"),
 ("C12", "5588306", "tabu search crashed: random.sample of a set (Python 3.11+)"),
 ("C12", "d11c288", "hill climbing and tabu search removed known parents, crashed or looped when no candidate or no removable parent was left"),
 ("C15", "c90e1f5", "isolated variables were missing from the estimated graph"),
 ("C15", "1e4eb53", "spurious edges were computed from the wrong difference and the prior edges were lost after estimation"),
 ("C09", "ff77e4d", "one transition never observed made the chi-square statistic NaN and switched the test off"),
 ("C10", "5c604c7", "the conditional test crashed when only the larger parent set was cached"),
 ("C05", "fa669eb", "a variable whose name ends like the suffix of the next-state columns broke the import"),
 ("C05", "046a528", "the JSON importer assumed the time column is called Time and comes first"),
 ("C05", "1cbff19", "every row carrying the last index label was dropped from a trajectory with repeated index labels"),
 ("C19", "1eda4ea", "trajectories sampled in parallel were copies of each other (same inherited random state)"),
 ("C20", "66966bd", "exported intensity matrices were read back for other parents, lost the order of parents, multi-digit states and networks without edges"),
 ("C16", "bc74a32", "a whole number of edges was rejected because of rounding, or of the integer type of the density"),
 ("C06", "5dbe3cb", "prior edges were pandas records that could not be removed or compared"),
 ("C07", "5dbe3cb", "the same: removing an edge that came from the prior structure failed"),
 ("C06", "cb0edce", "variables were indexed by the index labels of their frame instead of their data column"),
 ("C06", "8cb79cd", "an importer that has not imported anything passed the check for missing samples"),
]
json.dump([dict(property=p, status="fixed", commit=c, what=w, text="fixed: property=%s %s %s" % (p, c, w)) for p, c, w in FIXED],
          open(os.path.join(H, "known_findings.json"), "w"), indent=1)
