"""Writes KNOWN_FINDINGS.jsonl: all findings so far were repaired, a fixed entry suppresses nothing"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [
 ("C07", "f086b88", "asking whether a sample conflicts (and joining it) looked at one shared variable only"),
 ("C09", "1730519", "a group of single values was keyed by the letters of the variable name"),
 ("C09", "f2ea28e", "samples were lost when merged groups got the key of an existing group"),
 ("C11", "bb01a08", "the joined network depended on the order in which factors were joined"),
 ("C08", "7fbfe02", "joining more collections than the recursion limit failed"),
 ("C01", "4396ac0", "building a sample with a long chain of relations in one go exceeded the recursion limit"),
 ("C05", "9d79ecd", "outward search exceeded the recursion limit on long chains"),
 ("C07", "a3e1f21", "a refused join left half of the sample in the builder"),
 ("C01", "ef259c4", "building in one go accepted two relations between the same two values"),
 ("C23", "337e247", "best key and sorted keys of a counter raised an error on Python 3"),
 ("C25", "78391d5", "the time limit stayed armed when the timed function raised, and fired later"),
 ("C21", "f033837", "the list of eaten characters was shared between states"),
 ("C21", "af5f0f0", "a deep copy of a finished game state was not finished"),
 ("C19", "5d46cc5", "drawn ids of different values collided and values were missing from the drawing"),
 ("C19", "7a2da12", "relations with equal counts were listed once in the drawn folded view"),
]
import subprocess
last = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
h = [l.split()[0] for l in last.splitlines() if "return to the current folder" in l][0]
F.append(("C22", h, "a layout file of a parent folder that cannot be read left the process in that folder"))
for text, prop, what in [
    ("copy the declaration", "C02", "changing the dictionary or set a declaration was made from changed finished networks"),
    ("draw the beliefs", "C26", "beliefs about ghosts were drawn at the first cell only"),
    ("label of the team", "C26", "showing the team in the information pane raised an error"),
    ("waiting for keys", "C27", "waiting for a key ended at once without a key"),
    ("printing a link", "C03", "printing a link of a folded or activated view between variables of different types failed"),
    ("name one of the linked", "C01", "a directed relation naming one of the two linked variables twice was accepted"),
    ("grouping of samples does not exceed", "C09", "grouping more than a thousand linked sets of pairs exceeded the recursion limit"),
    ("joining on variables does not exceed", "C13", "joining on a variable of more than a thousand groups exceeded the recursion limit"),
    ("joining factors does not exceed", "C11", "joining more than a thousand factors of one variable exceeded the recursion limit"),
    ("activation view of evidence", "C17", "the activation view failed when no outcome is compatible with the evidence"),
    ("refused build from edges", "C01", "a refused building in one go left part of its relations in the builder"),
    ("drawing lists every relation", "C19", "relations that look alike and have equal counts were listed once in the drawn activation view"),
    ("factor of their own", "C15", "single values of a variable that is a set of two variables fell into the factor linking these two"),
    ("priority function inserts it", "C23", "updating an item not in a priority queue with priority function raised an error"),
]:
    F.append((prop, [l.split()[0] for l in last.splitlines() if text in l][0], what))
with open(os.path.join(V, "KNOWN_FINDINGS.jsonl"), "w") as f:
    for k, (p, c, w) in enumerate(F, 1):
        f.write(json.dumps({"id": f"F{k:02}", "property": p, "status": "fixed", "commit": c,
                            "what": w, "line": f"fixed: property={p} {c} {w}"}) + "\n")
