"""All properties of TheNumbat/rpp studied here. `python3 props.py` rewrites properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, level_note, technique="bounded exhaustive exploration of the real code against a reference model", observe=None, thorough=True, claimed=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  level_note=level_note, technique=technique, observe=observe, thorough=thorough, claimed=claimed, reason=reason))

prop("C01", "Vec, Stack, Array and Slice behave as sequences",
     "After any sequence of operations, a growable array, stack, fixed array or slice holds exactly the values a plain list would hold, in order, through indexing, iteration, front/back/top and sub-slices, and its capacity is never below its length or below what was reserved. Operations that fit the capacity do not relocate elements, a clone is independent of its source, a moved-from container is empty and usable. Every element is destroyed exactly once and never bitwise-copied behind its back.",
     ["histories", "inputs"], "all operation sequences, start lengths, capacities and element kinds (trivial, copyable, move-only)",
     "The arrays test runs one fixed sequence per container; growth, shrink, clone and move at each boundary in each order is never visited.",
     ["rpp/vec.h", "rpp/stack.h", "rpp/array.h", "rpp/slice.h"],
     [("growth and relocation", "rpp/vec.h reserve/grow/resize/push"), ("stack over vec", "rpp/stack.h"), ("sub-ranges", "rpp/slice.h sub")],
     "Exhaustive within the stated depth over the real containers with instrumented elements and allocator under AddressSanitizer; says nothing beyond the depth or about elements with other semantics.")
prop("C02", "Queue is a FIFO whatever its internal rotation",
     "After any sequence of pushes, pops, reservations, growth, clones, moves, clears and removal of the first equal element, a queue holds exactly the values a plain FIFO list would hold, in order, through front, back, penultimate, indexing and iteration. This holds for every position of the contents within the ring, including when they wrap around its end. Every element is destroyed exactly once.",
     ["histories", "inputs"], "all operation sequences from every capacity, rotation and fill of the ring",
     "The tests push a few values into an unwrapped queue; growth, cloning or removal while wrapped depends on rotation and fill, which they do not vary.",
     ["rpp/queue.h"],
     [("ring arithmetic", "rpp/queue.h start_idx/end_idx/idx_at"), ("relocation while wrapped", "rpp/queue.h reserve"), ("removal", "rpp/queue.h erase_first")],
     "Exhaustive within the stated depth from every ring position of capacity up to 5, under AddressSanitizer.")
prop("C03", "Map is a finite map for every hash pattern",
     "After any sequence of insertions, overwrites, emplacements, erasures, lookups, reservations, growth, clones, moves and clears, a map associates exactly the keys of a plain association list with their latest values: lookups (by key or by string view), length and iteration agree with it, and a returned reference designates the entry just inserted. This holds for every hash distribution including full collisions and clusters that wrap around the table, every requested capacity, and every load. Keys and values are destroyed exactly once.",
     ["histories", "inputs"], "all operation sequences, hash assignments and capacities within the bound",
     "The map test inserts a handful of well-distributed keys; collisions, wrap-around displacement, backward-shift erasure and odd capacities are not reached.",
     ["rpp/map.h", "rpp/hash.h"],
     [("Robin Hood insertion", "rpp/map.h insert_slot"), ("backward-shift erase", "rpp/map.h try_erase/fix_up"), ("rehash", "rpp/map.h reserve")],
     "Exhaustive within the stated depth with the hash of every key chosen by the explorer; elements instrumented, AddressSanitizer on.")
prop("C04", "Heap always yields the least element",
     "After any sequence of operations the top of a heap is an element not greater than any other present, popping removes exactly that element, and the heap contains exactly the multiset inserted minus what was popped. Draining a heap yields its elements in non-decreasing order, for every insertion order, with duplicates, and after clones, moves and reservations. Every element is destroyed exactly once.",
     ["histories", "inputs"], "all operation sequences and insertion orders over four priorities within the bound",
     "The test pops a handful of values in one order; sift-up and sift-down errors depend on the shape and the ties.",
     ["rpp/heap.h"], [("sift up/down", "rpp/heap.h reheap_up/reheap_down")],
     "Exhaustive within the stated depth and over all insertion sequences of 8 (thorough 9) elements from 4 priorities.")

NOT_CLAIMED = []
exec(open(os.path.join(V, "props2.py")).read()) if os.path.exists(os.path.join(V, "props2.py")) else None

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
            if p["observe"]: d["anchors"]["observe_at"] = p["observe"]
            f.write(json.dumps(d) + "\n")
    m = dict(version=1, setup_cmd="python3 setup.py", checks=[], not_applicable=[])
    for p in P:
        if p["claimed"]:
            c = dict(property=p["id"], quick_cmd="python3 check.py " + p["id"], technique=p["technique"],
                     level="model_checking", level_note=p["level_note"])
            if p["thorough"]: c["thorough_cmd"] = "VERIF_TIER=thorough python3 check.py " + p["id"]
            m["checks"].append(c)
        else:
            m["not_applicable"].append(dict(property=p["id"], reason=p["reason"]))
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    import subprocess
if __name__ == "__main__": main()
