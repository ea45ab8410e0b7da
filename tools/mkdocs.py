#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below and plan.py."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import plan

B = "barbarosa/src/"
N = B + "cube_n/"
P = []


def prop(id, title, statement, over, text, why, files, mech, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if hook:
        a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


prop("C01", "A face move of a 2x2 or 3x3 is the physical turn of that face",
     "Doing a face move on a 2x2 or 3x3 carries exactly the pieces on that face by the stated quarter turns about the face's outward normal (clockwise when looked at from outside), stickers and all, and leaves every other piece alone. A sequence of moves (an alg or a slice of moves) is its moves one after another, first to last.",
     ["inputs"], "every placement and orientation of every piece, every one of the 18 moves, every sequence of three moves",
     "The tests check a few named algs (orders of sexy moves, T perms) from the solved state; a wrong turn of one piece in one slot on one face, in a state they never reach, passes.",
     [N + "cube3/mod.rs", N + "cube2/mod.rs", N + "pieces/corner.rs", N + "pieces/edge.rs", N + "moves/mod.rs", B + "generic/moves.rs"],
     [("Movable<AxisMove> for Corner / Edge", N + "pieces/corner.rs, edge.rs"), ("Movable for Alg and slices", B + "generic/alg.rs, generic/moves.rs")])
prop("C02", "A wide move of depth d turns exactly the d+1 outermost layers of big cubes",
     "On a 4x4 to 7x7, a wide move of depth d turns exactly the d+1 layers nearest to its face by the stated amount, every piece type included, and nothing else. A plain face move turns exactly the outermost layer.",
     ["inputs"], "every placement of every piece of the 4x4 to 7x7, every face, amount and every depth the cube allows",
     "The tests scramble from solved with fixed algs and compare orders; they cannot see a piece type that follows at the wrong depth for one face or one position.",
     [N + f"cube{n}/mod.rs" for n in (4, 5, 6, 7)] + [N + "moves/wide.rs", N + "pieces/wing.rs", N + "pieces/center/corner.rs", N + "pieces/center/edge.rs", N + "pieces/center/wing.rs"],
     [("DepthPiece / is_in_wide_move", N + "moves/wide.rs"), ("apply of the big cubes", N + "cube4..7/mod.rs")], "read access to the piece sets of the big cubes")
prop("C03", "Undoing a move or an alg restores every state exactly",
     "Doing any move (face, quarter, wide, slice, rotation, on a plain or an oriented cube) and then its inverse, or any alg and then its reverse, restores the exact state it started from. The inverse of the inverse is the move itself.",
     ["inputs", "histories"], "every state, every move of every kind and size, algs of up to three moves",
     "The tests undo some fixed algs on solved cubes.",
     [B + "generic/alg.rs", N + "moves/mod.rs", N + "moves/amount.rs", N + "moves/extended.rs", N + "moves/wide.rs", N + "moves/rotation.rs", N + "moves/quarter.rs"],
     [("Move::inverse", N + "moves/*.rs"), ("Alg::reversed", B + "generic/alg.rs")], "read access to the piece sets of the big cubes")
prop("C04", "A cube counts as solved exactly when every sticker shows its face's color",
     "A cube of any size reports that it is solved if and only if every sticker of every piece is on the face it is on when the cube is solved. Centers of one color are interchangeable; everything else is not.",
     ["inputs"], "every placement and orientation of every piece of the 2x2 to 7x7",
     "The tests ask the question for solved cubes and for a handful of scrambled ones; a piece that is ignored or a sticker that is confused with another is only visible in states they do not reach.",
     [B + "generic/piece/mod.rs", B + "generic/piece/set.rs", B + "generic/mod.rs"] + [N + f"cube{n}/mod.rs" for n in range(2, 8)] + [N + "pieces/center/corner.rs", N + "pieces/center/edge.rs", N + "pieces/center/wing.rs"],
     [("Cube::is_solved, PieceSet::is_solved, Piece::is_solved", B + "generic, pieces")], "read access to the piece sets of the big cubes, and to a center corner")
prop("C05", "Rotating a cube moves its frame rigidly and reports it truthfully",
     "Turning a whole cube by a rotation carries its right and up faces exactly as the rotation says and changes nothing on the cube itself. An orientation is accepted exactly for two perpendicular faces, is told back as given, and the rotations it lists (at most two) lead from the default orientation to it.",
     ["inputs"], "all 24 orientations, all 36 pairs of faces, all 9 rotations",
     "The tests try a few rotations from the default orientation.",
     [N + "orientable/orientation.rs", N + "orientable/mod.rs"],
     [("Orientation::rotations, Rotatable for Orientation, TryFrom<[Face; 2]>", N + "orientable/orientation.rs")])
prop("C06", "On an oriented cube every move acts as the notation says for how it is held",
     "A cube that is held in any orientation reacts to every face move, wide move of any depth, slice move and rotation exactly as the physical cube held that way does: what is seen from outside turns as the notation says. A wide move over the whole width is a rotation.",
     ["inputs", "histories"], "all 24 orientations, every placement of pieces of the 2x2 to 7x7, every extended move with every depth",
     "The tests compare a few fixed algs with rotations in them, from solved; most pairs of orientation and move are never tried.",
     [N + "orientable/mod.rs", N + "orientable/orientation.rs", N + "moves/extended.rs"],
     [("Movable<ExtendedAxisMove> for Orientable", N + "orientable/mod.rs")], "read access to the piece sets of the big cubes")
prop("C07", "Normalizing keeps the effect, never lengthens, leaves nothing redundant",
     "The normalized form of an alg does the same to every piece as the alg, has at most as many moves, and has no two moves of one face with only moves of that axis between them. An alg without such a pair keeps its length.",
     ["inputs"], "every alg of up to 4 moves (5 in the thorough tier), and algs of 5 or 6 moves in which runs of moves cancel inside others",
     "The tests normalize some fixed algs and check one result each; the cascade after a cancellation depends on what lies around it.",
     [N + "moves/non_redundant.rs"], [("Alg::normalized, absorve", N + "moves/non_redundant.rs")])
prop("C08", "Absorbing a move means doing it, and the move enumerations are exact",
     "Combining a move into a non-redundant one gives something that does the same as both in turn and reports truthfully whether it was absorbed, added, cancelled or refused. The enumerations of moves (all, of an axis, after an axis, and the successors of a cube) hold every move exactly once.",
     ["inputs"], "every non-redundant move or none, every face move, every axis, every state of the 3x3",
     "The tests count the enumerations and follow one chain of absorptions.",
     [N + "moves/non_redundant.rs", N + "moves/mod.rs", N + "cube3/mod.rs"],
     [("absorve, NonRedundantAxisMove::{of_axis, given_last_axis, all}", N + "moves/non_redundant.rs"), ("AxisMove::all, Cube3::successors", N + "moves/mod.rs, cube3/mod.rs")])
prop("C09", "Random algs have the asked length and no redundant moves",
     "Whatever the random source returns, a random alg has exactly the asked number of moves and no two moves of one face with only moves of that axis between them. A random alg that need not be normalized has the asked length too, and a random wide move an allowed depth.",
     ["inputs"], "every outcome of the random source, lengths up to the stated bound",
     "The tests draw some algs from one generator and look at their length.",
     [N + "moves/non_redundant.rs"], [("Alg::random_with_rng", N + "moves/non_redundant.rs")])
prop("C10", "A random cube is always solvable",
     "Whatever the random source returns, a random 3x3 has every piece once, corner twists that add up to a multiple of three, an even number of flipped edges, and equal parity of corner and edge permutations; a random 2x2 has every corner once and twists that add up.",
     ["inputs"], "every outcome of the random source",
     "The tests draw some cubes from one generator.",
     [N + "invariants.rs", N + "cube3/mod.rs", N + "cube2/mod.rs"],
     [("fix_swap_parity, fix_edge_flip_parity, fix_corner_multiplicity, swap_cycles", N + "invariants.rs")])
prop("C11", "Moves never leave the set of solvable states",
     "Every face move keeps every piece once, keeps the sum of corner twists modulo three and the parity of flipped edges, and changes the permutation parities of corners and edges together.",
     ["inputs", "histories"], "every state of the 3x3 (and the corners of the 2x2), every move",
     "Tests move from solved along fixed algs.",
     [N + "pieces/corner.rs", N + "pieces/edge.rs", N + "invariants.rs"],
     [("Movable for Corner/Edge, Corner::orientation_index, Edge::oriented", N + "pieces/*.rs")])
prop("C12", "Indices of corner and edge configurations are a perfect numbering",
     "Every configuration of the eight corners, and of six edges, has a number below the size of its table, different configurations have different numbers, and building a configuration from a number gives the one with that number. A cube rebuilt from its numbers is the same cube.",
     ["inputs"], "every solvable configuration of the corners and of six of the twelve edges, every number in range",
     "The tests try some numbers; the tables have 88 and 42 million entries.",
     [N + "cube3/mus/index/mod.rs", N + "cube3/mus/index/implementations.rs", N + "cube3/mus/deindex/mod.rs", N + "cube3/mus/deindex/implementations.rs"],
     [("Indexable::index, Deindexable::from_index", N + "cube3/mus/*index"), ("Cube3::{indices, from_indices}", N + "cube3/mus/*index/mod.rs")])
prop("C13", "The move-count estimate reads the right entries and takes the largest",
     "Looking up a cube in complete tables reads one entry for its corners and one for each half of its edges, always inside the tables, and answers the largest of the three. The half of the edges that the table was not made for is looked up under a symmetry that keeps distances.",
     ["inputs"], "every state of the 3x3 and every content of the tables",
     "Building the tables takes too long for a test: the tests that would read them are ignored.",
     [N + "cube3/mus/cache/mod.rs", N + "cube3/mus/index/mod.rs", N + "cube3/heuristics/mus.rs"],
     [("Cache::get, Cube3::indices, adjust_second_edges_for_indexing", N + "cube3/mus")], "access to the tables of the cache")
prop("C14", "The generated tables hold exact distances from the solved configuration",
     "Generating a table stores for every configuration the least number of face moves from the solved one to it, and ends once every configuration has its entry.",
     ["inputs"], "every move structure on small sets of configurations",
     "Generation takes too long for a test; it is ignored there.",
     [N + "cube3/mus/cache/generation.rs"], [("build_partial, cache_neighbours_at_depth", N + "cube3/mus/cache/generation.rs")], "access to the private generation code")
prop("C15", "A stored table is used only if it is complete",
     "A table file of any other size than the table's is never accepted as a table, a missing file is reported (or the table is built), and other errors of the file system are passed on.",
     ["inputs", "fault_sequences"], "every length of the stored file and every result of the file operations",
     "No test stores or loads a table.",
     [N + "cube3/mus/cache/disk_storage.rs"], [("load_partial, write_partial, load_or_build_partial", N + "cube3/mus/cache/disk_storage.rs")], "access to the private storage code")
prop("C16", "A solution found by searching really leads to the target",
     "Whatever estimate and move structure a search is given, the moves it returns lead from the start to the state it returns, and that state satisfies the target.",
     ["inputs", "programs"], "every estimate, target and move structure on small state spaces",
     "The tests search with one estimate from a few scrambles.",
     [B + "generic/search/ida.rs", B + "generic/search/mod.rs"], [("IDASearcher::search, search_impl", B + "generic/search/ida.rs")])
prop("C17", "With an estimate that never overestimates, searching finds a shortest solution",
     "With an estimate that never exceeds the true distance, a search finds a solution whenever one exists within its depth limit, and no solution is shorter.",
     ["inputs", "programs"], "every admissible estimate, target and move structure on small state spaces",
     "The tests compare lengths for some scrambles with one estimate.",
     [B + "generic/search/ida.rs"], [("IDASearcher::search_impl", B + "generic/search/ida.rs")])
prop("C18", "The cross functions count and estimate exactly",
     "The cross of a face counts as complete exactly when its four edges are solved, and the four cross pieces named for a face are the four edges of that face. The number of moves for one edge is exact: no alg solves that edge in fewer face moves and some alg needs no more; the estimate for the exact solver never exceeds the number of moves needed.",
     ["inputs"], "every placement of the edges, every face, every move",
     "The tests solve crosses of some scrambles; the estimate of one edge is tested on a few positions.",
     [N + "cube3/cfop/cross.rs", N + "pieces/edge.rs"],
     [("count_cross_pieces, get_cross_pieces, worse_but_admissable_cross_heuristic", N + "cube3/cfop/cross.rs"), ("min_moves_to_solve", N + "pieces/edge.rs")])
prop("C19", "Reconstructing moves from pieces or states gives moves that connect them",
     "A move that is found from where pieces went to, or from two successive states, does carry the one to the other; when some move does, one is found.",
     ["inputs"], "every pair of faces, states of the 3x3 and moves",
     "The tests connect some states along fixed algs.",
     [B + "generic/moves.rs", B + "generic/alg.rs"], [("connect, Alg::try_from_states", B + "generic/moves.rs, generic/alg.rs")])
prop("C20", "Notation is read exactly and what is printed reads back as the same move",
     "Exactly the strings of the notation are accepted, each with the meaning the notation gives it, and no string makes parsing panic. A move that is printed and parsed again is the same move.",
     ["inputs"], "every string up to the stated length, every move of every kind",
     "The tests parse some strings.",
     [N + "parser/mod.rs", B + "grammar/cube_n.pest", B + "generic/parse.rs", N + "moves/mod.rs", N + "moves/wide.rs"],
     [("Parsable::parse, FromPest, CubeNParser", N + "parser/mod.rs"), ("Display of moves", N + "moves")])
prop("C21", "The unfolded view of a 3x3 shows the color every sticker has",
     "In the unfolded view of a 3x3, every sticker shows the color of the face it was on when the cube was solved, at the place where it is now. A color is found by a point near a sticker, and the printed view shows the net: U above F, L, F and R side by side, D and B below F, each sticker in its face's color of the color scheme.",
     ["inputs"], "every state of the 3x3",
     "The tests compare the picture of solved and some scrambled cubes with pictures that were stored.",
     [N + "visualization/unfolded/mod.rs", N + "visualization/mod.rs"], [("Unfolded", N + "visualization/unfolded/mod.rs")])
prop("C22", "Faces, axes, directions, amounts and rotations are right-handed space",
     "Opposites, neighbors, cross products, rotations, amounts and their sums, projections onto a plane and membership in a face all agree with the geometry of right-handed space (right is +x, up is +y, front is +z). Rotating a piece of any kind is rotating its stickers in space.",
     ["inputs"], "all faces, axes, directions, amounts, rotations and vectors of signs, all pieces of all kinds",
     "The tests try some of the combinations of each.",
     [N + "space/face.rs", N + "space/axis.rs", N + "space/direction.rs", N + "space/mod.rs", N + "moves/amount.rs", N + "moves/rotation.rs", N + "moves/mod.rs"],
     [("Face, Axis, Direction, Amount, AxisRotation, Rotatable", N + "space, moves")])
prop("C23", "A set of pieces holds every piece once and finds pieces where they are",
     "An array of pieces is accepted as a set exactly if no piece and no place occurs twice, and is kept as given. Looking up a piece by its original place or by where it is now finds that piece, and swapping two pieces exchanges exactly these two.",
     ["inputs"], "every array of corners and of edges, every pair of places",
     "The tests build a few valid and invalid sets.",
     [B + "generic/piece/set.rs", N + "pieces/corner.rs", N + "pieces/edge.rs"],
     [("PieceSet::{new, validate, swap, piece_originally_at, original_position_of_piece_at}", B + "generic/piece/set.rs")])
prop("C24", "Converting moves and algs between metrics keeps what they do",
     "An alg in the quarter-turn metric, or of non-redundant moves, does the same to every piece as the alg it was made from or is turned into. The quarter-turn metric counts a half turn as two.",
     ["inputs"], "every move of each metric, algs of two moves, every piece",
     "The tests convert some algs.",
     [N + "moves/quarter.rs", N + "moves/non_redundant.rs", B + "generic/alg.rs"],
     [("From between Alg<AxisMove>, Alg<QuarterAxisMove>, NonRedundantAxisMove", N + "moves/quarter.rs, non_redundant.rs")])
prop("C25", "A wide move never turns more layers than its type allows",
     "A wide move cannot be made, converted or changed to have a depth above the limit of its type: the attempt is refused and leaves what was there unchanged. A depth within the limit is accepted and kept, with the face and amount as they were.",
     ["inputs"], "every depth of 32 bits, every face and amount, the limits 0, 1, 2 and the largest",
     "The tests try some depths.",
     [N + "moves/wide.rs", N + "moves/extended.rs", B + "generic/alg.rs"],
     [("WideAxisMove::{new, set_depth, ..}, TryFrom", N + "moves/wide.rs")])
prop("C26", "Coordinates say where pieces are, and Manhattan distances add up",
     "The coordinates of a corner or an edge are the place in space where it is, from -1 to 1 along each axis. The Manhattan distance of two vectors is the sum of the absolute differences, that of a piece is the one between where it is and where it belongs, and that of a 3x3 is a sixteenth of the sum over its pieces, zero exactly if every piece is where it belongs. With a filter, exactly the pieces it takes are counted.",
     ["inputs"], "every state of the 3x3",
     "The tests compare the distance of a few pieces.",
     [N + "cube3/heuristics/manhattan.rs", N + "pieces/corner.rs", N + "pieces/edge.rs", B + "generic/piece/traits.rs"],
     [("manhattan, piece_manhattan, vec_manhattan, manhattan_filtered", N + "cube3/heuristics/manhattan.rs"), ("Coordinates", N + "pieces")])

LEVEL_NOTE = ("Bounded symbolic model checking of the compiled code: within the bounds below, Z3 decides every assertion, panic and "
              "memory access for all values at once. Bounds: ")
TECH = "symbolic execution of the LLVM IR of /repo's code (own engine), every obligation decided by the SMT solver Z3, counterexamples replayed natively"


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
    hooks = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("hook:")][::-1]
    m = {"version": 1, "setup_cmd": "true",
         "hooks": {"guard": "barbarosa_verif",
                   "enable": "RUSTFLAGS='--cfg barbarosa_verif' for the properties whose plan.py entry says hooks=True; the others build /repo as it is",
                   "source_commits": hooks},
         "checks": [], "not_applicable": []}
    for p in P:
        c = plan.PLAN.get(p["id"])
        if c is None:
            m["not_applicable"].append({"property": p["id"], "reason": plan.NOT_APPLICABLE[p["id"]]})
            continue
        m["checks"].append({"property": p["id"], "quick_cmd": f"python3-vt check.py {p['id']} quick",
                            "thorough_cmd": f"python3-vt check.py {p['id']} thorough", "technique": TECH,
                            "level": "other", "level_note": LEVEL_NOTE + c["bounds"]})
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    d = open(os.path.join(HERE, "tools/DESIGN.in.md")).read()
    t = ["| id | how it is decided | bounds | outside |", "|---|---|---|---|"]
    for p in P:
        c = plan.PLAN.get(p["id"])
        t.append(f"| {p['id']} {p['title']} | {c['explanation']} | {c['bounds']} | {c['outside']} |" if c else
                 f"| {p['id']} {p['title']} | not applicable: {plan.NOT_APPLICABLE[p['id']]} | | |")
    d = d.replace("@TABLE@", "\n".join(t))
    t = ["| seed | property | needs | caught by |", "|---|---|---|---|"]
    caught = json.load(open(os.path.join(HERE, "tools/caught.json")))
    for s in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        j = json.load(open(os.path.join(HERE, "seeded", s, "meta.json")))
        t.append(f"| {s} | {j['property']} | {j['needs']} | {caught.get(s, 'not tried')} |")
    d = d.replace("@SEEDS@", "\n".join(t))
    open(os.path.join(HERE, "DESIGN.md"), "w").write(d)



if __name__ == "__main__":
    main()
