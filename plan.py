"""What is decided for each property, how, and within which bounds."""
LEVEL = "other"
ASSUMPTIONS = [
    "rustc's LLVM IR (optimised, with overflow checks and debug assertions) means what the source means",
    "the symbolic executor in /verif/engine models that IR faithfully (every counterexample is replayed natively before it is reported)",
    "allocation never fails",
]
PLAN = {}
# properties that are not claimed, with the reason
NOT_APPLICABLE = {}


def add(id, explanation, bounds, outside="", **kw):
    PLAN[id] = dict(explanation=explanation, bounds=bounds, outside=outside, **kw)


def sizes(fmt):
    h = {fmt % n: dict(split=[4], cost=n, deep=n > 4) for n in range(2, 8)}
    h.update({(fmt % n) + "_all": dict(split=[4], cost=10 + n, tier="thorough", budget=3000) for n in range(4, 8)})
    return h


add("C01",
    "A 3x3 (2x2) with an arbitrary piece in every slot does an arbitrary face move; every piece is compared with the sticker-level geometric turn.",
    "one move from any arrangement of pieces (every slot holds any piece in any place and orientation); sequences of three moves for one arbitrary corner and edge",
    "sequences longer than three (each step is the one-move case)")
add("C02",
    "A 4x4 to 7x7 with an arbitrary piece in every slot does an arbitrary wide move of every depth or plain face move; every piece is compared with the turn of the layers.",
    "one move from any arrangement of pieces, depths up to what the cube's own move type allows",
    hooks=True)
C03 = sizes("h_c03_extended%d")
for n in (6, 7):
    C03[f"h_c03_extended{n}"]["tier"] = "thorough"
add("C03",
    "Every move of every kind followed by its inverse, and algs followed by their reverse, are compared with the start for arbitrary pieces.",
    "every single move; algs of up to three moves; oriented cubes of size 2 to 5 (quick: first and last piece of every kind; thorough: sizes 2 to 7 and every piece)",
    "algs longer than three moves", hooks=True, harnesses=C03)
add("C04",
    "For a cube with an arbitrary piece in every slot, what the cube says about being solved is compared with a sticker-level definition.",
    "none beyond the sizes 2 to 7: every slot holds any piece in any place and orientation", hooks=True)
add("C05",
    "Every orientation turned by every rotation is compared with the turned frame; the listed rotations are replayed on the default frame.",
    "none: all orientations, pairs of faces and rotations; the held cube is a 3x3 with arbitrary pieces", opt=1)
add("C06",
    "An oriented cube with arbitrary pieces does an arbitrary extended move; what is seen from outside is compared with the physical turn in the frame it is held in.",
    "one move from any arrangement and orientation, any 32-bit depth; quick: first and last piece of every kind on the 4x4 to 7x7, every piece on the 2x2 and 3x3; thorough: every piece",
    hooks=True, harnesses=sizes("h_c06_cube%d"))
add("C07",
    "The normalized form of an arbitrary alg is compared with the alg on an arbitrary corner and edge, in length, and for redundant pairs.",
    "algs of 0 to 4 moves (thorough: 5); algs of 5 and 6 moves in four patterns of nested runs",
    "longer algs outside those patterns",
    harnesses={
        "h_c07_three": dict(split=[3] * 3, cost=2),
        "h_c07_four": dict(split=[3] * 4, cost=3, budget=5, max_split=8),
        "h_c07_five": dict(split=[3] * 5, cost=5, tier="thorough", budget=5, max_split=10),
        "h_c07_nested_five": dict(deep=True, split=[2] * 3, cost=5, budget=5, max_split=8),
        "h_c07_nested_five2": dict(deep=True, split=[2] * 3, cost=5, budget=5, max_split=8),
        "h_c07_nested_six": dict(deep=True, split=[2] * 4, cost=9, budget=5, max_split=12),
        "h_c07_nested_deep": dict(deep=True, split=[2] * 2, cost=9, budget=5, max_split=12)})
add("C08",
    "An arbitrary non-redundant move (or none) absorbs an arbitrary move, and both are done to an arbitrary corner and edge; the enumerations are searched for an arbitrary move.",
    "none: all non-redundant moves, moves and axes; successors of a 3x3 with an arbitrary piece in every slot")
add("C22",
    "Every function of the geometry vocabulary is compared with integer vector geometry.",
    "none: all faces, axes, directions, amounts, rotations and pieces", opt=1)
add("C23",
    "Arrays of arbitrary pieces are offered as sets; lookups and swaps are made at arbitrary places of arbitrary valid sets.",
    "arrays of 8 arbitrary corners and of 12 arbitrary edges; swaps of every pair")
add("C24",
    "Moves and algs are converted between metrics and both forms are done to an arbitrary corner and edge.",
    "single moves, and algs of two moves in each metric", "longer algs (the conversion goes move by move)")
add("C25",
    "Wide moves are made, changed and converted with an arbitrary depth.",
    "every 32-bit depth, the limits 0, 1, 2 and 4294967295; algs of two moves", opt=0,
    harnesses=dict(h_c25_alg=dict(merge=False)))

add("C11",
    "A face move is done to pieces in their places, twisted and flipped in any way, and to pairs of arbitrary pieces; twists, flips and inversions are compared with before.",
    "one move, from pieces in any orientation; the places pieces start from are the solved ones, which loses nothing because a move acts on each piece alone (C01)",
    "the repairs of swaps are tried on states one move from solved")

add("C16",
    "A search is run on a puzzle with arbitrary moves between a few states, with arbitrary estimates and targets; what it returns is followed from the start.",
    "puzzles of 2 and 3 states (thorough: 4) with two moves each, every table of moves, every set of targets, estimates out of 0, 1/2, 1, 5/4, 2 and infinity, up to four rounds",
    "larger puzzles, other estimates",
    harnesses=dict(h_c16_four=dict(tier="thorough", split=[4] * 3, budget=900)))
add("C17",
    "A search is run on a puzzle with arbitrary moves between a few states and arbitrary estimates that never exceed the distance; the length of the solution is compared with the distance.",
    "puzzles of 2 and 3 states (thorough: 4) with two moves each, every table of moves, every set of targets, every admissible estimate in whole moves or halves",
    "larger puzzles; with broken estimates a round can raise the bound by less than one, so that being found within the limit is only claimed for whole ones",
    harnesses=dict(h_c17_four=dict(tier="thorough", split=[4] * 3, budget=900)))
add("C18",
    "The cross functions are asked about arbitrary edges, faces and moves and compared with the stickers in space and with the moves themselves.",
    "none: arbitrary edges in all twelve slots, all faces, all moves",
    "the search itself (C16, C17)")
add("C19",
    "Two (three) arbitrary states are offered; a move that is reported is done, and where none is reported an arbitrary move is tried.",
    "states made of an arbitrary corner and two arbitrary edges; sequences of up to three states; the solved 2x2 as a complete cube",
    harnesses=dict(h_c19_alg=dict(tier="thorough", split=[3, 2, 3], budget=900)))

add("C12",
    "The number of a configuration is a symbolic mixed-radix number: every digit of the permutation part and every digit of the orientation part is a solver variable, and the configuration unfolded from it by from_index must be proper (places all different, twists adding up to 0) and have that number again. Numbers and proper configurations are equally many (8!*3^7 and 12!/6!*2^6, which the check compares with TOTAL_SET_SIZE), so an injective numbering that is undone by from_index is a bijection. A cube is its three numbers: a cube with symbolic swaps, flips and twists is turned to indices and back.",
    "every number below 8!, with the twists at 0, for the places of corners; every twist number below 3^7 at six permutations; every number below 12!/6! for the places of half of the edges; every flip number below 2^6 at seven arrangements; in the thorough tier every number of both sets (permutation and orientation jointly)",
    "for the whole cube, swaps of one of twelve pairs of corners and edges with four free flips and three free twists",
    harnesses=dict(h_c12_cube=dict(split=[12]), h_c12_corner_twists=dict(split=[6]), h_c12_edge_flips=dict(split=[7]),
                   h_c12_edge_places=dict(split=[12, 11]), h_c12_corner_places=dict(split=[8, 7, 6]),
                   h_c12_edges=dict(split=[12, 11], tier="thorough"), h_c12_corners=dict(split=[8, 7, 6], tier="thorough")))

add("C21",
    "A 3x3 with an arbitrary piece in every slot is unfolded; the stickers of one piece are looked up in the net where they are in space. A net of arbitrary colors is printed, and what a terminal shows is compared with it.",
    "none: every slot holds any piece in any place and orientation (the others are not where the piece looked at is); points up to 0.4 off the middle of a small cube in steps of 0.1; printed: nets of 2 and 3 rows, every sticker any color, one color scheme with numbers of three digits; the default scheme on the solved cube",
    "other color schemes; terminals with colors turned off",
    harnesses=dict(h_c21_corners=dict(split=[8]), h_c21_edges=dict(split=[12])))

add("C26",
    "Coordinates and distances of arbitrary pieces are compared with where they are in space; the distance of a cube with arbitrary pieces in some slots with the sum over these pieces.",
    "coordinates, distances of pieces, distance zero: none (every piece, every slot anything); vectors of whole numbers from -2 to 1 and vectors that differ along one axis by any number; the distance of a 3x3 with any two corners and two edges anywhere in twelve choices of slots, the others at home; filters by home and by piece",
    "vectors whose sums are rounded; sums over more than four pieces that are away (one addition each)",
    harnesses=dict(h_c26_cube=dict(split=[12]), h_c26_filtered=dict(split=[12]), h_c26_along_axis=dict(split=[3])))

add("C10",
    "The random source is the solver: a harness generator hands every draw to it (as many draws as are needed when no number is rejected), and the sampled cube is checked for solvability by inversion counts and sticker geometry. The repair of the permutation parity is also run by itself on cubes with symbolic swaps.",
    "all draws for flips and twists at once; any two (thorough: three) consecutive draws of the shuffles, the others 0; on a 2x2 any three consecutive draws, the others one of two values. Permutation repair: all 8! corner arrangements with one edge swap; edge arrangements four (thorough: six) free swaps from solved with one corner swap",
    "edge arrangements that need more swaps; numbers that the range sampler of rand rejects (it draws again)",
    harnesses=dict(h_c10_swaps=dict(split=[8, 7]), h_c10_edge_swaps=dict(split=[12, 11]), h_c10_sample=dict(split=[17]), h_c10_cube2=dict(split=[5]),
                   h_c10_sample_three=dict(split=[16], tier="thorough"), h_c10_edge_swaps_six=dict(split=[12, 11], tier="thorough")))

add("C09",
    "Random algs of a given length are drawn with a generator whose every choice among the 45 (then 30) moves is a solver variable; length and neighbours are checked. Unnormalized algs and wide moves are drawn with a generator that returns any number.",
    "every sequence of choices, for lengths 0 to 5, 8 and 12 (thorough: 15); unnormalized algs of up to three moves; wide moves of the 4x4, 5x5 and 7x7 types",
    "longer algs (the next move depends on the last one only); numbers that the range sampler of rand rejects (it draws again)",
    harnesses=dict(h_c09_eight=dict(deep=True), h_c09_twelve=dict(deep=True), h_c09_fifteen=dict(tier="thorough")))

add("C20",
    "The parsers (the generated pest parser included) read a symbolic string, path by path, and what they return is compared with a reader of the notation written by hand; the printed forms of symbolic moves and algs are read by both.",
    "faces, amounts, axes: every ASCII string of up to two characters; face moves, wide moves: up to four; rotations: three; moves of an oriented cube: five (thorough: six); algs of face moves: five (thorough: six); a character of two or three bytes in front of or after two ASCII characters; every printed face move, non-redundant move and alg of two moves; wide moves of depth 0 to 9, and of the two largest depths for not panicking",
    "longer strings (the notation has none but algs), the content of error messages",
    defaults=dict(merge=False),
    harnesses=dict(h_c20_alg_5=dict(deep=True, cost=9), h_c20_extended_5=dict(deep=True, cost=9), h_c20_extended_4=dict(cost=5), h_c20_foreign_three=dict(deep=True, cost=5),
                   h_c20_alg_6=dict(tier="thorough", budget=3000), h_c20_extended_6=dict(tier="thorough", budget=3000)))

add("C13",
    "Tables of the full size with arbitrary entries for a symbolic cube and zeros elsewhere are looked up (get, and through the shared cache mus and mus_with_fallback); the answer has to be the largest of the entries at the numbers of the corners, of the first half of the edges and of the second half turned over. The symmetry is decided on an arbitrary edge and an arbitrary move.",
    "every value of the three entries; cubes one of twelve ways away from solved with free flips of four edges and free twists of two corners; that the numbers lie inside the tables for any swap of two corners and two edges with all flips and twists free (unchecked reads elsewhere would fail a memory obligation)",
    "other arrangements (the numbering itself is C12)",
    hooks=True,
    harnesses=dict(h_c13_lookup=dict(split=[12]), h_c13_estimate=dict(split=[12]), h_c13_inside=dict(split=[12])))

add("C14",
    "build_partial is run on a kind of configuration with a few values: any two of the 18 face moves lead anywhere (the table of where they lead is made of solver variables), and everything can be reached. Every entry of the table it returns, and of the file it stores, is compared with the least number of moves computed by relaxation. The library's own clock, time zone, formatting and file code is executed as well, on a model of the C library's calls.",
    "1 to 4 configurations, made of one or two places with one to three orientations, every pair of moves and every table of where they lead (thorough: also 5 configurations, with two certain moves)",
    "larger tables, and moves besides the two (they leave every configuration alone); for the real pieces, that a number unfolds to its configuration and back is C12, what moves do is C01",
    hooks=True, debug_assertions=False, defaults=dict(no_format=True),
    assumptions=["formatted progress messages are empty (alloc::fmt::format is cut off)", "the clock advances one second per look"],
    harnesses=dict(h_c14_four=dict(deep=True, split=[4, 4], cost=5), h_c14_five=dict(split=[5, 5, 5], tier="thorough", budget=900)))

add("C15",
    "Tables are loaded, built and stored through the library's own code and the standard library's file code, executed down to the C library's calls, which are modelled with symbolic faults: files that are missing or of any length, errors of opening, reading part way, making the folder and running out of space part way, and calls that transfer only a part. Results and error kinds are compared with the model's state; nothing touches a real file.",
    "a table of three configurations, files of 0 to 6 arbitrary bytes, five results of every opening and making of folders, reading and writing that stops after any byte, transfers of 1 to 3 bytes; the run after an interrupted one",
    "interrupted system calls (EINTR), errors of closing",
    hooks=True, debug_assertions=False, defaults=dict(no_format=True, merge=False),
    assumptions=["formatted progress messages are empty (alloc::fmt::format is cut off)"],
    harnesses={h: dict(panics_allowed=True, relax_panics=False, may_not_return=True)
               for h in ("h_c15_wrong_length", "h_c15_wrong_length_build", "h_c15_interrupted", "h_c15_store_wrong_length")})

