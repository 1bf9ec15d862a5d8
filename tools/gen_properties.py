import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)
PEN="noqx/puzzle/penpa.py"; MAN="noqx/manager.py"
p("C01","Editor indices and board coordinates correspond one to one",
 "On every board (any size, any margins, any of the element categories) turning an editor index into a row, column and direction and back gives the same index and category, and turning a position into an index and back gives the same position. Two different positions or categories never share an index.",
 ["inputs"],"all board sizes and margins, all indices and categories 0..3, all coordinates",
 "the tests only use the handful of board sizes and margins of the stored examples, and never compare the two directions of the conversion",
 [PEN],[("index_to_coord / coord_to_index",PEN),("category_to_direction",PEN),("_init_size",PEN)],
 [("row, col, margin","board geometry derived from the header",PEN)])
p("C02","Reading a board yields exactly the elements that were drawn",
 "Decoding a board returns every drawn shade, text or number, symbol, edge and line at the cell, direction and inner position where it was drawn and with its value, and returns nothing that was not drawn. Drawings of the question and of the answer layer are both read, helper decorations that carry no meaning are ignored, and board kinds that are not supported are rejected.",
 ["inputs"],"every editor content: any board size, margins, any set of drawn elements of any style",
 "the tests decode a fixed set of example boards and look only at the final solution count, so a style, colour, direction or margin no example uses is never seen",
 [PEN],[("decode / _init_size / _unpack_*",PEN),("style_convert, int_or_str",PEN)],
 [("surface, text, symbol, edge, line","the decoded elements",PEN)])
p("C03","Writing a solution changes only the answer and writes all of it",
 "Encoding a solution writes every solution element that is not already a given into the answer drawing at the position it has, with the code that the editor shows as that element, and writes nothing else there. The question drawing, the header and every other part of the board content come out exactly as they came in.",
 ["inputs"],"every decoded board and every solution over it",
 "the tests only count solutions; no test reads an encoded solution back",
 [PEN],[("encode / _pack_*",PEN)],[("parts","the separate parts of the board content",PEN)])
p("C04","A given is never overwritten or drawn twice by the solution",
 "If an element (shade, text, symbol, edge or line) was already on the board at a position, the encoded solution adds no second element of that kind at that position; elements at free positions are all added. Two puzzle types draw their answer over givens on purpose: the bridges of a hashi answer are drawn whole, and the answer circles of nondango are drawn inside the given circles.",
 ["inputs"],"every board and every solution that agrees or disagrees with the givens",
 "no test inspects encoded solutions",
 [PEN],[("avoid-overwriting guards in _pack_*",PEN)])
p("C05","Reading a written solution gives the solution back",
 "Encoding a solution and decoding the result gives the givens plus exactly the solution elements, with the same positions and values, for every kind of element a solver can produce.",
 ["inputs"],"every board and every solution built from producible elements",
 "no test performs the round trip",
 [PEN],[("encode / decode",PEN)])
p("C06","Every atom of an answer becomes exactly the element it denotes",
 "Each atom of an answer set is turned into one drawn element at the row and column it names: edges at the named side, lines in the named direction, numbers and contents as text, triangles, shades and symbols by their name. Nothing is dropped, merged or added, and the answer does not carry over drawings of the question.",
 ["inputs"],"every answer (any set of shown atoms, any coordinates) of every puzzle type",
 "tests only check that one solution comes out, not what is in it",
 [MAN],[("store_solution",MAN)])
p("C07","Everything a solver shows can be drawn",
 "For every puzzle type and every board, each atom the solver displays is one the answer conversion understands and the editor encoding has a code for, and at least one atom kind is displayed. No displayed atom makes the conversion or the encoding fail.",
 ["inputs","configurations"],"all puzzle types, all boards, all displayed atoms",
 "tests run one or two boards per type and stop at the number of solutions",
 [MAN,PEN,"solver/*.py","noqx/rule/common.py"],[("display","noqx/rule/common.py"),("store_solution",MAN),("_pack_*",PEN)])
p("C08","A request is solved independently of all earlier requests",
 "The program generated for a board depends only on that board and its parameters: solving the same board again, or after any sequence of other boards (including rejected ones), generates the same program up to the order of its statements, the numbering of rooms, and which of several clues in a room represents it. Generating a program leaves no trace in the process that a later request can observe.",
 ["histories"],"all sequences of requests over all puzzle types, including requests that fail half way",
 "tests solve each example once in a fixed order and compare only solution counts",
 [MAN,"solver/*.py"],[("reset / add_program_line",MAN),("solve of every solver","solver/*.py")],
 [("program","text accumulated by the shared solver object",MAN)])
p("C09","Rooms partition the board along the drawn edges",
 "For every set of edges the rooms computed for a board are non-empty, pairwise disjoint, cover every cell, and two cells are in one room exactly if a path of orthogonal steps that crosses no drawn edge joins them. A room that contains clue cells is associated with one of its own clue cells and a room without clues with none.",
 ["inputs"],"all board sizes, edge sets and clue sets, all random start choices",
 "tests only see the rooms of the example boards, through the final solution count",
 ["noqx/rule/helper.py"],[("full_bfs","noqx/rule/helper.py")])
p("C10","Shape libraries contain every orientation exactly once",
 "The variants of a polyomino are exactly its distinct images under the allowed rotations and reflections, each once (allowing reflections without rotations adds the one mirror image), and the named tetromino and pentomino tables hold exactly the free polyominoes of that size under their usual names. The result does not depend on the orientation or position in which the polyomino is given.",
 ["inputs"],"all finite cell sets, with and without rotation and reflection",
 "tests never look at the variants",
 ["noqx/rule/shape.py"],[("get_variants / canonicalize_shape / OMINOES","noqx/rule/shape.py")])
p("C11","Counting and number rules mean what they say",
 "The shared rules for counting cells (in the grid, a row, a column, a room, next to a cell, next to edges), for filling numbers from a range and for distinct or non-touching numbers allow exactly the assignments that satisfy the stated comparison, for every comparison, colour, target and cell.",
 ["inputs"],"all targets, comparisons, colours, ranges, cells, board sizes and assignments",
 "tests exercise only the combinations the examples use, each on one board",
 ["noqx/rule/common.py","noqx/rule/neighbor.py","noqx/rule/variety.py"],[("count, fill_num, unique_num, num_count …","noqx/rule/common.py"),("count_adjacent …","noqx/rule/neighbor.py")])
p("C12","Adjacency and connectivity rules mean what they say",
 "The shared adjacency and reachability rules relate exactly the cells that the requested notion of neighbourhood relates, and accept exactly the assignments in which the requested cells are connected, border-connected, connected inside their room, reach their source, or see the requested number of cells, for every colour and neighbourhood kind.",
 ["inputs"],"all adjacency kinds, colours, sources, targets, board sizes and assignments",
 "tests exercise only the boards of the examples",
 ["noqx/rule/neighbor.py","noqx/rule/reachable.py"],[("adjacent, grid_color_connected, count_reachable_src …","noqx/rule/reachable.py")])
p("C13","Loop and path rules mean what they say",
 "The shared loop rules accept exactly the drawings in which the cells on the path have two matching line ends (one at path ends where allowed), lines of neighbouring cells fit together, and turning, crossing, separating and inside/outside rules hold as requested, for directed and undirected paths.",
 ["inputs"],"all board sizes, path colours, options and line drawings",
 "tests exercise only the boards of the examples",
 ["noqx/rule/loop.py","noqx/rule/common.py"],[("single_loop, directed_loop, loop_turning …","noqx/rule/loop.py")])
p("C14","Rectangle and shape rules mean what they say",
 "The shared rectangle and polyomino rules accept exactly the assignments in which the cells of the colour form rectangles (squares where asked), avoid the forbidden rectangles, or are tiled by placements of the given shapes with the requested counts, for every colour, size and adjacency.",
 ["inputs"],"all board sizes, colours, shapes and assignments",
 "tests exercise only the boards of the examples",
 ["noqx/rule/shape.py"],[("all_rect, no_rect, avoid_rect, general_shape, all_shapes, count_shape …","noqx/rule/shape.py")])
p("C15","Marks drawn by the user are respected in every puzzle type",
 "For every puzzle type, a mark that fixes part of the answer (shaded or cleared cell, drawn or crossed-out edge or line, given symbol or number) restricts the solutions to those that agree with it and excludes no solution that agrees with it. Marks that the puzzle type has no use for are ignored.",
 ["inputs","configurations"],"all puzzle types, all boards, all sets of marks the type supports",
 "almost no example board carries marks",
 ["solver/*.py"],[("loops over surface, symbol, edge and line in every solve","solver/*.py")])
p("C16","Ill-formed clues are rejected and well-formed clues are accepted",
 "For every puzzle type, a board whose clue has the wrong kind, value, direction or position, or that lacks a required number, room clue or parameter, is rejected with a value error before solving, never with any other exception and never by an invalid program, and no well-formed board is rejected.",
 ["inputs","configurations"],"all puzzle types, all boards with arbitrary clue values, directions and positions",
 "tests feed a few malformed arguments to the shared helpers and a few bad boards",
 ["solver/*.py","noqx/rule/helper.py"],[("validate_direction, validate_type, fail_false","noqx/rule/helper.py")])
sem="the solver generates a program whose answer sets are exactly the solutions of that puzzle's published rules for the board"
def fam(id,title,what,n,lst):
    p(id,title,
     f"For every {what} puzzle type and every accepted board, the generated program admits exactly the fillings that satisfy that puzzle's rules and the board's clues, no more and no fewer. Each clue contributes its own constraint at its own place with its own value, wherever it stands on the board.",
     ["inputs","configurations"],f"all {n} {what} puzzle types ({lst}), all board sizes, all clue placements and values, all parameters",
     "each type is tested on one or two boards that have a unique solution; a rule that only matters at a border, for a special clue value, or for two clues together is not reached",
     ["solver/*.py","noqx/rule/*.py"],[("solve of every solver of this family","solver/*.py")],observe=["generated program text"])
import subprocess,re,glob,os
cats={}
for f in sorted(glob.glob('/repo/solver/*.py')):
    m=re.search(r'category = "(\w+)"',open(f).read())
    if m: cats.setdefault(m.group(1),[]).append(os.path.basename(f)[:-3])
fam("C17","Shading puzzle types follow their rules","shading",len(cats["shade"]),", ".join(cats["shade"]))
fam("C18","Loop and path puzzle types follow their rules","loop or path",len(cats["loop"]),", ".join(cats["loop"]))
fam("C19","Number placement puzzle types follow their rules","number placement",len(cats["num"]),", ".join(cats["num"]))
fam("C20","Region division puzzle types follow their rules","region division",len(cats["region"]),", ".join(cats["region"]))
fam("C21","Object placement and other puzzle types follow their rules","object placement and other",len(cats["var"]),", ".join(cats["var"]))
p("C22","A solve request ends in one well-defined outcome",
 "A request returns one encoded board per answer found, in the order found and at most the configured maximum, or reports a value error as a client error, exceeding the time limit as a timeout, and any other failure as an internal error. A request that ran out of time is never reported as solved, and a board without solutions returns an empty list.",
 ["inputs","histories"],"all requests, all numbers of answers, all elapsed times, all failure points",
 "tests cover a few requests with fixed timing",
 ["noqx/clingo.py","main.py"],[("run_solver, ClingoSolver","noqx/clingo.py"),("solver_api","main.py")])
p("C23","Every puzzle type is registered once with its own metadata",
 "Loading the solver directory registers exactly one solver per solver file under the file's name, a request is answered by the solver registered under the requested name and by no other, and the metadata listing gives for each type its own name, category, aliases, examples and parameters.",
 ["configurations","histories"],"all sets of solver files in a directory and all orders in which they are loaded",
 "tests load the fixed directory once and never compare the listing with the solvers",
 [MAN],[("load_solvers, list_solver_metadata, generate_program",MAN)],[("modules","registry of loaded solvers",MAN)])
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(x) for x in P)+'\n')
