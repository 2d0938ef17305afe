CLAIMED={
'G01':('exploration','bounded exhaustive exploration of the real generator (stateless model checking of the input lattice) against an independent OPC oracle',
  'Every deck in the stated lattice is generated by the real code and its package checked completely; nothing is claimed beyond the lattice. Trusts the oracle XML parser and zip reader.'),
'G02':('exploration','bounded exhaustive exploration: every string of the alphabet lattice in every text-carrying place of the real generator, read back by an independent XML parser',
  'All strings up to length 2 (thorough 3) over 20 characters plus 35 fixed strings, in 43 deck places, 13 chart kinds and 22 stand-alone producers, and every pair of places; longer strings and other characters are not claimed.'),
'G04':('exploration','bounded exhaustive exploration of the chart lattice of the real generator against an independent reading of chart markup and relationships',
  'All 21 chart kinds with up to 3 ragged series of up to 3 points, all value triples over 8 values, up to 2 charts on each of 3 slides with other drawings; larger charts only at the listed widths. The content of embedded workbooks is not judged.'),
'G05':('exploration','bounded exhaustive exploration comparing every pair of generation entry points on the same deck',
  'All decks of up to 3 slides with up to 2 features or settings, through 7 entry points; compared after normalising dates and orders.'),
'G03':('exploration','bounded exhaustive exploration of slide specifications on the real generator, decided by an independent reader of the slide markup',
  'Every kind of slide item with every attribute combination up to 2 (thorough: 3) non-default attributes, decks of up to 2 slides with up to 2 (3) of 41 features; longer decks and texts are not explored. One defect (bullets beside a table) is a known finding.'),
'G08':('exploration','bounded exhaustive exploration of picture sequences, encodings and headers on the real generator',
  'All sequences of up to 3 pictures over 16 sources and all short base64 strings of the alphabet; larger pictures are not explored.'),
'T01':('model_checking','explicit exploration of all request histories on the real merge map against a reference model of cell ownership',
  'Grids up to 3x3, histories of up to 3 (thorough: 4) requests; plus the extremes of the index range.'),
'T02':('model_checking','explicit exploration of all section histories on the real manager against a reference model',
  'Histories of 3 (thorough: 4) operations over 3 names and 5 slides.'),
'T03':('model_checking','explicit exploration of all comment histories on the real author list and part against a reference model',
  'Histories of 4 (thorough: 5) operations over 3 authors.'),
'T06':('model_checking','explicit exploration of all histories of relationship and content-type tables, with rereading, against a reference map',
  'Histories of 4 (thorough: 5) operations; all pairs of 19 relationship types.'),
'O01':('model_checking','explicit exploration of all package histories (add, replace, remove, save, reopen) on the real package against a reference map',
  'Histories of 4 (thorough: 5) operations over 3 names and 2 contents, one large part; every one-feature generated deck.'),

'R01':('exploration','bounded exhaustive exploration: every deck of the lattices is generated, written, read and imported by the real code and compared with the values put in',
  'All decks of up to 3 slides with up to 2 (thorough: 3) of 41 features or settings, all texts up to length 2 (3) in 18 places, decks of up to 25 (120) slides for order, all 125 shape kinds, tables up to 3x3. Bullets beside a table are not judged (known finding of G03).'),
'R04':('exploration','bounded exhaustive exploration of assembled slide markup through the real reader against the texts assembled',
  'All paragraphs of up to 3 (thorough: 4) of 15 pieces in 11 containers and 4 namespace styles; all sequences of up to 3 (4) containers. Alternate-content and diagram text is not covered.'),

'R02':('exploration','bounded exhaustive exploration: every re-naming, re-numbering, re-ordering and way of writing of a stored deck, through the real reader, against the slide list',
  'Decks of up to 3 slides (up to 30 for order); the stated sets of part names, ids and ways of writing and all their permutations.'),
'E01':('model_checking','explicit exploration of all edit histories on the real editor against a reference list of slides',
  'Histories of up to 3 (thorough: 4) operations from new decks and decks of up to 3 slides, up to 2 (3) from feature-rich and foreign decks, and one operation at every place of decks of up to 14 (40) slides.'),
'E02':('model_checking','explicit exploration of all edit histories on the real editor; each result compared with a model built from the origins of its slides and checked by an independent package oracle',
  'Histories of up to 2 (thorough: 3) operations from 7 feature-rich, linked, configured and foreign decks, up to 3 (4) from plain ones. Links of a copied slide to itself may lead to the copy or the original.'),
'V01':('fault_enumeration','exhaustive enumeration of structural damages of generated decks through the real validation, and of a deck lattice it has to accept',
  'Every single damage (part, relationship entry, target, content type, slide list entry, 18 kinds of broken markup per part) of the base decks; damages inside valid markup (wrong attribute values) are not enumerated.'),
'V02':('fault_enumeration','exhaustive enumeration of single damages and of pairs (thorough: triples) of a damage alphabet, in six ways of writing, through the real repair, against invariants over the package before and after',
  'Every single damage of the base decks and all pairs of 43 damages (thorough: all triples) of one deck. Damage to shapes inside a slide is not repaired and not enumerated.'),
'O02':('exploration','bounded exhaustive exploration of decks and option combinations through the real compressor; each result compared with the package before and checked by an independent package oracle',
  'All 32 combinations of options on every deck of the stated sets, in six ways of writing.'),
'A01':('model_checking','explicit exploration of all histories of builder operations on the real presentation type against a reference list of slides',
  'Histories of the stated depths over adding slides, adding presentations, importing, saving, reloading and failing operations.'),
'G06':('model_checking','all call histories in new processes, and stateless exploration of the real calls on two threads under a controlled scheduler (turns pass at allocations, file-system calls and locks)',
  'Histories of 3 (thorough: 4) out of 16 calls; for all pairs of calls, every schedule of up to two switches at calls that open, make, rename or remove files, and one switch at evenly spread data calls and allocations. Weak memory orders are not explored.'),
'T05':('model_checking','exhaustive exploration of instants and operation histories of the real code under a controlled clock, against a calendar counted day by day',
  'Every day from 1970 to 2120 at 4 times, every second of one day, every turn of a month up to 9999; decks at one (thorough: 4) times of every day; histories of 3 (4) operations at 5 instants.'),
'G07':('fault_enumeration','every fault at every operation of the destination of the real calls: a faulty writer, and files behind replaced system calls',
  'Refusal, permanent failure, a write that takes nothing and interruption at every operation of 7 calls on small decks; room for every 61st (thorough: every) number of bytes; every open, read, write and seek (quick: up to 256 evenly spread) of 14 calls that save files. Errors first reported by close are not injected.'),
'M01':('model_checking','exhaustive exploration of all documents over a block alphabet through the real converter, each result compared with a reference model that consumes the same blocks one by one',
  'All documents of 4 (thorough: 5) of 24 blocks, inline sequences of up to 4 (5) of 18 pieces in 8 places, lists of up to 8 (10) items at up to 3 levels. Diagrams are M02; raw HTML, footnotes and definition lists are not in the alphabet.'),
'H01':('model_checking','exhaustive exploration of all documents over a block alphabet (well-formed, unclosed, crossed and stray markup) and all option combinations through the real converter, each result compared with a reference model that consumes the same blocks one by one',
  'Documents of 4 (thorough: 5) of 28 blocks, options on documents of 3 (4) of 9 blocks, inline sequences of up to 3 (4) of 22 pieces in 9 places, styles, pictures and nested lists of up to 5 items. Nested lists lose items (known finding; fixed by a golden test of the repository). Pages converted by web2ppt are W01.'),
'M02':('model_checking','exhaustive exploration of all diagrams over a line alphabet per diagram kind through the real converter, each drawing compared with a reference model that consumes the same lines one by one',
  'Flowcharts, class and state diagrams of up to 4 (thorough: 5) lines, entity, sequence, Gantt, journey, timeline, pie and quadrant sources of up to 5 (6), Git graphs of up to 6 (7), mind maps of up to 8 (9); two diagrams on a slide; all pairs of 60 odd lines in 15 kinds; up to 12000 lines. Not judged: sizes and colours, task lengths, actors of journeys, state and class notes, blocks (loop, alt) of sequences, links to subgraphs.'),
'W01':('model_checking','exhaustive exploration of all pages over a block alphabet through the real parser and converter, the blocks and the slides of the package compared with a reference that takes the same blocks one by one',
  'Pages of up to 3 (thorough: 4) of 20 kinds of blocks, in both modes; up to 3 (4) of 8 kinds under every limit with 1 (2) other options; texts of 1 to 230 (400) units of 1 to 4 bytes in 4 places. Not judged: fetching, links, text directly in div elements and paragraphs under 10 bytes (left out by the parser on purpose), and the options author, page numbers and font sizes, which the converter does not use.'),
'H02':('exploration','exhaustive exploration of all token strings up to a bound through the real converters and the generator; growing texts each in a process of its own under a time limit',
  'Strings of up to 3 (thorough: 4) of 44 HTML, 47 Markdown, 30 style and 51 diagram tokens (quick: 3.8 million diagrams), pairs (triples) for web pages; 67 kinds of growth up to 10 000 (30 000, web pages 10 000: the HTML parser itself takes quadratic time in open elements). A text counts as looping when it takes over 30 s.'),
'X01':('exploration','exhaustive exploration of all decks of the stated sets through the real HTML export, each page read by an HTML5 parser and compared with the deck',
  'Texts of up to 2 (3) of 39 tokens in 10 places; lists of up to 4 (5) items; tables of up to 2x2 (3x3); 20 736 pairs of slides (thorough: x every option). Read with html5ever as a browser reads.'),
'X02':('exploration','exhaustive exploration of all decks of the stated sets through the real Markdown export, each result read by a CommonMark/GFM parser and compared with the deck',
  'Texts of up to 3 (4) of 39 tokens in 10 places; lists of up to 4 (5) items; tables of up to 2x2 (3x3); 20 736 pairs of slides (thorough: x every option). Read with pulldown-cmark, the front matter with a small YAML reader.'),
'X03':('exploration','exhaustive exploration of all decks of the stated sets through the real PDF exports, each file read by a strict PDF reader and content interpreter and compared with the deck',
  'Texts of up to 2 (4) of 25 tokens in 5 places; lists of up to 3 (4) items over levels and signs; 0 to 60 lines in all kinds and sizes; all emphasis, colours and layouts; 0 to 120 slides; extreme sizes; the document export only for being well formed.'),
'R03':('fault_enumeration','exhaustive enumeration of all damages of the stated sets (truncations, overwritten bytes, lost, broken and rearranged parts and markup, growing files), each given to every reader, validator, repairer, importer, editor and compressor of the real code under panic capture and time limits',
  'Every truncation of a 15 KB file; structural bytes x 4 (10) values; content bytes x 2 (9) values; every kind of part broken in 8 (18) ways and all pairs missing or empty; 665 kinds of places in markup x 6 (40) values or 6 (9) rearrangements; all strings of up to 3 (4) of 38 markup tokens; 32 kinds of files grown to 10 000 (30 000).'),
'T04':('exploration','exhaustive enumeration of the stated input lattices of every unit, placement, table-width, scaling and colour helper of the real code (overflow checks on), each result compared with exact arithmetic',
  'All 16.7 million colours; all channel pairs x 31 amounts; all texts of up to 6 (7) characters over 10; boundaries of every type and all multiples of 1/1 to 1/12700 up to 16 000 (800 000); 14 x 14 sizes and spacings x 8 counts; tables of 0 to 1000 columns; picture headers of 5 formats.'),
'C01':('model_checking','exhaustive exploration of command lines and states of the file system, network and helper tool: the real binary runs as a process in a fresh directory for every combination, and exit status, messages and all files before and after are compared with a model of what the combination calls for',
  'About 12 000 runs (quick): every command x input kind x output kind x options; all command lines of up to 3 (thorough 4) words over 18; 1-3 (4) merge inputs; 0-11 (101) PDF pages x 4 states of pdftoppm (a stand-in); 17 answers of a web server on the loopback; every part of a deck missing, broken or empty; disk full at 4 sizes x 9 commands.'),
'G09':('model_checking','explicit enumeration of all combinations of settings over the real generator against a model of what each setting means in the package, and of which parts each setting may change',
  'About 13 000 (thorough 120 000) packages; the markup is read with an independent parser. Print settings that the library documents as not written (colour mode, frames, handout layout, orientation) are only checked to change nothing.'),
'G10':('model_checking','explicit enumeration of all arrangements of links over the real generator; every link is followed through the package by an independent reader and compared with what was asked for',
  'About 66 000 packages; up to 3 links on up to 3 slides with every kind of link and requested id, rings and stars of links on up to 12 slides.'),
'T07':('model_checking','explicit-state exploration of all sequences of builder calls on the real builders against a model in which a call sets what it names; markup is compared through an independent reader',
  'About 2.5 million call sequences (thorough 30 million): shapes, connectors, pictures, text, tables, charts, slides, code blocks and quick presentations.'),
'T08':('model_checking','explicit enumeration of all list lengths of every template on the real code; every slide compared through an independent reader with the documented structure',
  'About 5 800 presentations (thorough: about 71 000).'),
'T09':('model_checking','explicit-state exploration of all sequences of calls on the part objects against a model, with the markup read by an independent reader, and of all layouts of two spanning cells',
  'About 72 000 call sequences and layouts (thorough: about 2 million).'),
}
