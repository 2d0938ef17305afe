G='src/generator/'
p('G01','Every generated deck is a closed, consistent OOXML package',
 'Whatever combination of slide features, presentation settings or embedded extras a deck is built from, the file produced has unique entry names, a content type for every part, a resolvable target for every internal relationship, unique relationship ids, and a relationship of the right kind behind every reference in the markup. The presentation lists exactly the requested slides in order, each connected to one layout, and every part is reachable from the package root.',
 ['inputs','configurations'],'All decks over a feature lattice (0-3 slides; layouts, tables, images with present/missing/duplicate bytes, charts, notes, ink, code, connectors, shapes, transitions, hyperlinks; every on/off choice of handouts, fonts, signatures, show/print settings) up to a bounded number of features per deck, plus all pairs.',
 'Tests build a handful of fixed decks; relationship numbering and content-type lists depend on combinations (image x notes x chart x ink x fonts) that no fixed list covers.',
 [G+'builder.rs',G+'package_xml.rs',G+'media_registry.rs',G+'notes_xml.rs',G+'charts/embedding.rs'],
 [('package assembly',G+'builder.rs: write_package_files'),('content types / relationships',G+'package_xml.rs')],['bytes returned by create_pptx_with_content / _with_settings'])
p('G02','Caller text of any content survives into well-formed XML exactly',
 'Any text a caller supplies (titles, bullets, table cells, shape text, notes, chart titles, series and category names, alt text, file names, code, hyperlinks, signer and font names, comments, headers and footers) yields parts that are well-formed XML. Reading the part back gives exactly the supplied characters, except that characters XML cannot represent are dropped or replaced, never emitted raw.',
 ['inputs'],'Every text-bearing field x every string up to length 3 over an alphabet of XML-significant, control, whitespace, non-BMP and plain characters.',
 'Tests escape one or two sample strings in one or two fields; a field that forgets to escape is only visible with the right character in that field.',
 ['src/core/xml_utils.rs',G+'slide_xml/common.rs',G+'shapes_xml.rs',G+'table/xml.rs',G+'charts/xml.rs',G+'notes_xml.rs',G+'props_xml.rs',G+'text/run.rs'],
 [('escape_xml','src/core/xml_utils.rs'),('per-field XML writers',G+'slide_xml/*, shapes_xml.rs, table/xml.rs, charts/xml.rs')])
p('G03','Slides carry exactly the requested content, order and formatting',
 'Each slide part contains the requested title, bullets (text, order, nesting level, bullet or numbering style, run formatting), table grid, shapes, pictures, connectors, code and notes, once each and in order, at the requested positions and sizes. The slide uses the layout that was asked for and its transition.',
 ['inputs','configurations'],'All slides over bounded alphabets of each element kind and its attributes, for each of the layouts with room for that kind of content.',
 'Tests check that one marker string occurs in the XML for one value of each attribute; order, multiplicity, nesting and combinations of attributes are not settled by substring checks.',
 [G+'slide_xml/layouts.rs',G+'slide_xml/content.rs',G+'slide_xml/common.rs',G+'slide_content/content.rs',G+'shapes_xml.rs',G+'connectors.rs',G+'images_xml.rs',G+'table/xml.rs'],
 [('slide XML writers',G+'slide_xml/'),('element XML writers',G+'shapes_xml.rs, connectors.rs, images_xml.rs, table/xml.rs')])
p('G04','Charts keep every series, category and value at its own position',
 'For every supported chart kind, the chart part holds each plotted series with its name and every value, each value at its own index and in order, together with the category labels in order, and is linked to a data workbook. The kind, bar direction and grouping written are those of the requested chart type.',
 ['inputs','configurations'],'All chart types x 0-3 series x 0-4 points over a value alphabet (negative, fractional, huge, tiny, zero) x category label alphabets x 1-2 charts per slide on 1-2 slides.',
 'Tests look for an element name in the XML; none reads the data points back.',
 [G+'charts/xml.rs',G+'charts/types.rs',G+'charts/embedding.rs',G+'builder.rs'],
 [('chart part writer',G+'charts/xml.rs'),('chart numbering and relationships',G+'builder.rs')])
p('G05','Streaming and in-memory generation give the same package',
 'Writing a deck to a writer, or lazily slide by slide from a source, produces the same parts with the same contents as building it in memory. This holds for every deck and settings combination, including decks with pictures, charts, notes, ink, fonts, signatures, handouts and templates.',
 ['inputs','configurations'],'The G01 deck lattice, each deck generated by every entry point and compared part by part.',
 'The two paths are separate code; tests compare a couple of plain decks by size or by substring.',
 [G+'builder.rs',G+'package_xml.rs'],[('eager path',G+'builder.rs: write_package_files'),('lazy path',G+'builder.rs: write_package_files_lazy')])
p('G06','Output depends only on the inputs, not on history or other threads',
 'Generating the same deck yields the same parts whatever was generated, read, compressed or converted before it in the process, and whatever other threads are doing at the same time. No call observes or disturbs another call through shared caches or shared temporary files.',
 ['histories','schedules'],'All call histories up to length 4 over a set of dissimilar decks and operations, each in a fresh process; all interleavings of the file-system steps of two concurrent calls up to a preemption bound.',
 'Tests run in one process in one order on one thread, and the timings that expose sharing are never forced.',
 [G+'package_cache.rs',G+'builder.rs','src/opc/compress.rs','src/cli/markdown/mermaid/'],
 [('process-wide caches',G+'package_cache.rs'),('temporary files','src/opc/compress.rs')])
p('G07','A failing or short-writing destination is always reported',
 'If any write, seek, flush or file operation on the destination fails, the call returns an error; it never reports success for an incomplete or corrupt file. A destination that accepts only part of each write, or interrupts it, still receives exactly the same bytes.',
 ['fault_sequences','crash_points'],'Every single fault position of every writer/file operation of each save entry point (thorough: every pair), each fault kind; every short-write pattern up to a bound.',
 'No test injects an I/O fault.',
 [G+'builder.rs','src/opc/package.rs','src/api.rs','src/oxml/editor.rs','src/oxml/repair.rs','src/export/'],
 [('error propagation',G+'builder.rs; src/opc/package.rs: save_writer')])
p('G08','Every picture resolves to its own bytes, stored once',
 'Following the relationship of each picture on each slide leads to a media part holding exactly that picture\'s bytes with the content type of its format. Pictures with the same bytes and format share one stored copy and different pictures never share one.',
 ['inputs'],'All sequences of up to 4 pictures over 3 byte contents x 3 formats x {bytes, base64, file, unavailable} spread over up to 3 slides.',
 'Tests place one picture; dedup and index arithmetic only show with several pictures on several slides.',
 [G+'media_registry.rs',G+'images.rs',G+'builder.rs'],[('dedup table',G+'media_registry.rs'),('picture relationship numbering',G+'builder.rs')])
p('G09','Presentation-wide settings are written as asked, independently of each other',
 'Theme name, colours and fonts, slide-show settings, headers, footers, dates and numbers for printing, the handout master, embedded fonts (face, style, descriptor and bytes) and the signature stand in the package exactly as requested, for every combination of their values. A setting changes only the parts that concern it: each part is the same as in a deck that has only the settings concerning that part.',
 ['inputs'],'All slide-show settings over 3 types, 5 switches, 5 ranges and 4 pens; each theme colour alone and all together with all ways to set fonts; all print settings; all lists of up to 3 fonts; all signatures; all 128 combinations of the six kinds of settings on 4 decks.',
 'Unit tests look for single substrings of a few settings; dependence of one setting on another, and values no test names, only show over all combinations.',
 [G+'presentation_theme.rs',G+'slide_content/slide_show_settings.rs',G+'slide_content/print_settings.rs',G+'slide_content/embedded_fonts.rs',G+'slide_content/digital_signature.rs',G+'slide_content/presentation_settings.rs',G+'layout_parts.rs',G+'package_cache.rs',G+'theme_xml.rs',G+'package_xml.rs',G+'builder.rs'],[('theme part',G+'presentation_theme.rs'),('slide show',G+'slide_content/slide_show_settings.rs'),('assembly',G+'builder.rs')])
p('G10','Every link leads where it was asked to',
 'Each hyperlink of a shape is found on that shape in the package and leads, through a relationship of its own slide, to exactly the requested address, mail address and subject, or file, or to the slide with the requested number in presentation order, or makes the requested jump; with its tooltip and highlighting, whatever else the slide holds and whatever relationship ids were asked for. A link to a slide the deck does not have is left out.',
 ['inputs'],'16 links x 4 ways x 7 requested ids x 7 contents of the slide x each slide of decks of 1 and 3 slides x 3 ways to build; all pairs (thorough: triples) of links and requested ids on the same or different slides; decks of up to 12 slides in which all slides link to one, to the next or to all; all pairs of 13 parts of a mail subject.',
 'Tests place one URL link; the numbering of relationships beside notes, pictures, charts, ink and requested ids only goes wrong in particular arrangements.',
 [G+'hyperlinks.rs',G+'builder.rs',G+'shapes_xml.rs',G+'package_xml.rs'],[('targets',G+'hyperlinks.rs'),('relationship ids',G+'builder.rs: assign_hyperlink_rids')])
p('R01','Reading a generated deck returns what was generated',
 'Opening a generated deck gives the same number of slides in the same order, with the same titles, bullet texts, table cells, shape texts and document properties that were put in; importing it gives slides with the same titles, texts and tables.',
 ['inputs'],'All decks of up to 3 slides over alphabets of titles, bullets, tables, shapes and layouts, and decks of up to 12 slides for ordering.',
 'Round-trip tests read one deck with one or two strings.',
 ['src/oxml/presentation.rs','src/oxml/slide.rs','src/oxml/xmlchemy.rs','src/import/mod.rs','src/api.rs'],
 [('slide parser','src/oxml/slide.rs'),('slide list','src/oxml/presentation.rs'),('import','src/import/mod.rs')])
p('R02','Slides are read in the order the presentation lists them',
 'For any valid presentation the slides are reported in the order of the presentation\'s slide list, whatever the relationship ids, part names or order of relationship entries. Relationship targets given relative or absolute are both followed.',
 ['inputs','configurations'],'All permutations of up to 4 slides x assignments of relationship ids and part names x order of relationship entries x relative/absolute targets.',
 'Tests only read decks written by this library, where ids, names and order coincide.',
 ['src/oxml/presentation.rs'],[('slide list','src/oxml/presentation.rs')])
p('R04','All text of a slide is read',
 'Reading a slide returns the whole text of every text box, placeholder, grouped shape and table cell, in order, however it is divided into runs, line breaks, fields, paragraphs and white space and whatever namespace prefixes are used; the slide title is the text of the title placeholder. The extracted text of the presentation contains all of it.',
 ['inputs'],'All sequences of up to 4 pieces of run, break and field markup in every kind of container; all sequences of up to 4 containers.',
 'Tests read single-run paragraphs of text boxes.',
 ['src/oxml/slide.rs','src/oxml/xmlchemy.rs'],[('slide parser','src/oxml/slide.rs'),('text of elements','src/oxml/xmlchemy.rs')])
p('R03','Damaged input is rejected or read, never a crash or hang',
 'Opening, validating, repairing, importing, editing or compressing any byte sequence, including every truncation of a valid file and every package with parts missing, emptied or cut, ends with a result or an error. It never panics and never runs without bound. A file cut short is refused by every reader, and one with a changed byte in the content of a part never opens with other content.',
 ['inputs','crash_points'],'Every truncation point of a generated file, every single-byte overwrite at structural positions, every subset (bounded) of part deletions/emptyings/truncations; all token strings of a bounded XML grammar as part content.',
 'Tests feed one or two malformed inputs.',
 ['src/opc/package.rs','src/oxml/','src/core/package_validation/','src/import/mod.rs'],[('package reader','src/opc/package.rs'),('XML parser','src/oxml/xmlchemy.rs')])
p('O01','The package container is a faithful map of parts through save and open',
 'Any sequence of adding, replacing, removing and looking up parts behaves like a map from part names to bytes. Saving and reopening, any number of times and through a file or memory, preserves exactly that map, byte for byte.',
 ['histories'],'All operation sequences up to depth 5 over 3 part names x 3 contents, with save/reopen as an operation.',
 'Tests add and read back one part.',
 ['src/opc/package.rs'],[('part map','src/opc/package.rs')])
p('O02','Compressing a deck loses only what was asked to be removed',
 'Compression with any combination of options keeps every slide, its text including spacing, its pictures and its links, and leaves a closed package. Only unused media, and the properties, notes or comments whose removal was requested, are removed, together with every reference to them; the reported figures match the result.',
 ['inputs','configurations'],'All option combinations x decks over used/unused media, notes, properties, quotes/whitespace-laden text.',
 'Tests compress one plain deck and check it is not larger.',
 ['src/opc/compress.rs'],[('compressor','src/opc/compress.rs')])
p('E01','A history of edits leaves exactly the slides a list would have',
 'Adding, inserting, updating, duplicating, reordering and removing slides of an existing presentation, in any sequence and with saves and reopens in between, leaves the slides that the same operations on a plain list would leave, in the same order with the same text. An operation with an invalid index is an error that changes nothing.',
 ['histories'],'All edit sequences up to depth 4 (thorough 5) over the six operations with all valid and boundary indices, from starting decks of 1-3 slides of different kinds.',
 'Tests apply one or two edits in fixed order.',
 ['src/oxml/editor.rs'],[('slide renumbering','src/oxml/editor.rs')])
p('E02','Edited presentations stay closed packages and keep what was not edited',
 'After any sequence of edits the saved file is again a closed, consistent package that passes this library\'s own validation. Slides that were not edited keep their pictures, charts, notes, links and layout, and presentation-wide parts and settings are unchanged.',
 ['histories'],'The E01 sequences from starting decks with pictures, charts, notes, links and non-default layouts; full package oracle after every prefix.',
 'Tests check slide counts after an edit, not the relationships and content types of the rest of the package.',
 ['src/oxml/editor.rs',G+'package_xml.rs'],[('presentation / relationship / content type rebuild','src/oxml/editor.rs')])
p('V01','Validation accepts sound decks and flags each kind of damage',
 'Every deck this library generates passes its package validation without errors. Removing a required part, a relationship target, a content type, a relationship entry or a slide-list entry, or making markup unparsable, is reported as an error.',
 ['inputs','fault_sequences'],'The G01 deck lattice for acceptance; every single structural damage of every base deck.',
 'Tests check a few hand-made damages on one deck.',
 ['src/core/package_validation/'],[('rules','src/core/package_validation/rules.rs')])
p('V02','Repair fixes what it reports, once, and touches nothing else',
 'Checking an undamaged deck reports nothing to repair and repairing it changes nothing. Repairing a damaged deck removes every issue it lists as repaired and lists the others as unrepaired, does nothing the second time, keeps every intact slide and its content, leaves parts without an issue as they are, and its result opens.',
 ['fault_sequences'],'All sets of up to 2 (thorough 3) damages from a damage alphabet applied to decks of several kinds, including foreign formatting of relationship files.',
 'Tests apply one damage at a time and check that the call succeeds.',
 ['src/oxml/repair.rs'],[('validate/repair','src/oxml/repair.rs')])
p('M01','Markdown becomes slides without losing, inventing or reordering content',
 'Each top-level heading starts a slide with that title; paragraphs, list items at any nesting, sub-headings, tables, code blocks and quoted notes belong to the slide they follow, in source order; a horizontal rule, or a second table on a slide, starts a slide that continues it. No text of a supported construct is dropped (emphasis stays as its Markdown marks), and the same source always gives the same slides.',
 ['inputs'],'All documents of up to 4 (thorough 5) blocks over an alphabet of 24 block kinds; all inline sequences up to length 4; all nested lists of up to 8 items.',
 'Tests convert one document per construct; loss shows only in sequences and nestings.',
 ['src/cli/markdown/parser.rs'],[('event state machine','src/cli/markdown/parser.rs')])
p('M02','Diagrams show every declared element, deterministically, without crashing',
 'Converting a Mermaid diagram of any supported kind shows the text of each declared element (nodes, classes and their members, states, entities and their attributes, participants, messages, tasks, events, slices, commits, branches, points, titles and labels) once and in source order, with one connector for each declared link, in order, attached to the shapes of its two ends; a flowchart runs in its stated direction, groups hold their nodes, message arrows lead from sender to receiver, and commits stand on their branch. Comments, directives and styling declare nothing. The result is the same on every run, and no source, however malformed or long, makes it panic.',
 ['inputs'],'All diagram sources of up to 4 to 8 (thorough one more) lines over a per-kind line alphabet, all pairs of malformed lines, and diagrams of thousands of lines.',
 'Tests check that one sample per kind yields at least one shape.',
 ['src/cli/markdown/mermaid/'],[('per-kind parsers','src/cli/markdown/mermaid/*.rs')])
p('H01','HTML becomes slides without losing, inventing or reordering content',
 'Each h1 starts a slide; other headings, paragraphs, list items, tables and code of an HTML document land on the slide they follow, in source order with entities decoded (bold and italic stay as Markdown marks), the last quote of a slide becomes its notes, and a rule, or a second table on a slide, starts another slide; scripts, styles, navigation and forms contribute nothing and hide nothing that follows them. Inline styles (colour, highlight, size, weight, slant, underline, strike, font) become the format of exactly the text they cover. The slide and bullet limits and include switches are honoured exactly.',
 ['inputs','configurations'],'All documents of up to 4 (thorough 5) blocks over an alphabet of 28 block kinds; all documents of 3 (4) blocks x all option combinations; all inline sequences up to length 3 (4).',
 'Tests convert one document per construct.',
 ['src/import/html.rs'],[('tokenizer and slide builder','src/import/html.rs')])
p('W01','A web page becomes slides that carry its blocks in order, within the limits',
 'Converting a fetched web page yields its title, then for every heading the paragraphs, list items (nested ones with their level), quotes, code, tables and described images that follow it, in page order and each once; what stands before the first heading comes first. Texts are read as a browser shows them (entities decoded, line breaks and blocks part words, scripts and styles say nothing), cut only with an ellipsis. A slide never exceeds the bullet limit and a deck never the slide limit, further bullets going on to a continuation slide; include switches, description, source address and an own title are honoured.',
 ['inputs','configurations'],'All pages of up to 3 (thorough 4) blocks over an alphabet of 21 block kinds, grouped and linear; all pages of 8 kinds x limits x options; texts of every length around the cut; every title source and content-area mark.',
 'Tests convert one small page and look at a block count.',
 ['src/web2ppt/parser.rs','src/web2ppt/converter.rs'],[('block extraction','src/web2ppt/parser.rs'),('slides','src/web2ppt/converter.rs: build_grouped_slides, build_linear_slides')])
p('H02','Converters terminate without panicking on every input text',
 'Converting any text as HTML, Markdown or a diagram, or any web page, returns slides or an error. It never panics or loops.',
 ['inputs'],'All strings of up to 3 (thorough 4) tokens over adversarial alphabets for HTML, style values, Markdown and the lines of 14 kinds of diagrams, up to 2 (3) for web pages; 67 kinds of texts nested or repeated up to 10 000 (30 000) times, under the stack of an ordinary thread.',
 'Tests use well-formed samples.',
 ['src/import/html.rs','src/cli/markdown/','src/web2ppt/'],[('tokenizers','src/import/html.rs, src/cli/markdown/')])
p('T07','A builder call sets what it names, in every order',
 'Each call on the builders for shapes, connectors, pictures, text formats, paragraphs, text frames, table cells, tables, charts, slides, code blocks and quick presentations, in whatever order and however often the calls are made and from whichever constructor or shortcut helper the value came, changes exactly the attributes it names: the last call for an attribute wins (a fill and a gradient, and sub- and superscript, replace each other), calls which add append at the end, and everything set before is kept in what is built and in the markup the builder writes.',
 ['inputs','histories'],'all call sequences of up to 3 to 5 calls (thorough: 4 to 6) from 4 to 38 calls, from every constructor and helper: 33 ways to a shape, 4 to a connector, 14 to a picture x 9 ways to build it, 5 kinds of formatted text, 4 of paragraphs and frames, 4 of cells, 8 of tables, 5 of charts.',
 'Tests make each call once, on a fresh value; a call that resets another, or is lost by a later one or by one way to build, only shows in a particular order.',
 [G+'shapes.rs',G+'connectors.rs',G+'images.rs',G+'text/',G+'table/',G+'charts/builder.rs',G+'slide_content/','src/helpers/','src/prelude.rs'],[('pictures',G+'images.rs: ImageBuilder'),('text',G+'text/run.rs, paragraph.rs, frame.rs'),('slides',G+'slide_content/content.rs')])
p('T08','Ready-made presentations place every item under its heading',
 'Each ready-made presentation (business proposal, training material, status report, technical documentation, simple deck) has its title slide, then its sections in the documented order under their headings, each with exactly the given items, pairs joined as one bullet, modules and components as a slide each; the sections for risks, metrics and examples are left out when they have nothing to show. The document carries the given title.',
 ['inputs'],'all combinations of 0 to 2 (thorough: 3) items in every list and nested list of every template, with two titles, items with markup, spaces and repeated names.',
 'Tests build one filled example of each and look at its size; empty, repeated and long lists and the contents are not looked at.',
 ['src/templates.rs'],[('sections','src/templates.rs')])
p('T09','Part objects write what was set on them',
 'The objects for single parts (table, presentation, layout, master, notes, theme, document and application properties, chart, slide, picture and media) write well-formed markup that says exactly what was set on them, in whatever order and however often, with unique slide and layout ids and a relationship for every slide; cells covered by a span are marked as merged in the right direction. Each names its own place, kind and content type, and the ones that can be read back from their markup come back the same.',
 ['inputs','histories'],'all sequences of up to 3 to 5 (thorough: 4 to 7) calls on every object, presentations read with every kind of slide id list, all layouts of two spanning cells on 3 x 3 (thorough: 4 x 4) cells, all media and picture formats in all spellings.',
 'Tests set each attribute once and look for a substring; combinations, repeated calls, reading before changing, and spans across rows are not looked at.',
 ['src/parts/'],[('tables','src/parts/table.rs'),('slide ids','src/parts/presentation.rs: add_slide'),('kinds','src/parts/base.rs')])
p('X01','HTML export shows the deck text literally and completely',
 'The exported page contains, for every slide in order, its title, bullets, table cells, code and (when asked) notes, and a browser shows exactly the text of the deck: no character of it acts as markup. Option switches add or remove exactly what they name.',
 ['inputs','configurations'],'All texts of up to 2 (thorough 3) of 39 tokens that mean something in HTML, Markdown or YAML in 10 places, all lists of up to 4 (5) items over levels and signs, all ragged tables up to 2 (3) cells square with spans, all pairs of slides with any of six kinds of content, options, pictures of every length to 24 bytes in the page and beside it.',
 'Tests check that plain words occur in the output.',
 ['src/export/html.rs'],[('exporter','src/export/html.rs')])
p('X02','Markdown export renders back to the deck text',
 'Parsing the exported Markdown yields, slide by slide in order, the titles, bullets, table cells, code and notes of the deck as literal text. Option switches add or remove exactly what they name.',
 ['inputs','configurations'],'All texts of up to 3 (thorough 4) of 39 tokens that mean something in HTML, Markdown or YAML in 10 places, all lists of up to 4 (5) items over levels and signs, numbered lists past ten with deeper items, all ragged tables up to 2 (3) cells square, all pairs of slides with any of six kinds of content, options.',
 'Tests check that plain words occur in the output.',
 ['src/export/md.rs'],[('exporter','src/export/md.rs')])
p('X03','PDF export gives a well-formed file with one page per slide',
 'Exporting any deck to PDF gives a structurally valid file: object offsets, lengths and page tree agree, with one page per slide in the vector renderer, and each page shows the slide\'s title and its text that fits. No text or number in the deck breaks the file or makes the export panic.',
 ['inputs','configurations'],'All texts of up to 2 (thorough 4) of 25 tokens in 5 places, all lists of up to 3 (4) items over levels and signs, 0 to 60 lines x kinds x sizes, all emphasis x colours x layouts, 0 to 120 slides, extreme sizes.',
 'Tests check the header bytes of one export.',
 ['src/export/slide_render.rs','src/export/pdf_export.rs'],[('page writer','src/export/slide_render.rs')])
p('T01','Table merges always describe a consistent grid',
 'After any sequence of merge requests, each accepted region covers exactly its cells, accepted regions never overlap or leave the grid, and rejected requests change nothing. The reported state and markup of every cell agree with the accepted regions.',
 ['histories'],'All request sequences up to depth 3 over all regions of grids up to 3x3 (thorough depth 4), checked against a reference grid.',
 'Tests try two or three merges.',
 [G+'slide_content/table_merge.rs',G+'table/'],[('merge map',G+'slide_content/table_merge.rs')])
p('T02','Sections partition the slides they were given',
 'Any sequence of section operations keeps the section list equal to a reference list: names, slide ids and order are those requested, and the written markup lists each section with exactly its slides.',
 ['histories'],'All operation sequences up to depth 4.',
 'Tests add one or two sections.',
 [G+'slide_content/sections.rs'],[('section manager',G+'slide_content/sections.rs')])
p('T03','Comments keep their author, text and numbering',
 'Any sequence of adding authors and comments gives each distinct author one id, each automatically numbered comment of an author a fresh index, and markup that lists every comment with its own author, position and text.',
 ['histories'],'All operation sequences up to depth 5 over 3 authors.',
 'Tests add one comment.',
 [G+'slide_content/comments.rs'],[('comment lists',G+'slide_content/comments.rs')])
p('T04','Unit and colour helpers are exact and total',
 'Conversions between units and fractions of the slide, and colour parsing, mixing and adjustment, give the mathematically expected result within rounding for every input and never panic or wrap around.',
 ['inputs'],'All byte values per colour channel and all pairs over boundary sets; dimension values over boundary sets of each unit; all hex strings up to length 8 over a small alphabet.',
 'Tests use one value per helper.',
 ['src/core/dimension.rs','src/helpers/colors.rs','src/elements/','src/prelude.rs'],[('conversions','src/core/dimension.rs, src/helpers/')])
p('T05','Document dates are valid and match the clock',
 'At any time, the creation and modification times written into a deck are valid calendar timestamps equal to the current time in UTC.',
 ['inputs'],'Every day from 1970 to 2120 and every boundary second, through a controlled clock.',
 'Tests run at one moment.',
 [G+'props_xml.rs'],[('timestamp',G+'props_xml.rs')])
p('T06','Relationship and content-type tables never reuse or lose an entry',
 'Any sequence of operations on the relationship and content-type tables gives every entry a unique id, finds exactly what was stored, and writes and reads back the same table.',
 ['histories'],'All operation sequences up to depth 5.',
 'Tests add two or three entries.',
 ['src/parts/relationships.rs','src/parts/content_types.rs'],[('tables','src/parts/relationships.rs, content_types.rs')])
p('A01','Presentations compose: the built deck is the concatenation of what was added',
 'A presentation assembled by any sequence of adding slides, adding other presentations and importing decks contains exactly those slides in order, and builds, saves and reloads to the same deck. Failed operations leave nothing behind that later operations observe.',
 ['histories'],'All builder operation sequences up to depth 4.',
 'Tests add one or two slides.',
 ['src/api.rs','src/import/mod.rs'],[('builder','src/api.rs')])
p('C01','Commands succeed only when they produced what they promise',
 'Every command line exits zero exactly when it produced, at the place asked for, a valid output with the contents of its inputs (create, md2ppt, html2ppt, export, merge, pdf2ppt, web2ppt under all their names); otherwise it exits non-zero with a message, leaves every other file as it was and no new file, not even part of one when the disk fills up, and nothing in the temporary directory. No command line panics. validate agrees with the package validator in exit status, text and JSON (always well-formed); info shows size, title and number of slides.',
 ['inputs','configurations'],'All combinations of command x input kind (valid, empty, missing, directory, damaged) x output kind (new, existing, unwritable, missing directory) x options.',
 'Tests call the command functions on good inputs.',
 ['src/bin/pptcli.rs','src/cli/commands.rs','src/cli/parser.rs'],[('commands','src/cli/commands.rs')])
