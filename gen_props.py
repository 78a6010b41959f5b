# ---------------------------------------------------------------- globs
prop('C01', 'A glob matches exactly the names its pattern describes',
     'For every well-formed glob pattern and every file name, matching succeeds exactly when the name can be read as the pattern: "*" is any run of characters, "?" one character, "\\c" the character c, a bracket expression one character in (or with a leading "^" not in) its listed characters and ranges, anything else itself. '
     'An empty name is matched only by an empty pattern. Matching never reads outside the pattern or the name, always terminates, and never rejects a well-formed pattern.',
     'all well-formed patterns, all file names, of any length',
     'test/unit/glob_test.cpp tries a few dozen patterns; backtracking over several "*", and ranges next to escapes and negation, give unboundedly many combinations.',
     ['src/glob.cpp', 'src/glob.hpp'], [('glob matcher with backtracking', 'src/glob.cpp: glob, match_section, match_range')], ['quickbook::glob'],
     note='Ranges compare the pattern byte as unsigned with the file name byte as (signed) char, as the code does.')
prop('C02', 'Glob validation accepts exactly the well-formed patterns and classifies them',
     'Checking a pattern reports an error exactly when the pattern is malformed (an unfinished or empty bracket expression, a stray "]" or nested "[", a "/" inside brackets, "**", an escape at the end or of "\\" or "/"), or is a glob containing characters outside printable ASCII; otherwise it says whether the pattern contains any wildcard. '
     'It never reads outside the pattern and always terminates.',
     'all strings as patterns', 'The unit test lists about ten bad patterns; reading past the end happens only for particular last characters, which the test does not contain.',
     ['src/glob.cpp'], [('pattern validator', 'src/glob.cpp: check_glob, check_glob_range, check_glob_escape')], ['quickbook::check_glob'])
prop('C03', 'The literal part of a path is separated from its wildcards correctly',
     'Looking for the first wildcard of a path finds the first "*", "?", "[" or "]" (if any) that is not escaped by a backslash; removing escapes from a path drops each escaping backslash and keeps every other character, in order. Neither reads outside the path.',
     'all strings (to unescape: without an unfinished escape at the end)', 'The tests use a handful of paths, without escapes at the very end or adjacent escapes.',
     ['src/glob.cpp'], [('first wildcard', 'src/glob.cpp: find_glob_char'), ('unescape', 'src/glob.cpp: glob_unescape')], ['quickbook::find_glob_char', 'quickbook::glob_unescape'])
# ---------------------------------------------------------------- escaping
prop('C04', 'Text written to XML can never be read as markup and loses nothing',
     'Escaping a text for XML replaces exactly "<", ">", "&" and the double quote by their entities and leaves every other byte alone, whichever of the three interfaces is used (whole string, one character, text to a stream). The value of every attribute written by the HTML generator is escaped in this way. '
     'The result contains no raw "<", ">" or double quote, and reading its entities back gives the original text.',
     'all byte strings', 'No test covers it directly; the golden files contain only ordinary text.',
     ['src/utils.cpp', 'src/html_printer.cpp'], [('escaping', 'src/utils.cpp: encode_string, print_char, print_string'), ('HTML tags', 'src/html_printer.cpp: tag_start, tag_attribute, tag_end, open_tag, close_tag')], ['quickbook::detail::encode_string', 'quickbook::detail::print_char', 'quickbook::detail::print_string', 'quickbook::detail::tag_attribute', 'quickbook::detail::decode_string'])
prop('C05', 'Escaped URIs contain only URI characters and lose nothing',
     'Escaping a URI replaces each byte that is not an ASCII letter or digit or one of the allowed punctuation characters (a larger set for the partial escape) by "%" and its two lower-case hexadecimal digits, including bytes above 127 and zero; in the partial escape a "%" is kept only if two hexadecimal digits follow it. Every other byte is kept, and no memory outside the text or the digit table is read.',
     'all byte strings', 'No unit test; golden files contain a few ASCII links only.',
     ['src/utils.cpp'], [('percent encoding', 'src/utils.cpp: escape_uri_impl, escape_uri, partially_escape_uri')], ['quickbook::detail::escape_uri', 'quickbook::detail::partially_escape_uri'])
prop('C06', 'Identifiers made from text are lower case letters, digits and underscores',
     'Making an identifier from a text gives a text of the same length in which each ASCII letter is lower case, each digit is itself and every other byte is an underscore.',
     'all byte strings', 'Golden files contain ASCII titles only.', ['src/utils.cpp'], [('identifier', 'src/utils.cpp: make_identifier')], ['quickbook::detail::make_identifier'])
prop('C07', 'Numeric character references become the UTF-8 encoding of their code point',
     'When XML text is decoded, the reference to code point c (decimal or hexadecimal) is replaced by the UTF-8 encoding of c: one to four bytes according to its size, and the replacement character U+FFFD for c of 0x110000 and above.',
     'all code points representable in 32 bits', 'No test decodes a numeric reference; the four encoding lengths and their limits are never sampled.',
     ['src/utils.cpp'], [('encoding', 'src/utils.cpp: xml_decode_grammar::append_escaped_char')], ['quickbook::detail::decode_string'],
     note='The recognition of the reference by the Spirit grammar is outside the verifier: it is covered by the bounded run of the real decode_string only.')
# ---------------------------------------------------------------- source files
prop('C08', 'Loading a file normalises its newlines, drops a UTF-8 byte order mark and refuses other encodings',
     'Loading a file fails exactly when it starts with a UTF-16 or UTF-32 byte order mark. Otherwise the loaded text is the content of the file without a leading UTF-8 byte order mark, with every "\\r\\n" and every other "\\r" replaced by one "\\n" and everything else unchanged; so it contains no carriage return, and normalising it again changes nothing.',
     'all file contents', 'No test loads a file with a byte order mark cut short, with "\\n\\r", or with a carriage return at its end; the golden tests all use "\\n".',
     ['src/files.cpp'], [('newline normalisation', 'src/files.cpp: normalize'), ('byte order marks', 'src/files.cpp: read_bom, check_bom')], ['quickbook::load'],
     note='load itself (stream reading and the table of loaded files) is exercised by the bounded run only; normalize, read_bom and check_bom are under contract.')
prop('C09', 'Line and column numbers are exact',
     'The line reported for a position in a source text is one plus the number of newlines before it, and the column is one plus its distance from the start of that line, for every position from the start to the end of the text (source text is normalised: it contains no carriage return).',
     'all texts without carriage returns, all positions', 'Error messages in the golden tests check a few dozen positions.',
     ['src/files.cpp'], [('line and column', 'src/files.cpp: relative_position')], ['quickbook::relative_position', 'quickbook::file::position_of'])
prop('C10', 'Every character of a mapped file knows where it came from',
     'A file assembled from copied parts of a source, generated text attached to a source position, unindented blocks and parts of other such files consists of exactly those texts in order; each character of it is reported at the line and column of the source character it was copied from (generated text: at its source position; spaces at the start of a line of an unindented block: at the start of that line; spaces at the start of a copied part of an unindented block: at the start of the part), however the file was assembled.',
     'all sources below 4 GiB and all sequences of building operations, all positions', 'test/unit/source_map_test.cpp tries about a dozen assemblies.',
     ['src/files.cpp', 'src/files.hpp'], [('sections', 'src/files.cpp: mapped_file, mapped_file_builder::add, add_at_pos, unindent_and_add'), ('lookup', 'src/files.cpp: mapped_file::find_section, to_original_pos')],
     ['quickbook::mapped_file_builder', 'quickbook::file::position_of'],
     note='Each builder owns its file; adding a builder to itself is excluded. Texts are shorter than 2^32 characters (a newline counter has 32 bits).')
# ---------------------------------------------------------------- ids
prop('C11', 'Generated ids are normalised: words joined by single underscores, cut to the maximum size',
     'Normalising an id drops underscores at its start and end and replaces each run of underscores by one, keeps every other character in order, and cuts the result to the given maximum size (32 by default); an id consisting of underscores only (or empty) becomes a single underscore.',
     'all texts, all maximum sizes', 'Golden files contain a few titles; runs of underscores meeting the size limit are never sampled.',
     ['src/id_generation.cpp'], [('normalisation', 'src/id_generation.cpp: normalize_id')], ['quickbook::normalize_id'])
prop('C12', 'Placeholder ids are replaced exactly where they are values of id attributes, and nothing else in the output changes',
     'When the ids of a document are put into its XML, each quoted value of an attribute called id, linkend, linkends or arearefs of a start tag that names a placeholder ("$" and its number) is replaced by the id of that placeholder; everything else - text, other attributes, ids written by the user, comments, processing instructions, escaped XML between the escape markers, and badly formed markup - is copied unchanged and in order. '
     'The name written for a placeholder leads back to the same placeholder; an unknown placeholder is an error, and nothing outside the text is read.',
     'all texts (well-formed XML or not), all sets of placeholders', 'The golden documents contain well-formed markup only.',
     ['src/id_xml.cpp', 'src/id_generation.cpp', 'src/document_state.cpp'],
     [('scanner', 'src/id_xml.cpp: xml_processor::parse and the helpers in src/simple_parse.hpp'), ('replacement', 'src/id_generation.cpp: replace_ids, replace_ids_callback'), ('placeholders', 'src/document_state.cpp: add_placeholder, get_placeholder, id_placeholder')],
     ['quickbook::xml_processor', 'quickbook::replace_ids'],
     note='A start tag here is "<" followed by a letter, "_" or ":"; the scanner stops reading attributes at the first one without a quoted value, as the code does.')
prop('C13', 'Every element of a document gets an id of its own, and the best claim to an id wins',
     'For every document, the ids generated for the placeholders it mentions (and their parents) are pairwise different. The id of a placeholder begins with the id of its parent and a dot whenever it is the one it asked for; a placeholder gets exactly the id it asked for if no other placeholder asking for the same id has a higher category, or the same category and an earlier place (explicit ids first, then document order, parents before children). '
     'Every other placeholder gets an id with the same part up to its last dot followed by at most 32 characters, with as many dots as planned.',
     'all documents, all sets of placeholders with any ids, categories and parents', 'Golden files contain small documents with a couple of clashes; long ids, clashes across parents, and many duplicates are not sampled.',
     ['src/id_generation.cpp', 'src/document_state.cpp'],
     [('order', 'src/id_generation.cpp: index_placeholders, placeholder_compare, get_placeholder_order_callback'), ('reservation', 'src/id_generation.cpp: generate_id_block_type::generate, resolve_id'), ('free numbers', 'src/id_generation.cpp: generate_id'), ('groups', 'src/id_generation.cpp: generate_ids')],
     ['quickbook::generate_ids'],
     note='Uniqueness is among generated ids; ids the user writes in raw XML are outside. The search for a free number is proved correct when it ends; that it ends is not proved.')
prop('C14', 'A section title becomes one link unless it already contains one',
     'Making a title a link to its section wraps the whole title, unchanged, in one link element with the given id, unless the title contains a link start tag outside comments, processing instructions, declarations and other tags, in which case it is left unchanged. It terminates for every title and reads nothing outside it.',
     'all titles, all ids', 'Golden files contain titles without raw markup.', ['src/id_xml.cpp'], [('linkify', 'src/id_xml.cpp: linkify')], ['quickbook::detail::linkify'])
prop('C15', 'Every id is qualified by the sections, documents and includes that enclose it, as the version of its file prescribes',
     'Whatever the history of files, includes and sections: an id handed out in a 1.6 or later document is the path of the ids of the sections around it, from the outermost in, followed by its own part (normalised unless the user gave it); an id given to an include takes precedence over the id of the included file, with or without a docinfo block, '
     'and takes the place of everything around the include. In files before 1.6 ids are joined to the document id and the ids of the sections around them in the way of their version. '
     'Each section is one level below the one around it, leaving a section or a file restores exactly the section or file that was current before, and an id once handed out never changes.',
     'all histories of starting and ending files, documents and sections and adding ids and anchors, in every mixture of versions, to any depth', 'Golden files nest a few includes of one or two versions; the rules branch on the version of the file, the version of the section, the depth of includes and on which ids are empty.',
     ['src/document_state.cpp', 'src/document_state_impl.hpp'], [('files', 'src/document_state.cpp: start_file, end_file, file_info'), ('sections', 'src/document_state.cpp: create_new_section, begin_section, end_section, section_info'), ('ids', 'src/document_state.cpp: add_id_to_section, get_id_placeholder, old_style_id')],
     ['quickbook::document_state', 'quickbook::document_state::replace_placeholders_with_unresolved_ids'])
prop('C16', 'A document tree stays a tree, with its nodes in order, whatever is done to it',
     'However trees are built and taken apart: adding an element to a builder puts it after the element added last at the current level, start_children and end_children go into the children of that element and back to it, and parent() and current() say where the builder is; extracting a node takes it and its whole subtree out and closes the gap; '
     'adding a tree before, after, or as the first or last child of a node puts its root exactly there. After every operation each node has the right parent, the children of a node and the neighbours of each child agree in both directions, every other node keeps its place, the tree that was given away is empty, and moving or releasing a builder hands over the whole tree.',
     'all trees and all histories of these operations on them', 'No test covers the tree; the golden HTML files build a few trees and never add or extract in the middle.',
     ['src/tree.cpp', 'src/tree.hpp'], [('editing', 'src/tree.cpp: tree_node_base::add_before, add_after, add_first_child, add_last_child, tree_base::extract'), ('building', 'src/tree.cpp: tree_builder_base::add_element, start_children, end_children, extract, release')],
     ['quickbook::detail::tree', 'quickbook::detail::tree_builder', 'quickbook::detail::tree_node'],
     note='The deletion of the nodes with their tree (a template over the node type) is exercised by the bounded run only; the links are under contract. Adding before the root of a whole tree is outside the precondition.')
prop('C17', 'BoostBook is read as the elements, attributes and texts it contains, or refused',
     'Reading an XML text succeeds exactly when every tag is complete, names its element, gives each attribute value in quotes, every comment, declaration and processing instruction is closed and every closing tag names the innermost open element. Then the tree has exactly the elements and texts of the source, in order and nested as their tags are: '
     'each element with its name and, for every attribute, the decoded value given last (empty when none is given); texts verbatim; comments, declarations and processing instructions leave nothing, and quoted strings in tags may contain any markup. Nothing outside the text is read.',
     'all byte strings', 'No test parses XML directly; golden HTML files contain only what the generator itself writes, all well formed.',
     ['src/xml_parse.cpp', 'src/xml_parse.hpp', 'src/simple_parse.hpp'], [('parser', 'src/xml_parse.cpp: xml_parse, read_tag, read_close_tag, skip_question_mark_tag, skip_exclamation_mark_tag, read_tag_name, read_attribute_value, read_string'), ('attributes', 'src/xml_parse.hpp: xml_element::set_attribute')],
     ['quickbook::detail::xml_parse'],
     note='An element left open at the end of the text is closed there. Decoding of attribute values is C04 and C07; the tree builder is C16 (here it is a recorder of the calls it gets).')
prop('C18', 'A link from one generated HTML page to another leads to its target',
     'The relative reference written for a link from one page to a page, or to a place in a page, gives exactly that page and place when it is resolved against the page it is in, whatever directories the two pages are in; a link to the page itself stays in it. An absolute URL is written unchanged, and a boost: link without a boost root leads to the same path below the release documentation. Every link and URL of the document is written as such a reference, and the links the generator adds - navigation, tables of contents, footnotes, callouts - lead to a page and an element that exist.',
     'all pairs of page paths (relative, naming a file, without empty or ".." segments), with and without fragments, and all URLs', 'The golden HTML files are single pages or flat directories; nothing samples two pages in different directories or with names that are prefixes of each other.',
     ['src/bb2html.cpp'], [('references', 'src/bb2html.cpp: relative_path_from_url_paths'), ('urls', 'src/bb2html.cpp: get_link_from_path, is_absolute_url')],
     ['quickbook::detail::boostbook_to_html'],
     note='Percent-encoding, queries and names containing ":" are not considered. Which page an id is on (chunking) and the links the generator adds are exercised by the bounded run only.')
prop('C19', 'Pretty printing the output changes nothing but white space',
     'post_process returns the characters of its input in the same order except for white space and the escape markers. Between two characters which are not white space there is white space in the output exactly if there is in the input, except next to the tag of a block element, next to preformatted code and at the ends of the document; so no white space comes or goes next to inline elements. Quoted attribute values and escaped text (without the white space at its ends) are copied unchanged, and the lines of preformatted code are copied unchanged except for spaces at their ends and for line endings, which become newlines. Tags are matched up: an end tag without a start tag makes it fail and the indentation is never negative.',
     'all documents of balanced tags, text, comments, processing instructions, code and escapes; all line widths, all non-negative indentations', 'Most golden tests run with pretty printing off, and the only unit test of post_process checks two ill-formed inputs; where a line breaks depends on the lengths of everything before it.',
     ['src/post_process.cpp'], [('what is printed', 'src/post_process.cpp: pretty_printer::print, print_tag, break_line, align_indent'), ('code and escapes', 'src/post_process.cpp: tidy_grammar::do_code, do_escape, do_escape_post'), ('nesting', 'src/post_process.cpp: tidy_grammar::do_start_tag, do_end_tag')],
     ['quickbook::post_process'],
     note='That the Spirit grammar hands the pieces of the document to the semantic actions in order and without gaps is trusted by the proofs and exercised by the bounded run, which drives the whole of post_process, and so is the list of block elements. The sizes of documents are assumed to stay below 2^31.')

prop('C20', 'List items and paragraphs nest as their indentation says',
     'In every document, at every level of nesting of blocks: an item whose mark is to the right of the mark of the item before it (or which is the first of its block) starts a list inside that item; one at the same column continues its list; one further to the left closes the lists whose first item is further to the right and continues the innermost one left (in a nested block, if none is left, it starts a new list). A line without a mark is code if it is indented further than the text of the list it is in (outside of nested blocks without a list); otherwise it closes the lists that start to the right of it, and also the one that starts at its own column unless it is to the right of the text of the list around that, and is a paragraph of what is left (before quickbook 1.6 it closes all lists; in 1.6 a paragraph in a list is an error). A list mark in an indented line is text of a code block when no list is open at the top level. Columns have tab stops every four. A nested block has lists of its own, and after it the lists around it go on as if it had not been there. Every list and item that is started is ended, in the right order, at the end of its block at the latest; changing the mark within a list is reported as an error. A paragraph is written as the text of a list item (simpara) exactly if the innermost block around it is an item of a list, written with marks or as an explicit list.',
     'all sequences of lines and nested blocks, all indentations with spaces and tabs, all versions', 'The golden tests have a dozen layouts; the meaning of a line depends on all the lists that are open and on those around the block it is in.',
     ['src/main_grammar.cpp', 'src/block_element_grammar.cpp', 'src/actions.cpp'], [('what a line means', 'src/main_grammar.cpp: check_indentation_impl, plain_block, list_block'), ('code blocks', 'src/main_grammar.cpp: check_code_block_impl'), ('nested blocks', 'src/main_grammar.cpp: start_blocks_impl, start_nested_blocks_impl, end_blocks_impl, clear_stack'), ('columns', 'src/main_grammar.cpp: indent_length'), ('output', 'src/actions.cpp: state::start_list, end_list, start_list_item, end_list_item')],
     ['the BoostBook written for a document'],
     state=[('list_stack', 'the blocks and lists that are open', 'src/main_grammar.cpp: main_grammar_local'), ('list_indent', 'the column of the item before', 'src/main_grammar.cpp: main_grammar_local')],
     note='That the Spirit grammar calls these actions at the starts of lines and around blocks, is trusted by the proofs and exercised by the bounded run, which drives the whole program; what start_list etc. write is proved, with the markup of a paragraph as an uninterpreted text. The error count is assumed to stay below 2^31.')

prop('C21', 'Templates expand with the names of the right scope and their arguments in order',
     'A name in the body of a template means: the argument of that call if it is one of its parameters; otherwise, for templates written in quickbook 1.5 or later, the template which the name means where the template was defined (nested definitions see the call they are in), and, for 1.4 and earlier, the one it means where the call is. The text of an argument is read where the call is (1.5+). When a call is over, every name means again what it meant before, and nothing that was defined in the body stays. A second definition of a name in the same scope is an error and changes nothing. Arguments are separated by "..", which counts outside of square brackets; if there is only one (1.5+; in 1.4 and earlier also the last of several) and more parameters, it is divided at white space - in 1.5+ only at white space outside of square brackets which is not escaped with a backslash - into at most as many as there are parameters, the last one keeping the rest; then a number of arguments that is not the number of parameters is reported as an error, as are two parameters of one name and a nesting of more than 100 calls.',
     'all documents: any nesting of definitions, calls and arguments, all versions, all names', 'The tests call a few templates with a few arguments; which definition a name means depends on the whole history of definitions and on the chain of calls around it.',
     ['src/template_stack.cpp', 'src/template_stack.hpp', 'src/actions.cpp'], [('scopes', 'src/template_stack.cpp: push, pop, find, add, start_template'), ('arguments', 'src/actions.cpp: find_first_seperator, find_seperator, break_arguments, get_arguments'), ('calls', 'src/actions.cpp: do_template_action, call_template, template_body_action')],
     ['the output of a document', 'the errors reported'],
     state=[('scopes', 'the templates defined so far, innermost scope first', 'src/template_stack.hpp: template_stack'), ('parent_scope', 'where the names of a scope are looked up next', 'src/template_stack.hpp: template_scope'), ('parent_1_4', 'the same for quickbook 1.4', 'src/template_stack.hpp: template_stack, template_scope')],
     note='The order in which call_template uses these functions and the reading of the bodies by the Spirit grammar are exercised by the bounded run.')

prop('C22', 'What a template call, an included or an imported file changes ends with it',
     'After a template call the macros, the source mode, the names of templates, the version of the language, the current file, the minimum section level and the depth of calls are what they were before it, whatever its body does, and also if it fails to expand; the body is read with the version and as part of the file it was written in, with the macros and the source mode of the call, and (before 1.7) its output is collected on its own and put in the place of the call. After an included or imported file, the current file, its path, the name __FILENAME__ expands to, the version, the place for xincludes and (1.6 and later) the source mode are what they were; an included file leaves none of its macros and (1.6 and later) none of its templates behind; an imported one leaves its templates and macros and writes nothing. The same holds for the state if the file cannot be read. The language of a piece of code is the one that was set last among the file, the section, the source mode elements and the language given for the piece of text it is in; a language given for a piece of text ends with it.',
     'all documents: any nesting of calls, includes and imports, any history of definitions, all versions', 'The golden tests include a handful of files; what must be restored depends on what the nested text changes, and every new field of the state is another thing to forget.',
     ['src/state.cpp', 'src/state_save.hpp', 'src/actions.cpp'], [('saving and restoring', 'src/state.cpp: state_save, ~state_save, push_output, pop_output'), ('calls', 'src/actions.cpp: call_template, parse_template'), ('files', 'src/actions.cpp: load_quickbook'), ('source modes', 'src/state.cpp: current_source_mode, tagged_source_mode, change_source_mode, push_tagged_source_mode, pop_tagged_source_mode'), ('file name', 'src/state.cpp: update_filename_macro')],
     ['the output of a document'],
     state=[('macro', 'the macros', 'src/state.hpp: state'), ('templates', 'the scopes of templates', 'src/state.hpp: state'), ('source_mode', 'the language set last, with when it was set', 'src/state.hpp: state'), ('qbk_version_n', 'the version of the language', 'src/quickbook.cpp')],
     note='That parsing a nested text with the Spirit grammar changes only definitions, source modes and the end of the output is the induction hypothesis of the proofs (its own actions are call_template, load_quickbook and the like) and is exercised by the bounded run, which drives the whole program.')
prop('C23', 'Code is shown exactly as it was written',
     'The text of every piece of code in the output - inline, indented or marked, in C++, python or teletype, whether or not it makes sense in that language - is the text of the document, every character once and in order with its white space (a block without the indentation common to its lines); only escaped text, macros and, in blocks, callouts are replaced, by what they stand for. The markup of tokens is balanced and does not reach out of the code, the paragraphs around the code keep their text and their place, a block is its own programlisting and inline code stays inside its paragraph; the language is the one set for this element, or else the current one, and setting it for one element affects that element only. Callouts are numbered marks in the code with one entry each, in the same order, in the list after it.',
     'all code, including code that is not valid in its language, unfinished strings and comments and characters that are no part of the language; all versions and all contexts', 'The golden tests highlight a few files; every token class, unfinished token, unexpected character, escape and combination of them is another path through the grammars.',
     ['src/syntax_highlight.cpp', 'src/actions.cpp', 'src/utils.cpp', 'src/state.cpp'], [('tokens', 'src/syntax_highlight.cpp: syntax_highlight_actions, cpp_highlight, python_highlight, teletype_highlight'), ('elements', 'src/actions.cpp: code_action'), ('callouts', 'src/actions.cpp: start_callouts, add_callout, end_callouts')],
     ['the output of a document'],
     note='Which characters belong to a token is decided by the Spirit grammars, which are outside the reach of the verifier: that every character reaches exactly one of the actions under contract is checked by the bounded run of the whole program.')
prop('C24', 'The exit status tells whether the document was read without errors and written completely',
     'quickbook exits with status 0 only if the whole document, with every file it includes, was read to its end without any error and the whole output - the XML file, the HTML file or every HTML page - was opened, written and stored; any error in the document, an included or imported file, a template, the options, the conversion to HTML or the writing of the output gives another status (as another process sees it: eight bits of it are not all zero). When the document has errors, the earlier output file is left as it was; XML which cannot be pretty-printed is still written, and counts as an error. Warnings alone do not change the status, and --expect-errors exchanges the two answers.',
     'all documents, options and output formats, and every failure of opening, writing or storing the output', 'A failing write, an error deep in an included file or a count that is lost in between shows only with exactly that failure; build systems rely on the status alone.',
     ['src/quickbook.cpp', 'src/bb2html.cpp', 'src/actions.cpp', 'src/doc_info_actions.cpp'], [('reading and writing', 'src/quickbook.cpp: set_macros, parse_file, parse_document'), ('pages', 'src/bb2html.cpp: write_file, boostbook_to_html'), ('counting', 'src/actions.cpp, src/doc_info_actions.cpp: every use of error_count')],
     ['the exit status, the messages and the output files'],
     note='That every action which reports an error also counts it is checked by the bounded run of the whole program; what is proved is what parse_file, parse_document and write_file do with the counts, the streams and the exceptions.')
