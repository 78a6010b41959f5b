import os
"""Property id -> units, root functions, search harness."""
TRUSTED = {
    'slice_len_bound': 'an object is smaller than the 2^47 byte x86-64 user address space',
    'vec_len_bound': 'a std::string is smaller than the 2^47 byte x86-64 user address space',
}
for _t in 'i8 u8 i32 u32 i64 usize bool'.split():
    TRUSTED['uninit_' + _t] = 'an uninitialised local has an arbitrary value'
TRUSTED_GENERAL = [
    'Verus and Z3', 'clang 18 front end (the AST the extractor reads)', 'vq/trans.py + vq/lib.py: the extractor and the library-call table',
    'vq/prelude.rs: the contracts given to C++ library operations are the C++ meaning (their Rust bodies are verified, the correspondence is trusted)',
]
ASSUMPTIONS = [
    'x86-64 gcc data model: 8-bit signed char, 32-bit int, 64-bit size_t',
    'unsigned arithmetic wraps as in C++; signed arithmetic is checked not to overflow',
    'memory allocation does not fail', '"C" locale for <cctype>',
]
PROPS = {}


def prop(pid, title, units, harness, **kw):
    PROPS[pid] = dict(title=title, units=units, harness=harness, **kw)


G = dict(src='glob.cpp', repo=['src/glob.cpp'], secs=8)
prop('C01', 'glob matching', [('glob', ['glob'])], dict(G, rule='all patterns/names over a small alphabet, then random patterns from pieces with names derived from them'))
prop('C02', 'glob validation', [('glob', ['check_glob'])], dict(G, rule='all strings over a small alphabet, then random sequences of pattern pieces'))
prop('C03', 'literal prefix', [('glob', ['find_glob_char', 'glob_unescape'])], dict(G, rule='all strings over a small alphabet, then random sequences of pattern pieces'))

U = dict(src='utils.cpp', repo=['src/utils.cpp', 'src/html_printer.cpp'], secs=8)
R1 = 'all texts over a small alphabet, then random texts from pieces and from all byte values'
prop('C04', 'XML escaping', [('utils', ['encode_string', 'print_char', 'print_string', 'lemma_esc_roundtrip', 'lemma_esc_no_markup']), ('html', ['tag_start', 'tag_end', 'tag_end_self_close', 'open_tag', 'close_tag', 'tag_attribute'])], dict(U, rule=R1))
prop('C05', 'URI escaping', [('utils', ['escape_uri', 'partially_escape_uri', 'lemma_uri_chars', 'lemma_pct'])], dict(U, rule=R1))
prop('C06', 'identifiers from titles', [('utils', ['make_identifier'])], dict(U, rule=R1))
prop('C07', 'numeric character references', [('utils', ['xml_decode_grammar_append_escaped_char'])], dict(U, rule='decimal and hexadecimal references to all code points below 0x11100, the limits of the encoding, then random 32-bit values'))

F = dict(src='files.cpp', repo=['src/files.cpp'], libs=['-lboost_filesystem', '-lboost_system'], secs=8)
prop('C08', 'loading files', [('files', ['normalize', 'check_bom', 'read_bom', 'lemma_nl_normal', 'lemma_nl_idempotent'])],
     dict(F, rule='scratch files with all byte strings over small alphabets (newlines, byte order marks), then random contents'))
prop('C09', 'line and column', [('files', ['relative_position', 'lemma_newlines'])], dict(F, rule='every position of all texts over a small alphabet, then of random texts'))
prop('C10', 'positions in mapped files', [('mapped', ['builder_add', 'mapped_file_builder_add_at_pos', 'builder_add_range', 'builder_add_all', 'mapped_file_find_section', 'mapped_file_to_original_pos', 'mapped_file_position_of', 'file_position_of', 'mapped_file_builder_get_pos', 'mapped_file_builder_empty', 'mapped_file_add_indented_mapped_file_section', 'mapped_file_builder_unindent_and_add', 'indentation_count'])],
     dict(F, rule='random sequences of builder operations (copied, generated and unindented text, parts of other builders) on random sources; the position of every character and of the end'))

SHIM = ['-include', 'boost/core/invoke_swap.hpp']
I = dict(src='ids.cpp', repo=['src/id_generation.cpp', 'src/id_xml.cpp', 'src/document_state.cpp', 'src/values.cpp', 'src/utils.cpp', 'src/files.cpp'], flags=SHIM, libs=['-lboost_filesystem', '-lboost_system'], secs=8)
prop('C11', 'normalised ids', [('idnorm', ['normalize_id', 'normalize_id_size', 'lemma_norm_id'])], dict(I, rule='all texts over {_,a} (and {_,a,.}) with all maximum sizes, then random texts'))
prop('C12', 'ids replaced only where they are ids', [('idxml', ['xml_processor_new', 'xml_processor_parse', 'lemma_id_values']), ('ids', ['replace_ids', 'document_state_impl_get_placeholder', 'document_state_impl_add_placeholder', 'id_placeholder_new', 'id_placeholder_to_string', 'lemma_ph_of', 'lemma_replaced_none'])],
     dict(I, rule='all short texts over markup characters, then random documents of markup pieces with random placeholders'))
prop('C13', 'unique ids', [('ids', ['generate_ids', 'id_placeholder_new', 'document_state_impl_add_placeholder', 'lemma_less']), ('idnorm', ['normalize_id_size']), ('idxml', ['xml_processor_new', 'xml_processor_parse'])],
     dict(I, rule='random sets of placeholders (clashing ids, long ids, ids ending in digits, all categories, random parents; up to 300) mentioned by random documents'))
prop('C14', 'links in titles', [('idxml', ['linkify'])], dict(I, rule='all short texts over markup characters, then random titles from markup pieces'))
for _n, _r in {
    'StrMap': 'boost::unordered_map<std::string, T const*> as a mathematical map', 'StrMap_View_view': 'boost::unordered_map as a mathematical map',
    'empty': 'an empty unordered_map', 'emplace': 'unordered_map::emplace inserts only when the key is new', 'get': 'unordered_map lookup', 'put': 'assignment through an unordered_map iterator',
    'view': 'the mathematical value of a library object', 'generate_id_block_type_generate_id_L1': 'as generate_id', 'generate_id_block_type_generate_id_L2': 'as generate_id', 'generate_id_block_type_generate_id_L3': 'as generate_id',
    'parse_u32': 'boost::lexical_cast<unsigned> is a function of the text', 'axiom_parse_u32': 'lexical_cast<unsigned> reads back the decimal text of a number', 'lexical_cast_u32': 'boost::lexical_cast<unsigned> throws on texts it cannot read',
    'sort_placeholders': 'boost::sort returns a sorted permutation (its strict weak order requirement is lemma_less)', 'vec_str_sort': 'boost::sort returns a permutation',
    'generate_id_block_type_generate_id': 'termination of the search for a free number is not proved (each id tried is different and finitely many are taken)',
}.items():
    TRUSTED[_n] = _r
prop('C15', 'ids qualified by what encloses them', [('sections', ['document_state_impl_start_file', 'document_state_impl_end_file', 'document_state_impl_begin_section', 'document_state_impl_end_section', 'document_state_impl_add_id', 'document_state_impl_old_style_id',
     'document_state_add_id', 'document_state_add_anchor', 'document_state_begin_section', 'document_state_end_section', 'document_state_section_level', 'document_state_compatibility_version', 'lemma_path', 'lemma_id_path', 'lemma_balanced']), ('idnorm', ['normalize_id'])],
     dict(I, src='sections.cpp', rule='random histories of files (with and without docinfo block, all versions, mixed), sections, ids and anchors'))
for _n, _r in {
    'Value': 'quickbook::value is opaque', 'value_checks': 'value::check is a function of the value', 'value_empty': 'value::empty is a function of the value', 'value_text': 'value::get_quickbook is a function of the value',
    'value_check_': 'value::check', 'value_empty_': 'value::empty', 'value_quickbook_': 'value::get_quickbook does not throw for the title of a document (a quickbook string)', 'Value_clone': 'copies of a value are equal',
    'Value_uninit': 'a value about to be assigned', 'value_none_': 'quickbook::empty_value',
}.items():
    TRUSTED[_n] = _r

LIBS = ['-lboost_filesystem', '-lboost_system']
X = dict(src='xmltree.cpp', repo=['src/' + f + '.cpp' for f in 'tree xml_parse utils stream files path native_text'.split()], flags=SHIM, libs=LIBS, secs=8)
prop('C16', 'trees and their builder', [('tree', ['tree_node_base_add_before', 'tree_node_base_add_after', 'tree_node_base_add_first_child', 'tree_node_base_add_last_child', 'tree_base_extract', 'tree_base_move', 'tree_builder_base_new',
     'tree_builder_base_move', 'tree_builder_base_assign', 'tree_builder_base_release', 'tree_builder_base_add_element', 'tree_builder_base_start_children', 'tree_builder_base_end_children', 'tree_builder_base_extract'])],
     dict(X, rule='random histories of building trees and moving parts of them, compared with an ordinary ordered tree after every step; the number of live nodes'))
prop('C17', 'reading BoostBook', [('xmlparse', ['xml_parse', 'read_tag', 'read_close_tag', 'read_tag_name', 'read_attribute_value', 'read_string', 'skip_question_mark_tag', 'skip_exclamation_mark_tag', 'xml_element_set_attribute', 'xml_element_text_node', 'xml_element_node', 'read_to'])],
     dict(X, rule='all short texts over five alphabets of markup characters, alone and inside tags, then random documents, some with one mistake'))
TRUSTED['x_decoded'] = 'decode_string is a function of the text (its grammar is run by Spirit)'
TRUSTED['decode_string_'] = 'decode_string is a function of the text (its grammar is run by Spirit)'
prop('C18', 'links between pages', [('links', ['relative_path_from_url_paths', 'is_absolute_url', 'get_link_from_path', 'lemma_climb', 'lemma_last'])],
     dict(src='links.cpp', repo=['src/' + f + '.cpp' for f in 'bb2html boostbook_chunker files html_printer path post_process stream utils xml_parse tree native_text'.split()], flags=SHIM, libs=LIBS, secs=8,
          rule='all pairs of short paths, random paths; every link of the pages generated from random nested documents is followed'))
for _n in ('pou_join', 'join', 'pou_relative', 'relative_path_or_url'):
    TRUSTED[_n] = 'path_or_url and relative_path_or_url give some function of their arguments (used for boost: links with a given boost root only)'
prop('C19', 'pretty printing', [('tidy', ['print_char', 'print_range', 'pretty_printer_pretty_printer', 'pretty_printer_print_tag', 'pretty_printer_align_indent', 'pretty_printer_break_line', 'pretty_printer_line_is_empty'] + ['tidy_grammar_do_' + f for f in 'escape escape_post code tag start_tag start_end_tag content end_tag'.split()] + ['lemma_printed', 'lemma_ns_code'])],
     dict(src='tidy.cpp', repo=['src/post_process.cpp'], secs=8,
          rule='paragraphs of every length around the line width; random documents of block and inline elements, text, code, escapes, comments and processing instructions with random widths and indentations; damaged documents'))
# the whole program, for the properties which hold between its parts
def whole(**kw):
    import glob
    return dict(kw, repo=sorted('src/' + os.path.basename(p) for p in glob.glob(os.environ.get('VQ_REPO', '/repo') + '/src/*.cpp')), flags=SHIM + ['-Dmain=quickbook_main', '-fno-sanitize=bool'], libs=['-lboost_program_options'] + LIBS)
for _n, _t in {'start_list': 'start of a list', 'end_list': 'end of a list', 'start_list_item': 'start of an item', 'end_list_item': 'end of an item'}.items():
    TRUSTED['state_' + _n] = 'writes the %s: an event here; unit scope proves what it does to the texts' % _t
prop('C20', 'lists', [('lists', ['main_grammar_local_' + f for f in 'start_blocks_impl start_nested_blocks_impl end_blocks_impl check_indentation_impl check_code_block_impl plain_block list_block clear_stack'.split()] + ['indent_length', 'lemma_lists_open']),
                        ('scope', ['state_start_list', 'state_end_list', 'state_start_list_item', 'state_end_list_item', 'write_anchors', 'write_paragraph', 'phrase_end', 'explicit_list'])],
     whole(src='lists.cpp', secs=12, rule='random documents of list items, paragraphs, code, block elements and explicit lists at random indentations (spaces and tabs), quickbook 1.4 to 1.7: the place of every word in the output'))

for _n, _r in {'file_version': 'file::version gives a number which depends on the file only', 's_file_version': 'file::version gives a number which depends on the file only',
               'qbk_version': 'the version number is not changed while arguments are taken apart', 's_qbk_version': 'the version number is not changed while arguments are taken apart',
               'c_str': 'std::string::c_str: the text up to its first NUL', 'SymTab': 'boost::spirit::classic::symbols: a map from texts to templates', 'symtab_new': 'an empty boost::spirit::classic::symbols',
               'symtab_find': 'boost::spirit::classic::find of a whole name', 'symtab_add': 'boost::spirit::classic::add of a new name; templates added before stay where they are', 'view': 'the map a symbol table stands for'}.items():
    TRUSTED[_n] = _r
prop('C21', 'templates', [('tmpl', ['template_stack_' + f for f in 'push pop start_template find add'.split()] + ['find_first_seperator', 'find_seperator', 'break_arguments', 'get_arguments', 'lemma_call', 'lemma_return', 'lemma_dynamic'])],
     whole(src='templates.cpp', secs=12, rule='random documents of phrase and block templates, quickbook 1.4 to 1.7, with nested definitions, shadowed names and arguments separated by .. or by space, compared with an interpretation of the templates; documents with errors'))

for _n, _r in {'Macros': 'boost::spirit::classic::symbols of macros: a map from names to texts', 'macros_new': 'an empty boost::spirit::classic::symbols', 'Macros_clone': 'assignment of boost::spirit::classic::symbols copies the map', 'macro_set': 'assignment through boost::spirit::classic::find',
               'vals_save': 'value_builder::save keeps what has been parsed so far (a depth here)', 'vals_restore': 'value_builder::restore brings back what was saved last',
               'path_text': 'path_to_generic is a function of the path', 's_path_text': 'path_to_generic is a function of the path', 'encoded': 'detail::encode_string is a function of the text (see C04)', 's_encoded': 'detail::encode_string is a function of the text (see C04)',
               'load_file': 'quickbook::load gives the file of a path or throws', 's_file_at': 'quickbook::load gives the file of a path or throws',
               'doc_section_source_mode': 'document_state::section_source_mode is a function of the document and the file', 's_section_mode': 'document_state::section_source_mode is a function of the document and the file',
               'qv_is_encoded': 'value::is_encoded is a function of the value', 's_is_encoded': 'value::is_encoded is a function of the value', 'qv_get_encoded': 'value::get_encoded gives some text',
               's_pre': 'detail::get_markup is a function of the tag', 's_post': 'detail::get_markup is a function of the tag', 'markup_pre': 'detail::get_markup is a function of the tag', 'markup_post': 'detail::get_markup is a function of the tag',
               'run_grammar': 'induction hypothesis: parsing a text (its grammar is run by Spirit) leaves definitions, text at the end of the output and source modes, and nothing else', 'parse_file': 'induction hypothesis: as run_grammar, for a file (also its version and xinclude base)'}.items():
    TRUSTED[_n] = _r
prop('C22', 'scopes', [('scope', ['state_' + f for f in 'save_state_save save_dtor update_filename_macro get_new_order_pos push_output pop_output tagged_source_mode current_source_mode change_source_mode push_tagged_source_mode pop_tagged_source_mode'.split()]
     + ['parse_template', 'call_template', 'load_quickbook', 'write_anchors', 'write_paragraph', 'lemma_latest', 'lemma_mode_set', 'lemma_mode_tagged'])],
     whole(src='scope.cpp', secs=12, rule='random sets of files of macros, templates, source modes and code, included and imported from paragraphs and from template bodies, quickbook 1.4 to 1.7, compared with a direct interpretation'))

for _n, _r in {'run_code': 'the Spirit grammars of the languages of code write a text to the phrase, which depends on the language, the code, the file and the state, and change no other text (what they write is made by the functions under contract; bounded run)',
               's_coded': 'the text a grammar of code writes is a function of the language, the code and the state', 'file_snippets': 'is_code_snippets is a function of the file', 's_snippets': 'is_code_snippets is a function of the file',
               'mapped_release': 'the unindented text of a block of code is a file of its own (what it holds is proved in C10)', 's_unindented': 'the unindented text of a block of code is a file of its own (what it holds is proved in C10)',
               'file_source': 'file::source is a function of the file', 's_source': 'file::source is a function of the file', 'qv_first': 'value_consumer::consume gives the first part of a value', 's_qv_first': 'value_consumer::consume gives the first part of a value',
               'qv_text': 'value::get_quickbook gives the text of a value', 'end_callouts': 'state::end_callouts gives the list of callouts and changes no text that is being written (bounded run)', 's_callout_list': 'state::end_callouts gives the list of callouts'}.items():
    TRUSTED[_n] = _r
prop('C23', 'code', [('code', ['syntax_highlight_actions_' + f for f in 'span span_start span_end unexpected_char plain_char pre_escape_back post_escape_back syntax_highlight_actions'.split()] + ['syntax_highlight', 'code_action'])],
     whole(src='code.cpp', secs=12, rule='random code in C++, python and teletype, as indented, marked and inline code, quickbook 1.4 to 1.7, of tokens and of any characters, with escapes, macros and callouts: the text shown, the markup around it and the lists of callouts'))

for _n, _r in {'path_is_empty': 'boost::filesystem::path::empty is a function of the path', 's_path_empty': 'boost::filesystem::path::empty is a function of the path', 'path_parent': 'boost::filesystem::path::parent_path is a function of the path', 's_path_parent': 'boost::filesystem::path::parent_path is a function of the path',
               'path_join': 'boost::filesystem: joining paths is a function of both', 's_path_join': 'boost::filesystem: joining paths is a function of both', 'text_path': 'generic_to_path is a function of the text', 's_text_path': 'generic_to_path is a function of the text',
               'path_exists': 'boost::filesystem::exists: any answer', 'create_dirs': 'boost::filesystem::create_directories: may throw; writes no file',
               'of_open': 'an ofstream names one file, which is emptied when it could be opened', 'of_write': 'operator<< of an ofstream adds the text, or the stream has failed', 'of_close': 'close() of an ofstream: what has been written is stored when the stream has not failed (the operating system reports no error later)',
               'write_deps': 'dependency_tracker::write_dependencies writes the file it is given, or throws', 'document_text': 'the text of the output of the state', 'post_process': 'quickbook::post_process is a function of the text and its options, or throws (C19)', 's_pretty': 'quickbook::post_process is a function of the text and its options (C19)',
               'write_html': 'boostbook_to_html returns the number of its errors, 0 only when every page was written: write_file is proved to count every page which was not', 'state_new': 'a new state has no errors', 'preset_defines': 'the macros of the command line',
               'run_document': 'induction hypothesis: parsing a text (its grammar is run by Spirit) counts every error it reports, and there are fewer than 2^31 of them (bounded run)', 'document_pre': 'pre counts every error it reports, or throws (bounded run)', 'document_post': 'post counts every error it reports, or throws (bounded run)'}.items():
    TRUSTED[_n] = _r
prop('C24', 'status', [('program', ['set_macros', 'parse_file', 'parse_document']), ('htmlout', ['write_file'])],
     whole(src='status.cpp', secs=15, rule='random documents in order, with one of 23 kinds of mistakes in the document, an included file, a template, a section, a callout or its header, with wrong options, with output which cannot be written, markup which cannot be printed or converted, and with warnings only; XML, HTML in one file and in many; the exit status and what is in the output'))
