"""The properties: the source of properties.jsonl and of MANIFEST.json.

Run 'python3 tools/spec.py' to write both files."""
import json
import pathlib

VERIF = pathlib.Path(__file__).resolve().parent.parent
PROPS = []
NOT_APPLICABLE = []


def prop(id, title, statement, over, text, why, files, mechanism, technique,
         note, state=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over,
                      text=text, why=why, files=files, mechanism=mechanism,
                      technique=technique, note=note, state=state,
                      observe=observe))


S = 'src/disseminate/'

prop('P01', 'Markup parses to exactly the tags that were written',
     'Loading a document yields exactly the tree of tags, attributes and text '
     'that was written: tag names are recognised in any letter case and under '
     'all aliases, unknown names give generic tags, tags without contents and '
     'lone @ signs and balanced braces are kept, and the text between tags is '
     'unchanged. A tag whose braces are not closed is reported as a tag error '
     'and is never silently accepted.',
     ['inputs'], 'for every tree of tags with attributes, braces and text, '
     'below the nesting limit of 10 braces',
     'The parser is a regular expression driven brace matcher over the cross '
     'product of names, attribute strings, nesting and surrounding '
     'characters; the tests use about twenty fixed strings.',
     [S + 'tags/receivers/content.py', S + 'tags/tag.py',
      S + 'tags/tag.py', S + 'attributes/attributes.py'],
     [dict(name='parse_tags', where=S + 'tags/receivers/content.py'),
      dict(name='TagFactory.tag', where=S + 'tags/tag.py')],
     'Property-based testing: round trip of random tag trees through the '
     'document loader against the generated tree; truncation fuzzing for the '
     'error half',
     'Random search; the oracle is the generated tree itself.',
     observe=['document body tag tree'])

prop('P03', 'html and xhtml are well formed, escaped and mirror the source',
     'The html and xhtml of a document parse (strictly, for xhtml) to exactly '
     'the elements, allowed attributes and text of its tags, nested and '
     'ordered as in the source. Text and attribute values are escaped so that '
     'they come back character by character (up to whitespace), and '
     'attributes that are not allowed on an element never appear.',
     ['inputs'], 'for every document of paragraphs, formatting and unknown '
     'tags with attributes, symbols, code, verbatim, boxes and headings',
     'Escaping, element creation and attribute filtering interact with every '
     'nesting of tags and every character; the tests compare a few strings.',
     [S + 'formats/xhtml.py', S + 'tags/tag.py', S + 'tags/text.py',
      S + 'attributes/attributes.py', S + 'tags/code.py', S + 'tags/featurebox.py'],
     [dict(name='xhtml_tag', where=S + 'formats/xhtml.py'),
      dict(name='Tag.html_fmt', where=S + 'tags/tag.py'),
      dict(name='html_tags/html_attributes allow lists',
           where=S + 'formats/xhtml.py')],
     'Property-based testing against a reference DOM: independent html and '
     'strict xml parsers read the rendered document and the trees are '
     'compared',
     'Random search; whitespace is ignored in the comparison because the '
     'renderer may indent elements.')

prop('P02', 'No target drops, duplicates or reorders the text of the source',
     'The text of a document rendered to txt, html and xhtml is, once '
     'element tags and whitespace are removed, exactly the text written in '
     'the source, in the same order and exactly once; tex shows the same '
     'text pieces in the same order. Formatting, unknown tags, boxes, code '
     'and headings never lose or repeat what they wrap.',
     ['inputs'], 'for every document of nested formatting, unknown tags, '
     'symbols, code, verbatim, boxes and headings',
     'Loss depends on how tags nest and where text stands between them; a '
     'test fixes a handful of nestings.',
     [S + 'tags/tag.py', S + 'tags/text.py', S + 'tags/utils.py',
      S + 'tags/receivers/paragraphs.py'],
     [dict(name='Tag.default_fmt/html_fmt/tex_fmt', where=S + 'tags/tag.py'),
      dict(name='content_to_str', where=S + 'tags/utils.py')],
     'Property-based testing: text conservation of random documents in all '
     'targets',
     'Random search; whitespace is not compared.')

prop('P04', 'tex mirrors the tags and has balanced groups and environments',
     'The tex of a document has, for each tag, the documented command around '
     'the tex of its contents, in source order and with all text kept, so '
     'that braces and environments always balance. Equations are rendered '
     'with every nested formatting command in math form, and an equation in '
     'an environment that is not allowed is refused with a format error.',
     ['inputs'], 'for every document of formatting, unknown tags, symbols, '
     'code, verbatim, boxes, headings and equations',
     'Commands, environments and math mode interact over every nesting of '
     'tags; a broken group only shows when LaTeX runs.',
     [S + 'formats/tex.py', S + 'tags/eqs.py', S + 'tags/tag.py',
      S + 'tags/text.py'],
     [dict(name='tex_cmd/tex_env', where=S + 'formats/tex.py'),
      dict(name='Eq', where=S + 'tags/eqs.py')],
     'Property-based testing against a reference tex rendering, with a brace '
     'and environment matcher',
     'Random search; whitespace outside of verbatim text is ignored.')

prop('P05', 'The contents of code and verbatim tags are shown literally',
     'Whatever is written in a code or verbatim tag (markup, tags, quotes, '
     'dashes, braces, entities, spaces and newlines) is shown unchanged, '
     'character by character, in every target, wherever the tag stands. Code '
     'loaded from a file and highlighted code keep their text as well, and '
     'blocks are highlighted as code of the language of their tag.',
     ['inputs'], 'for every contents with balanced braces, every code and '
     'verbatim tag name and every surrounding tag',
     'Parsing, macros, typography, paragraphs and escaping each may touch '
     'the contents, depending on what they are and where the tag is.',
     [S + 'tags/code.py', S + 'tags/text.py',
      S + 'tags/receivers/content.py', S + 'tags/receivers/typography.py'],
     [dict(name='Code', where=S + 'tags/code.py'),
      dict(name='Verb', where=S + 'tags/text.py')],
     'Property-based testing: round trip of random literal text through all '
     'targets',
     'Random search; names of macros in the contents are a known finding.')

prop('P06', 'Typographic substitution follows its rules and nothing else',
     'Straight apostrophes and quotes and double and triple hyphens in text '
     'become the documented typographic characters (or entities and '
     'ligatures of the target) according to their neighbours, and every '
     'other character is unchanged. Code, verbatim, attributes and equations '
     'are never substituted.',
     ['inputs'], 'for every text of letters, spaces, punctuation, quotes and '
     'hyphens in every kind of tag',
     'Each substitution depends on both neighbours, on other substitutions '
     'and on the tag; the combinations are unbounded.',
     [S + 'tags/receivers/typography.py', S + 'tags/text.py'],
     [dict(name='process_typography',
           where=S + 'tags/receivers/typography.py')],
     'Property-based testing against a reference scanner',
     'Random search.')

prop('P07', 'Paragraphs are exactly the groups separated by blank lines',
     'Text and inline tags separated by blank lines form one paragraph each, '
     'single newlines never split one, and blank lines inside of a tag never '
     'split it. Tags that are not part of paragraphs stay outside, code tags '
     'alone in a paragraph are blocks, and no text is lost.',
     ['inputs'], 'for every sequence of text, newlines, blank lines, inline '
     'tags, code and block tags',
     'The grouping depends on the whole sequence of strings and tags and on '
     'the whitespace at each border.',
     [S + 'tags/receivers/paragraphs.py', S + 'tags/text.py'],
     [dict(name='process_paragraphs',
           where=S + 'tags/receivers/paragraphs.py')],
     'Property-based testing against a reference grouping',
     'Random search.')

prop('P08', 'Lists keep the order, text and nesting of their items',
     'A list shows exactly the items written, in order, each with its tags '
     'and text, nested by their indentation in html, xhtml and tex. Blank '
     'lines, continuation lines and the kind of bullet do not change the '
     'items.',
     ['inputs'], 'for every list of items at any indentation with inline '
     'tags, continuation lines and blank lines',
     'Levels are inferred from indentation relative to earlier items, over '
     'strings broken up by tags.',
     [S + 'tags/list.py'],
     [dict(name='parse_list', where=S + 'tags/list.py'),
      dict(name='clean_list', where=S + 'tags/list.py')],
     'Property-based testing against the generated nesting',
     'Random search; indents that skip levels are only checked for order and '
     'text.')

prop('P09', 'Tables show exactly the rows and columns of their data',
     'A table shows, in html, xhtml and tex, exactly the header and rows of '
     'its data, each cell in its row and column with its tags rendered, '
     'whether the data are inline or in a file, comma or tab separated, with '
     'or without headers. Its caption is numbered and stands on the side on '
     'which it was written.',
     ['inputs'], 'for every rectangular data with any cells, layout and '
     'caption',
     'Cells may hold delimiters, newlines, tags and markup, and the layout '
     'of inline data varies freely.',
     [S + 'tags/data.py', S + 'tags/table.py', S + 'tags/caption.py'],
     [dict(name='DelimData.load', where=S + 'tags/data.py'),
      dict(name='BaseTable', where=S + 'tags/table.py')],
     'Property-based testing against the generated data',
     'Random search over rectangular data.')

prop('P10', 'A macro renders the same as the text it stands for',
     'Wherever a macro is used (text, tags, headings, lists, captions), every '
     'target renders the same as if the value of the macro had been written '
     'in its place, including macros in macros at any depth, macros of the '
     'default context and macros inherited from or overridden over parent '
     'documents. Macros that use themselves are loaded without hanging.',
     ['inputs'], 'for every set of macros and every use of them in text and '
     'tags',
     'Macros are replaced by name over text with any neighbours, and their '
     'values nest; the tests replace a few fixed names.',
     [S + 'tags/receivers/macros.py', S + 'context/utils.py'],
     [dict(name='replace_macros', where=S + 'tags/receivers/macros.py')],
     'Property-based testing: metamorphic relation between a document with '
     'macros and the same document with the values written out',
     'Random search; macro names in verbatim text are a known finding of '
     'P05.')

prop('P11', 'Headers are read exactly, and the rest is the body',
     'The entries of a document are exactly the ones written in the header '
     'between hyphen fences at its start, single line or indented over '
     'lines, with their text unchanged. Everything after the header is the '
     'body, and text which is not a header (not closed, not at the start, '
     'too short fences) stays in the body.',
     ['inputs'], 'for every header of entries with any text, indentation and '
     'fences, followed by any body',
     'Header values may hold colons, hyphens, quotes, blank lines and '
     'unicode, at any indentation.',
     [S + 'context/utils.py', S + 'context/context.py',
      S + 'document/receivers/process_headers.py'],
     [dict(name='load_from_string', where=S + 'context/utils.py'),
      dict(name='BaseContext.load', where=S + 'context/context.py')],
     'Property-based testing: round trip of generated headers',
     'Random search.')

prop('P12', 'Header entries are inherited and overridden along the tree',
     'Each entry of the context of a document comes from its own header, or '
     'else from the header of its nearest ancestor that sets it, or else '
     'from the template and the defaults; sets are replaced or extended and '
     'dictionaries merged as documented. Subdocuments never change the '
     'entries of their parents or siblings, and edits of headers are '
     'followed in all documents below.',
     ['inputs', 'histories'], 'for every tree of documents with any headers '
     'and templates, and every history of header edits',
     'Inheritance runs over trees, types of entries, templates and reloads, '
     'with shared mutable values.',
     [S + 'context/context.py', S + 'document/document.py'],
     [dict(name='BaseContext.match_update', where=S + 'context/context.py'),
      dict(name='BaseContext.reset', where=S + 'context/context.py')],
     'Property-based testing against a reference model of inheritance',
     'Random search.')

prop('P16', 'The document tree follows the includes through any history',
     'After any history of edits to the includes, contents and presence of '
     'the files of a project, the documents, their order, levels, labels and '
     'rendered text equal those of a fresh load of the same files, in the '
     'order of a depth first reading of the includes with each file loaded '
     'once. Cycles end, unreadable or missing files fail the load with an '
     'error, and repairing them recovers fully.',
     ['histories', 'fault_sequences'], 'for every include graph and every '
     'sequence of edits, errors and repairs',
     'Reloads reuse documents, contexts and labels of earlier loads, so '
     'results may depend on the whole history.',
     [S + 'document/document.py', S + 'label_manager/label_manager.py',
      S + 'utils/classes.py'],
     [dict(name='Document.load/load_subdocuments',
           where=S + 'document/document.py'),
      dict(name='LabelManager.register_labels',
           where=S + 'label_manager/label_manager.py')],
     'Stateful property-based testing against a reference traversal and a '
     'differential fresh load',
     'Random search.')

prop('P14', 'Headings, figures and tables are numbered in document order',
     'The number, title and anchor shown by every heading and caption, in '
     'every target, are those obtained by counting the labels of the whole '
     'project in reading order, with counters reset as label_resets says and '
     'texts composed as label_fmts says. This also holds after any edit of '
     'any document, and unlabelled headings are not counted.',
     ['inputs', 'histories'], 'for every tree of documents with headings, '
     'figures and tables, label_fmts and label_resets, and every edit',
     'Counters, titles and weak references of all documents are recomputed '
     'on each edit, so the result depends on the whole tree and its history.',
     [S + 'label_manager/register_orders.py',
      S + 'label_manager/types/content_label.py',
      S + 'label_manager/register_content_labels.py', S + 'tags/label.py',
      S + 'tags/headings.py', S + 'tags/caption.py', S + 'utils/classes.py'],
     [dict(name='register_orders', where=S + 'label_manager/register_orders.py'),
      dict(name='ContentLabel', where=S + 'label_manager/types/content_label.py'),
      dict(name='LabelMixin', where=S + 'tags/label.py')],
     'Stateful property-based testing against a reference numbering',
     'Random search; label_fmts are set in the root document (a known '
     'finding covers those of subdocuments).')

prop('P15', 'References show and link to the label they name',
     'A reference shows the text of the label with its id (that of the named '
     'document, else of its own document, else of the first one that has it) '
     'and its link leads to the file and anchor of that label, from any '
     'folder and in every target. References to unknown labels and labels '
     'defined twice in a document are reported as errors.',
     ['inputs', 'histories'], 'for every tree of documents in folders with '
     'labels and references between any of them, and every edit',
     'Ids, documents, folders, targets and label kinds combine; stale labels '
     'only appear after edits.',
     [S + 'tags/ref.py', S + 'label_manager/label_manager.py',
      S + 'formats/xhtml.py', S + 'formats/tex.py', S + 'tags/utils.py'],
     [dict(name='Ref', where=S + 'tags/ref.py'),
      dict(name='LabelManager.get_label',
           where=S + 'label_manager/label_manager.py')],
     'Stateful property-based testing against a reference label model, with '
     'the anchors searched for in the linked document',
     'Random search.')

prop('P22', 'Tables of contents list exactly the labels of the project',
     'A table of contents lists exactly the labels of its kinds (headings, '
     'documents, figures or tables, of its document or of all), each once, '
     'in reading order, nested by level, with the text and link of a '
     'reference. This holds after any edit of any document.',
     ['inputs', 'histories'], 'for every tree of documents, every kind of '
     'table of contents in bodies and headers, and every edit',
     'The nested lists are computed from levels that skip, rise and fall '
     'over several documents; tests use one fixed tree.',
     [S + 'tags/toc.py', S + 'label_manager/label_manager.py',
      S + 'formats/tex.py', S + 'utils/list.py'],
     [dict(name='Toc', where=S + 'tags/toc.py'),
      dict(name='construct_tree', where=S + 'tags/toc.py')],
     'Stateful property-based testing against a reference list of labels',
     'Random search; a known finding covers the collapsed modifier.')

prop('P17', 'An incremental build gives the files of a clean build',
     'After any history of edits of documents, images and data files, a build '
     'that starts from the outputs and records of earlier builds makes every '
     'file that a clean build of the same sources makes, with the same '
     'content (for html, tex, txt, xhtml and epub). This holds in an open '
     'session, in a new session and for outputs that were deleted.',
     ['histories', 'inputs'], 'for every project, every history of edits and '
     'builds, in the same or new sessions, and every set of targets',
     'A document depends on titles, numbers, labels, formats, images, data '
     'and templates of others; each missing dependency shows only after the '
     'right edit in the right order.',
     [S + 'builders/builder.py', S + 'builders/jinja_render.py',
      S + 'builders/deciders/md5decider.py', S + 'builders/xhtml2epub.py',
      S + 'builders/composite_builders/composite_builder.py',
      S + 'document/document.py'],
     [dict(name='Builder.build_needed', where=S + 'builders/builder.py'),
      dict(name='JinjaRender.additional_dependencies',
           where=S + 'builders/jinja_render.py'),
      dict(name='Document.load_required', where=S + 'document/document.py')],
     'Stateful property-based testing, differential against a clean build '
     'after each step', 'Random search; a known finding covers data files '
     'edited in an open session.')

prop('P20', 'Outputs are complete, confined and refer to files that exist',
     'A build makes the file of each document for each of its targets and no '
     'others, all within the target directory; every image, style sheet and '
     'source that an output refers to exists there with the right content. '
     'Different sources never overwrite each other.',
     ['inputs', 'configurations'], 'for every tree of documents, images and '
     'folders, every set of targets and every target directory',
     'File names are computed in several places from project paths, targets '
     'and parameters; collisions and broken links need particular trees.',
     [S + 'builders/copy.py', S + 'builders/utils.py', S + 'paths/paths.py',
      S + 'tags/img.py', S + 'builders/target_builders/target_builder.py'],
     [dict(name='generate_outfilepath', where=S + 'builders/utils.py'),
      dict(name='Copy', where=S + 'builders/copy.py')],
     'Property-based testing over project trees; the files on disk are '
     'compared with those expected from the sources, and the links of each '
     'output are followed', 'Random search within bounded trees.')

prop('P23', 'Next, previous and source links follow the order of the project',
     'The next and previous links of an output lead to the outputs of the '
     'neighbouring documents in the same format, with the text of their '
     'first heading, and are absent where there is none; links to the source '
     'and to other formats of a document lead to those files. They keep up '
     'with edits of the tree of documents.',
     ['inputs', 'histories'], 'for every tree of documents, every set of '
     'targets and every edit of either',
     'Links depend on the order of all documents and the targets each has; '
     'tests use two documents with the same targets.',
     [S + 'tags/navigation.py', S + 'label_manager/label_manager.py',
      S + 'document/document.py'],
     [dict(name='Next, Prev', where=S + 'tags/navigation.py')],
     'Stateful property-based testing against a model of the tree of '
     'documents', 'Random search within bounded trees.')

prop('P26', 'Converted files are whole conversions of their own source',
     'Every equation, diagram and image that needs conversion is shown as the '
     'whole result of its own chain of conversions with its own options, also '
     'when the same source is used by several documents and targets and '
     'whatever the timing of the programs. A build in which a program fails, '
     'is killed or leaves no file is not reported as done, and a later build '
     'completes it; the amount of output of a program does not matter.',
     ['schedules', 'fault_sequences', 'inputs'],
     'for every set of converted items, all interleavings of the programs and '
     'every program that fails at any place of a chain',
     'Builders run in a thread pool, share files and are polled; the tests '
     'convert one file at a time with programs that work.',
     [S + 'builders/builder.py', S + 'builders/executor.py',
      S + 'builders/jinja_render.py', S + 'builders/pdf2svg.py',
      S + 'builders/asy_builders.py', S + 'builders/svgrender.py',
      S + 'builders/composite_builders/sequential_builder.py',
      S + 'builders/composite_builders/parallel_builder.py',
      S + 'builders/deciders/md5decider.py', S + 'tags/eqs.py',
      S + 'tags/img.py'],
     [dict(name='Builder.status, Builder.run_cmd',
           where=S + 'builders/builder.py'),
      dict(name='SequentialBuilder',
           where=S + 'builders/composite_builders/sequential_builder.py')],
     'Fault injection and schedule fuzzing with property-based testing: '
     'stand-ins of the programs write the chain of conversions and are '
     'delayed, killed or failed at random; the chain in each shown file is '
     'compared to the one its source needs',
     'Random search; schedules are varied through the delays of the programs.')

prop('P13', 'Attributes are read as written and chosen by target',
     'The key/value and positional attributes of a tag are read exactly as '
     'they are written, with or without quotes and in their order. An '
     'attribute for a specific target is used for that target only, instead '
     'of the general one, and the output for a target is the same as if only '
     'its attributes had been written. Where a tag takes one positional '
     'attribute, the first that is written and fits is used.',
     ['inputs'], 'for every attribute string and every combination of general '
     'and target-specific attributes of the tags that use them',
     'Each tag reads, changes and filters attributes on its own; the tests '
     'have one or two attribute strings for each tag.',
     [S + 'attributes/attributes.py', S + 'tags/tag.py', S + 'tags/img.py',
      S + 'tags/figs.py', S + 'tags/table.py', S + 'tags/featurebox.py',
      S + 'tags/utils.py', S + 'formats/xhtml.py', S + 'formats/tex.py',
      S + 'utils/types.py'],
     [dict(name='Attributes.load', where=S + 'attributes/attributes.py'),
      dict(name='Attributes.filter', where=S + 'attributes/attributes.py')],
     'Property-based testing: round trip of generated attribute strings and '
     'look ups against a dict model; metamorphic comparison of documents with '
     'target-specific attributes to documents with plain ones',
     'Random search; ids with target endings and equations (always made with '
     'tex) are not generated.')

prop('P24', 'Figures, panels, tables and captions hold what was written',
     'Every figure, panel and captioned table is shown in all formats as an '
     'element of its own kind with exactly its images, panels, data, text and '
     'caption in the written order, with its label number, id and classes. '
     'Images and panels get the smallest of the available sizes that is not '
     'smaller than the width asked for, the same in html and tex.',
     ['inputs'], 'for every figure or table of images, panels, text and '
     'captions, and every width from 1% to 100%',
     'Sizes have gaps and edges and the parts of figures are reordered; tests '
     'use one width and one caption.',
     [S + 'tags/figs.py', S + 'tags/img.py', S + 'tags/caption.py',
      S + 'tags/table.py', S + 'tags/utils.py', S + 'formats/tex.py'],
     [dict(name='BaseFigure, Panel', where=S + 'tags/figs.py'),
      dict(name='tex_percentwidth, xhtml_percentwidth',
           where=S + 'tags/utils.py'),
      dict(name='Caption', where=S + 'tags/caption.py')],
     'Property-based testing against a reference tree (html, xhtml) and a '
     'reference sequence of commands (tex)',
     'Random search; widths above 100% are not generated.')

prop('P18', 'A build rewrites what an edit affects and nothing else',
     'A build without an edit, also in a new session, after new modification '
     'times of the sources, new unused files or edits that were undone, '
     'writes and removes no file. A build after an edit of a text, image or '
     'data file leaves the outputs alone of documents which do not show it.',
     ['histories', 'inputs'], 'for every project and every history of edits '
     'and builds in the same or new sessions',
     'Dependencies come from contents of the whole project, of the cache and '
     'of earlier builds; a test makes one build of one document.',
     [S + 'builders/deciders/md5decider.py', S + 'builders/jinja_render.py',
      S + 'builders/builder.py', S + 'builders/xhtml2epub.py',
      S + 'builders/copy.py', S + 'builders/composite_builders/'
      'composite_builder.py'],
     [dict(name='Md5Decision.build_needed',
           where=S + 'builders/deciders/md5decider.py'),
      dict(name='JinjaRender.additional_dependencies',
           where=S + 'builders/jinja_render.py')],
     'Stateful property-based testing: invariant over the inodes and '
     'modification times of the output and cache files in random histories',
     'Random search; formats without external converters.')

prop('P19', 'Absolute links follow the configured base url',
     'When the header of a document (or of its parents) asks for absolute '
     'links, all links between documents, images and style sheets of its html '
     'and xhtml files are the configured base url filled with the target and '
     'path of an existing file of the output. Other documents of the project '
     'keep relative links that lead to their files.',
     ['inputs', 'configurations'], 'for every project, base url and choice of '
     'documents with absolute links, and all names of files',
     'Links are made at several places for files with any name and in any '
     'folder; the tests check single paths with simple names.',
     [S + 'paths/paths.py', S + 'builders/jinja_render.py', S + 'tags/img.py',
      S + 'tags/ref.py', S + 'document/document_context.py'],
     [dict(name='TargetPath.get_url', where=S + 'paths/paths.py'),
      dict(name='rewrite_path', where=S + 'builders/jinja_render.py')],
     'Property-based testing: each link of a built project is inverted with '
     'the base url to a file and anchor of the output, images compared by '
     'bytes',
     'Random search; base urls without query parts.')

prop('P21', 'An epub is a complete and consistent package',
     'The epub of a project holds its documents, style sheets and images and '
     'nothing else, all listed once in its manifest with valid unique ids and '
     'types, in the reading order of the project after a table of contents '
     'with working links. All its files are well formed, links and anchors '
     'lead to files of the package, and title and layout are those of the '
     'header, also after edits and rebuilds.',
     ['inputs', 'histories'], 'for every project with any names of files, '
     'titles and images, and every history of edits and builds',
     'The package is made from names, titles and files of the whole project '
     'and history; tests check that single files are in the archive.',
     [S + 'builders/xhtml2epub.py',
      S + 'builders/target_builders/epub_builder.py',
      S + 'builders/jinja_render.py',
      S + 'templates/default/xhtml/content.opf',
      S + 'templates/default/xhtml/toc.xhtml',
      S + 'builders/scanners/html_scanner.py'],
     [dict(name='XHtml2Epub', where=S + 'builders/xhtml2epub.py'),
      dict(name='EpubBuilder',
           where=S + 'builders/target_builders/epub_builder.py')],
     'Stateful property-based testing: invariants of the unpacked epub (xml, '
     'manifest, reading order, links, bytes of images) against the generated '
     'project',
     'Random search; no epub validator is installed, so the rules of the '
     'format are checked by the harness.')

prop('P33', 'Outputs depend on the project only, not on where it is built',
     'The files made for a project are the same whatever the current '
     'directory, the place of the project, the process or other projects '
     'built with it, and whether paths are given as relative or absolute '
     'ones. Files named in documents are those of the project, even if the '
     'current directory has files with the same names.',
     ['configurations', 'inputs', 'schedules'], 'for every project and every '
     'current directory, place, process and interleaving with a second '
     'project',
     'Tests run in one directory and build one project at a time.',
     [S + 'paths/utils.py', S + 'paths/paths.py', S + 'builders/utils.py',
      S + 'builders/environment.py', S + 'builders/jinja_render.py',
      S + 'tags/img.py', S + 'tags/code.py', S + 'tags/data.py',
      S + 'document/document.py'],
     [dict(name='find_file', where=S + 'paths/utils.py'),
      dict(name='Environment', where=S + 'builders/environment.py')],
     'Property-based metamorphic testing: all output files compared between '
     'builds of the same project at different places, from directories with '
     'decoy files, interleaved with another project and in other processes',
     'Random search; one operating system and locale.')

prop('P34', 'Contexts take changes by type, reset and never share state',
     'Updates of a context change each entry by the type of its value, nested '
     'entries included, and inherit or reset exactly the entries which are '
     'meant to. No change of a context, or of a value given to it, ever shows '
     'in its parent, its siblings, its children or later contexts.',
     ['histories', 'inputs'], 'for every history of creations, updates, '
     'resets, copies and changes of a family of contexts with values of all '
     'types',
     'Aliasing of nested values shows only after particular sequences on '
     'several contexts; the tests change one value of one pair.',
     [S + 'context/context.py', S + 'utils/dict.py', S + 'utils/string.py',
      S + 'document/document_context.py'],
     [dict(name='BaseContext.match_update', where=S + 'context/context.py'),
      dict(name='BaseContext.reset', where=S + 'context/context.py')],
     'Model-based stateful testing: random histories compared to a reference '
     'model that copies everything',
     'Random search; up to five contexts and 14 operations.')

prop('P27', 'The build command makes the files of each project, and no others',
     'The build command finds the projects below the given folder (the topmost '
     'folders with documents, each document there being a root), and writes '
     'each target of each root and of its included documents to the output '
     'folder of the project, however the folder is given. Sources and other '
     'files stay as they are, and several projects for one output folder are '
     'an error which writes nothing.',
     ['configurations', 'inputs'], 'for every tree of folders and documents, '
     'and every way to name the folder and the output folder',
     'Tests use a handful of folders of examples and absolute paths.',
     [S + 'cli/build.py', S + 'cli/options.py', S + 'builders/environment.py',
      S + 'paths/paths.py', S + 'document/document.py'],
     [dict(name='Environment.create_environments',
           where=S + 'builders/environment.py'),
      dict(name='build', where=S + 'cli/build.py')],
     'Property-based testing: random folder trees built by the command and '
     'compared to a reference of all files',
     'Random search; trees of thirteen folders and five names.')

prop('P28', 'Dependency checks report what is really installed',
     'After a check, each requirement counts as available exactly if its '
     'program, LaTeX package or python package (of a fitting version) is '
     'installed, and groups of requirements follow from their members: all, '
     'any or none of them needed.',
     ['configurations', 'inputs'], 'for every tree of requirements and every '
     'installation',
     'Tests can only look at the one installation which they run in.',
     [S + 'checkers/checker.py', S + 'checkers/external.py',
      S + 'checkers/pdf.py', S + 'checkers/python.py', S + 'checkers/types.py',
      S + 'checkers/utils.py', S + 'cli/setup/checkers.py'],
     [dict(name='All/Any/Optional', where=S + 'checkers/types.py'),
      dict(name='PythonChecker', where=S + 'checkers/python.py')],
     'Property-based testing: random requirements and stand-in installations '
     'compared to a reference, versions by a reference order',
     'Random search; stand-ins for kpsewhich and pip.')

prop('P29', 'Starting a project copies the whole starter, only when wanted',
     'The init command copies every file of the chosen starter as it is, '
     'asks before it writes into a folder which has files, and writes nothing '
     'when it is declined, lists or describes starters, or gets an unknown '
     'name. The projects it makes from the starters of the package can be '
     'built.',
     ['inputs', 'histories'], 'for every collection of starters, every '
     'output folder and every answer',
     'Tests list the starters of the package and copy one of them.',
     [S + 'cli/init.py', S + 'templates/'],
     [dict(name='init', where=S + 'cli/init.py')],
     'Property-based testing: random starters and folders, with the folder '
     'and the printed names compared to a reference',
     'Random search; the command in process.')

prop('P35', 'Pdf files are made and hold all of the text, in order',
     'A document of supported elements with pdf among its targets builds for '
     'each template of the package, and its pdf shows each word of the text, '
     'in the order of the source, with marks at items of lists. Floating '
     'elements may move but are not lost.',
     ['inputs', 'programs'], 'for every document of headings, text, lists, '
     'tables, figures, equations, code, notes and references, and every '
     'template with pdf',
     'Tests compare short tex strings; whether LaTeX takes the combinations '
     'of elements is not tested.',
     [S + 'formats/tex.py', S + 'tags/', S + 'builders/jinja_render.py',
      S + 'builders/pdflatex.py', S + 'templates/'],
     [dict(name='tex_fmt', where=S + 'tags/'),
      dict(name='Pdflatex', where=S + 'builders/pdflatex.py')],
     'Property-based testing: random documents made to pdf by the real '
     'pdflatex, and the text of the pdf compared to the words of the source',
     'Random search; some tens of documents per run, as each takes a second.')

prop('P31', 'Every text is built or rejected cleanly, without lasting effects',
     'Whatever text a document holds, its build ends within a time limit and '
     'either makes all files of its targets (xhtml being well formed) or '
     'raises an error of the package that names what is wrong, never an '
     'internal error. A rejected text leaves nothing behind: once it is '
     'repaired, in the same session, all files are those of a fresh build.',
     ['inputs', 'histories'],
     'all texts of pieces of the language in any order (tags with any '
     'attributes and contents, unbalanced braces, wrong headers, odd '
     'characters), and all histories of good and bad texts in a session',
     'Tests give wrong inputs one by one to single classes; combinations of '
     'tags that no one meant to combine, and what an error leaves behind in '
     'labels, caches and builders, are beyond them.',
     [S + 'tags/tag.py', S + 'tags/utils.py', S + 'tags/text.py',
      S + 'tags/ref.py', S + 'tags/preamble.py', S + 'tags/eqs.py',
      S + 'tags/exceptions.py', S + 'formats/xhtml.py', S + 'formats/tex.py',
      S + 'document/document.py', S + 'label_manager/label_manager.py',
      S + 'builders/builder.py', S + 'builders/target_builders/receivers.py'],
     [dict(name='Tag errors', where=S + 'tags/exceptions.py'),
      dict(name='Document.load', where=S + 'document/document.py'),
      dict(name='find_builder', where=S + 'builders/target_builders/receivers.py')],
     'Property-based fuzzing: grammar-based texts of unexpected combinations, '
     'and stateful histories of errors against a fresh build',
     'Random texts of language fragments and histories of rejected and good '
     'texts; oracle: files or errors of the package, termination, and '
     'equality with a fresh project after repair.')


prop('P32', 'Rendering has no effect on documents and is the same each time',
     'A document or any of its tags gives the same result in a format '
     'however often, in whatever order of formats and from whichever copy it '
     'is rendered. Rendering changes neither the tags, nor their attributes '
     'and contents, nor the context entries and labels of the documents.',
     ['inputs', 'histories'],
     'all documents of tags of all kinds in any combination, and all orders '
     'of renderings of the whole or of single tags',
     'Tests render each tag once or in one order of formats. Attributes, '
     'caches and counters shared by the renderings of a tag can make a '
     'format depend on those made before it.',
     [S + 'tags/tag.py', S + 'tags/figs.py', S + 'tags/img.py',
      S + 'tags/text.py', S + 'tags/utils.py', S + 'tags/ref.py',
      S + 'tags/data.py', S + 'tags/headings.py',
      S + 'attributes/attributes.py', S + 'formats/xhtml.py'],
     [dict(name='Tag.html_fmt', where=S + 'tags/tag.py'),
      dict(name='MarginFigure.xhtml_fmt', where=S + 'tags/figs.py'),
      dict(name='Attributes.filter', where=S + 'attributes/attributes.py')],
     'Property-based testing: metamorphic relation between renderings in '
     'random orders and a first rendering, with snapshots of the state',
     'Random documents and orders of rendering; oracle: the first rendering '
     'in a fresh session for one format, and unchanged state.')

prop('P36', 'Titles and authors are shown in full and in order in all formats',
     'The title and authors of a header (or of the header of a parent) are '
     'shown by title pages, author tags and the heads of files in all '
     'formats, each author once and in order, joined by commas and a last '
     '"and". Author tags with names of their own show those instead.',
     ['inputs', 'configurations'],
     'all lists of names, separated as documented, of any project tree, tag '
     'position and template',
     'Tests show one list of two authors by a single tag; how lists reach '
     'the tags (from headers, as strings, from parents, in templates) is '
     'covered by none.',
     [S + 'tags/preamble.py', S + 'tags/headings.py',
      S + 'utils/string.py', S + 'context/context.py',
      S + 'builders/jinja_render.py'],
     [dict(name='Authors', where=S + 'tags/preamble.py'),
      dict(name='Titlepage', where=S + 'tags/preamble.py'),
      dict(name='str_to_list', where=S + 'utils/string.py')],
     'Property-based testing against a model of the list of names',
     'Random titles, names and trees; oracle: the names as written.')

prop('P30', 'The preview server shows the present state of the projects',
     'The preview server lists every document of the projects below its '
     'folder in order, with its time and working links to its source and '
     'outputs. Each request for the list, a page or a source shows the '
     'project as edited, with all the files it uses, also to a browser that '
     'kept earlier pages. A text that is rejected gives an error page with '
     'the error until it is repaired, files that do not exist are not found, '
     'and files outside of the folder are not shown.',
     ['inputs', 'histories', 'fault_sequences'],
     'all trees of projects, names, formats, sequences of edits, rejected '
     'texts and requests',
     'Tests request the pages of one unchanged example once each; edits, '
     'errors, other names and caches of browsers are not covered.',
     [S + 'server/app.py', S + 'server/urls.py',
      S + 'server/handlers/server.py', S + 'server/handlers/projects.py',
      S + 'server/handlers/tree.py', S + 'server/handlers/pygmentize.py',
      S + 'server/handlers/checkers.py', S + 'server/handlers/signals.py'],
     [dict(name='load_projects', where=S + 'server/handlers/projects.py'),
      dict(name='TreeHandler', where=S + 'server/handlers/tree.py'),
      dict(name='ServerHandler', where=S + 'server/handlers/server.py'),
      dict(name='url_patterns', where=S + 'server/urls.py')],
     'Stateful property-based testing against a model of the project',
     'Random histories of edits and requests; oracle: the sources and files '
     'as they are, and the list made by the model.')

#NEXT


def main():
    done = [p for p in PROPS
            if (VERIF / 'vp' / 'props' / (p['id'].lower() + '.py')).exists()]
    missing = [p['id'] for p in PROPS if p not in done]
    if missing:
        print('no module:', missing)
    lines = []
    for p in done:
        anchors = dict(files=p['files'], mechanism=p['mechanism'])
        if p['state']:
            anchors['state'] = p['state']
        if p['observe']:
            anchors['observe_at'] = p['observe']
        assert len(p['title']) <= 80, p['title']
        for f in p['files']:
            assert (pathlib.Path('/repo') / f).exists(), f
        lines.append(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['text']),
            why_tests_cant=p['why'], anchors=anchors), ensure_ascii=False))
    (VERIF / 'properties.jsonl').write_text('\n'.join(lines) + '\n')
    checks = [dict(property=p['id'],
                   quick_cmd='./run {} quick'.format(p['id']),
                   thorough_cmd='./run {} thorough'.format(p['id']),
                   evidence_file='evidence/{}.json'.format(p['id']),
                   technique=p['technique'], level='exploration',
                   level_note=p['note']) for p in done]
    manifest = dict(version=1, setup_cmd='true', checks=checks,
                    not_applicable=NOT_APPLICABLE,
                    notes='Every check is a property-based test run by vp/runner.py (random '
                    'generation with a fixed seed, integrated shrinking, '
                    'replay files); see DESIGN.md. Thorough tiers are the '
                    'same properties with about ten times the cases.')
    (VERIF / 'MANIFEST.json').write_text(json.dumps(manifest, indent=1) + '\n')


if __name__ == '__main__':
    main()
