"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=['python/enolib/' + f for f in files],
                     state=[dict(name=n, meaning=m, where='python/enolib/' + w) for n, m, w in state],
                     mechanism=[dict(name=n, where='python/enolib/' + w) for n, w in mech],
                     observe_at=list(observe), hook_needed=hook)))

prop('C01', 'Damaged documents end in a document or a ParseError, in bounded steps',
 'Whatever text a reader is left with after crashes, torn, lost, duplicated, reordered or corrupted writes and short reads, parsing it either returns a document or raises a ParseError. This holds for every reporter, locale and source label, no other exception ever escapes, and parsing ends within a number of steps bounded by the size of the text. Whether the text is accepted or rejected is decided by the eno grammar alone.',
 ['fault_sequences', 'crash_points', 'inputs', 'configurations'],
 'Every sequence of saves, appends and partial flushes of a stored document, every crash instant and media fault, every reader instant, and every reporter/locale/source configuration.',
 'The one fuzz test is excluded from the suite, uses only the default reporter and random text that almost never forms eno structure; the other tests parse a few dozen hand-written documents.',
 ['analyzer.py', 'resolver.py', 'grammar_regex.py', 'errors/parsing.py', 'reporters/reporter.py', 'reporters/terminal_reporter.py', 'reporters/html_reporter.py', 'reporters/text_reporter.py'],
 [('one regular expression per line, then a state machine; every reject goes through Parsing.*', 'analyzer.py'), ('template resolution with cycle detection', 'resolver.py')],
 observe=['enolib.parse'])

prop('C02', 'A rejected damaged document is reported exactly where it is broken',
 'When a damaged document is rejected, the ParseError states the defect the grammar finds (kind, key and line number, in the configured locale) and its cursor and selection mark that defect with line, column and index that agree with each other and lie inside the text. Its snippet shows that line marked, under any reporter, and every snippet row quotes the stored line of that number verbatim (a line of nothing but whitespace may be shown empty). The error message is its text followed by its snippet.',
 ['fault_sequences', 'crash_points', 'inputs', 'configurations'],
 'Every text a storage fault can leave behind that the grammar rejects, in every reporter and locale.',
 'Each parse error kind is tested on one or two fixed documents with the text reporter; positions after damage in the middle of other structure, at end of file, or below pending comments are never reached.',
 ['errors/parsing.py', 'errors/selections.py', 'analyzer.py', 'reporters/reporter.py', 'reporters/text_reporter.py', 'reporters/terminal_reporter.py', 'reporters/html_reporter.py', 'messages/en.py', 'messages/de.py', 'messages/es.py'],
 [('Parsing.* error constructors and select_line/select_template/cursor', 'errors/parsing.py'), ('_tokenize_error_context records the unparsed rest', 'analyzer.py'), ('line index and line tags', 'reporters/reporter.py')],
 observe=['ParseError.text', 'ParseError.selection', 'ParseError.cursor', 'ParseError.snippet'])

prop('C03', 'What survives damage reads back exactly as stored',
 'When a document that went through storage faults is still accepted, reading it returns exactly the elements, keys, values, comments, list items, fieldset entries, nesting and copies that the surviving text spells, with nothing invented, lost, merged across lines or taken from another element.',
 ['fault_sequences', 'crash_points', 'inputs'],
 'Every accepted text left behind by any sequence of writes, partial flushes, crashes, media faults and short reads, read through the element API.',
 'Tests read undamaged documents; lines that a fault brought next to each other (operators cut off, continuations under other elements, terminators lost, templates dropped) are not among them.',
 ['analyzer.py', 'grammar_regex.py', 'context.py', 'resolver.py', 'elements/section.py', 'elements/fieldset.py', 'elements/list.py'],
 [('line grammar', 'grammar_regex.py'), ('value and comment assembly', 'context.py'), ('mirror/extend resolution of copies', 'resolver.py')],
 observe=['Section.raw', 'elements()', 'required_string_value()', 'optional_string_comment()'])

prop('C04', 'Damage never reaches back into the intact part of a document',
 'If a fault changes a stored document only from some line onward and both versions are accepted, then every element that lies completely before that line and copies nothing reads the same in both. If the damaged version is rejected because of the damage, the error never points before the first construct the damage can affect, and cutting the text off before it makes the document readable again.',
 ['fault_sequences', 'crash_points', 'inputs'],
 'Every document, every first damaged line, every kind of damage after it (truncation, garbage, lost or duplicated blocks).',
 'No test compares two versions of a document; the tests hold fixed documents only.',
 ['analyzer.py', 'resolver.py', 'context.py'],
 [('single forward pass; only the last open element and section can still change', 'analyzer.py')],
 observe=['enolib.parse', 'Section.raw', 'ParseError.selection'])

prop('C05', 'Looking up any position of a half-written document is safe and consistent',
 'For every text an editor or a crash can leave behind and every position in it, lookup either raises the very ParseError that parsing the text raises or names the element and the kind of range at that position; only positions outside the text raise IndexError. Asking by index or by line and column gives the same answer, and the answer is the innermost element whose lines contain the position. The element found can be taken as what it is and leads upwards through the elements that contain it.',
 ['fault_sequences', 'crash_points', 'inputs'],
 'Every intermediate state of an edited or damaged document and every index or line/column in or around it.',
 'The suite looks up about a dozen positions in one fixed four-line document.',
 ['lookup.py', 'context.py', 'analyzer.py', 'elements/element.py'],
 [('check_in_section_by_line / check_in_section_by_index walk the element tree backwards', 'lookup.py')],
 observe=['enolib.lookup'])

prop('C06', 'Content lost from a document is reported as missing, never as a crash',
 'When a program reads elements that a lost write removed from the document, through any chain of element accessors, optional accessors yield None or an empty list (as do the items and values of a missing list) and nothing else happens. A required accessor anywhere down the chain raises a ValidationError naming the first absent element of the chain, positioned at the nearest section or fieldset that does exist. What is still present is unaffected by reads of what is absent.',
 ['fault_sequences', 'programs', 'histories'],
 'Every reader program written against the intact document, run against every version of it from which writes were lost.',
 'Tests cover single missing elements directly under the document; chains through several missing levels after partial loss are not exercised.',
 ['elements/section.py', 'elements/fieldset.py', 'elements/missing/missing_element_base.py', 'elements/missing/missing_section.py', 'elements/missing/missing_fieldset.py', 'elements/missing/missing_section_element.py', 'elements/missing/missing_value_element_base.py', 'elements/missing/missing_list.py'],
 [('missing proxies delegate required reads to _missing_error of the nearest real parent', 'elements/section.py')],
 observe=['optional_* and required_* accessors', 'ValidationError.text', 'ValidationError.selection'])

prop('C07', 'Threads working on separate documents never influence each other',
 'When several threads parse, query, touch, validate, report errors on and look up their own documents at the same time, each thread observes exactly the values, errors, messages, snippets and selections it would observe running alone, under every interleaving. This includes documents with the same text but different locale, reporter or source, and holds when one of the threads is interrupted.',
 ['schedules', 'fault_sequences', 'configurations'],
 'Every interleaving of any number of threads at any instruction of the library, and an interruption of any of them at any point.',
 'All tests are single-threaded and hold one document at a time.',
 ['context.py', 'analyzer.py', 'resolver.py', 'parse.py', 'lookup.py', 'grammar_regex.py', 'reporters/reporter.py', 'errors/validation.py'],
 [('all parse and query state hangs off one Context per parse', 'context.py'), ('no module-level mutable state besides registered loaders', 'register.py')],
 observe=['enolib.parse', 'element API', 'errors'])

prop('C08', 'Concurrent readers of one document all get the right answers',
 'When several threads read the same parsed document, including the very first access to each part, every read returns the same keys, values, comments, elements, raw representation and validation errors as a lone reader would get, under every interleaving. A reader that is interrupted midway does not disturb the others.',
 ['schedules', 'fault_sequences'],
 'Every interleaving of concurrent first and later reads, at any instruction, with any reader killed at any point.',
 'All tests are single-threaded.',
 ['context.py', 'elements/section.py', 'elements/fieldset.py', 'elements/list.py', 'elements/section_element.py'],
 [('lazily computed results are built aside and published in one step', 'context.py'), ('lazy instantiation of element handles', 'elements/section.py')],
 state=[('computed_* / _instantiated_*', 'lazy caches', 'context.py')],
 observe=['element API', 'raw()'])

prop('C09', 'Registering loaders is safe while documents are in use',
 'After register returns, every element, whether handed out before or after, real or missing, offers exactly the accessors for the registered names, each applying its own loader and no other; registering a name again replaces its loader everywhere. While a registration runs concurrently or after it was interrupted, every accessor behaves according to the old or the new registration, and other names are unaffected.',
 ['schedules', 'fault_sequences', 'histories'],
 'Every history and interleaving of registrations and typed reads, every interruption point inside a registration, every way of passing definitions.',
 'One test file registers a handful of loaders once and never re-registers, interleaves or interrupts.',
 ['register.py', 'elements/element_base.py', 'elements/value_element_base.py', 'elements/list.py', 'elements/missing/missing_element_base.py'],
 [('one attribute per accessor set on the shared base classes', 'register.py')],
 observe=['enolib.register', '<name>_key, optional_/required_<name>_value(s)/comment'])

prop('C10', 'An interrupted operation leaves the document fully usable',
 'If an operation on a document is cut short at any point by a keyboard interrupt, timeout, cancellation, memory or stack exhaustion, that exception reaches the caller unchanged and nothing is left half-done. Repeating the operation gives the answer it would have given uninterrupted, and every other later answer about the document (values, comments, elements, raw form, errors, touch assertion) is as if the interrupted attempt never happened, except that the elements it was asked for may already count as touched or as taken as the requested type, and a setting it was changing may be partly changed until the change is repeated.',
 ['crash_points', 'fault_sequences', 'histories'],
 'Every operation, every point inside it at which an asynchronous exception can arrive, repeated interruptions, and every later history.',
 'No test interrupts anything; the lazy caches are only ever filled in one undisturbed go.',
 ['context.py', 'elements/section.py', 'elements/fieldset.py', 'elements/list.py', 'elements/section_element.py', 'elements/element_base.py'],
 [('lazily computed results are built aside and published in one step', 'context.py'), ('type commitment of an element', 'elements/section_element.py')],
 state=[('computed_value, computed_elements, computed_entries, computed_items, computed_comment', 'lazy caches on instructions', 'context.py'), ('_instantiated_*', 'lazy handle caches', 'elements/section.py')],
 observe=['element API'])

prop('C11', 'Parsing gives the same result whatever happened before in the process',
 'Parsing a text with given options yields the same document, or the same ParseError, no matter which other parses, failed parses, interrupted parses, lookups, registrations, validation errors or stack exhaustion happened earlier in the process. Nothing an earlier parse did or left unfinished can be observed through a later one, and nothing a later parse does can be observed through a document or error obtained earlier.',
 ['histories', 'fault_sequences', 'crash_points'],
 'Every earlier history of the process including parses killed at any point.',
 'Tests never repeat a parse after a failed or interrupted one and compare.',
 ['parse.py', 'context.py', 'analyzer.py', 'resolver.py', 'lookup.py'],
 [('a fresh Context, Analyzer and Resolver per parse', 'context.py')],
 observe=['enolib.parse', 'enolib.lookup'])

prop('C12', 'A read gives the same answer at any point of any history',
 'Within one document, the answer to a read (value, key, comment, number and identity of elements, raw form, validation error) does not depend on which reads, raw dumps, failed queries, error reports, debug prints or touch assertions other parts of the program performed on the document before. Asking the same handle again returns the same answer, and asking a section, fieldset or list for its contents again returns the same handles. What was handed out earlier (answers, raw forms, errors) stays as it was, and a client that changes a raw form or an error it was given changes nothing for anyone else.',
 ['histories', 'schedules'],
 'Every interleaving of every sequence of operations by several clients of one document.',
 'Tests perform one to three operations per document, so caches are filled in one order only.',
 ['context.py', 'elements/section.py', 'elements/fieldset.py', 'elements/list.py', 'elements/value_element_base.py'],
 [('memoisation on instructions and on handles', 'context.py')],
 observe=['element API', 'raw()'])

prop('C13', 'The touch assertion finds untouched content exactly when there is some',
 'In any history, assert_all_touched raises a ValidationError if and only if, within the keys selected by only and skip, some element in it has not been both taken as a typed element and touched, or some section, fieldset or list in it has untouched contents; the error points at one such element and carries the given message. Asking never changes what counts as touched. Nothing but an access to an element or an explicit touch of it or of a container holding it marks it touched.',
 ['histories', 'schedules', 'fault_sequences'],
 'Every interleaving of takes, reads, touches, failed reads and assertions by several clients.',
 'Tests touch at most two elements before asserting; nested combinations, entries, items, only/skip and failed reads are not combined.',
 ['elements/section.py', 'elements/section_element.py', 'elements/fieldset.py', 'elements/list.py', 'elements/element_base.py'],
 [('_touched/_yielded flags and _untouched traversal', 'elements/section_element.py')],
 state=[('_touched', 'element was accessed', 'elements/element_base.py'), ('_yielded', 'type the element was taken as', 'elements/section_element.py')],
 observe=['assert_all_touched', 'touch'])

prop('C14', 'An element commits to the one type it was first taken as',
 'Once an ambiguous element has been taken as an empty, field, fieldset or list, every later attempt to take it as that type returns the same handle and every attempt to take it as another of the types it offers raises TypeError, in any history and by whichever route it is reached. An attempt that raises a ValidationError or TypeError commits the element to nothing, an attempt cut short by an interruption commits it either completely or not at all, and what an element offers to be taken as does not change by taking it.',
 ['histories', 'schedules', 'fault_sequences'],
 'Every interleaving of takes by several clients through direct, keyed and plural accessors, with failing and interrupted attempts in between.',
 'Tests take an element once; conflicts and re-takes after failures are not exercised.',
 ['elements/section_element.py', 'elements/section.py'],
 [('to_empty/to_field/to_fieldset/to_list/to_section guard on _yielded', 'elements/section_element.py')],
 observe=['to_*', 'yields_*', 'field()/list()/fieldset()/empty()'])

prop('C15', 'Copies and their originals stay independent of each other',
 'A copied section, fieldset, list or field reads like its template extended and overridden by its own content, in whatever order original and copies are read, and no matter which of them was read, dumped, interrupted or failed first. Touching, taking, or making strict a copy or something inside it never affects the original or another copy, nor the other way round.',
 ['histories', 'schedules', 'fault_sequences'],
 'Every document with copies, copies of copies and deep copies, and every history of operations spread over originals and copies.',
 'Tests have one copy of one template and read it once; the isolation test covers one direction of one case.',
 ['resolver.py', 'context.py', 'elements/section.py', 'elements/fieldset.py', 'elements/list.py'],
 [('mirror/extend links from copy to template', 'resolver.py'), ('separate handles per copy over shared instructions', 'elements/section.py')],
 observe=['element API', 'raw()', 'assert_all_touched'])

prop('C16', 'Requiring all elements reaches everything below, whenever it was taken',
 'While a section is set to require all elements, asking it, or any section or fieldset below it, for a single absent element or entry raises a ValidationError, no matter whether the section or fieldset below was first taken before or after the setting. Switching the setting off restores optional behaviour for everything below in the same way, and sections that are not below it keep their own setting.',
 ['histories', 'schedules'],
 'Every interleaving of takes, setting changes at any level and queries for absent elements.',
 'Tests set the option before the first query on a flat document.',
 ['elements/section.py', 'elements/fieldset.py'],
 [('inherited flag at construction plus push-down to taken children', 'elements/section.py')],
 state=[('_all_elements_required / _all_entries_required', 'strict flag', 'elements/section.py')],
 observe=['all_elements_required', 'all_entries_required'])

prop('C17', 'A failing loader fails exactly its own read and nothing else',
 'A typed read calls its loader exactly once with exactly the string the element holds (per item, in order, for lists, stopping at the first failure) and never when there is nothing to load. A ValueError from the loader becomes a ValidationError that carries its message and points at the offending value, key or comment; any other exception reaches the caller unchanged. In both cases, and also when the loader itself reads, dumps, validates or parses documents, later reads with any loader are unaffected.',
 ['fault_sequences', 'histories'],
 'Every sequence of typed reads with loaders failing at arbitrary calls in arbitrary ways, and loaders that re-enter the library.',
 'Tests use one failing loader on one field; no test fails a loader midway through a list, re-enters, or reads again afterwards.',
 ['elements/field.py', 'elements/value_element_base.py', 'elements/element_base.py', 'elements/list.py', 'errors/validation.py', 'register.py'],
 [('loader call wrapped in try/except ValueError', 'elements/value_element_base.py')],
 observe=['required_value/optional_value/key/*_comment/*_values with a loader'])

prop('C18', 'An error report is the same whenever it is made and however others fail',
 'A validation error for a given element and cause has the same text, message, snippet, cursor and selection at any point of any history and under any earlier failures of message functions, loaders, reporters or queries. Its positions lie inside the document and agree with each other, and its snippet shows the selected line and quotes document lines verbatim (lines of nothing but whitespace may be shown empty) under every reporter. An exception raised by a message function or a custom reporter reaches the caller unchanged and leaves the document usable. Errors share nothing: an error already raised never changes, and changing one affects no other.',
 ['histories', 'fault_sequences', 'configurations'],
 'Every interleaving of error-producing and other operations with callback failures at arbitrary calls, in every reporter, locale and source configuration.',
 'Each error kind is produced once on a fresh document with the text reporter.',
 ['errors/validation.py', 'errors/selections.py', 'reporters/reporter.py', 'reporters/text_reporter.py', 'reporters/terminal_reporter.py', 'reporters/html_reporter.py', 'elements/element_base.py'],
 [('a fresh reporter per error', 'errors/validation.py'), ('selection helpers', 'errors/selections.py')],
 observe=['error()/value_error()/key_error()/comment_error()', 'ValidationError attributes'])

prop('C23', 'A long-running process keeps nothing of the documents it is done with',
 'Once everything obtained from a document (handles, raw forms, errors) has been let go of, the library keeps nothing of it: over any history of documents parsed, rejected, read, queried, validated, reported on, looked up, abandoned to an interruption or handled by another thread, the library objects alive and the memory held by the library stay within a bound that does not depend on how many documents there were.',
 ['histories', 'fault_sequences', 'crash_points'],
 'Every history of a process that handles one document after another, including rejected and interrupted ones.',
 'Tests handle a handful of documents and look at results, never at what stays behind.',
 ['context.py', 'parse.py', 'lookup.py', 'register.py', 'reporters/reporter.py', 'elements/element_base.py', 'errors/validation.py'],
 [('all state hangs on the Context of one parse', 'context.py')],
 observe=['objects alive after a garbage collection, memory reachable from the modules of the library'])

prop('C24', 'A signal handler may use the library in the middle of any operation',
 'When a signal handler, a finalizer or any other code runs to its end on top of an unfinished operation of the same thread, at any point of it, and there reads the same document, parses, reads, validates, reports on or looks up other documents, or registers loaders, then the handler gets the answers it would get on its own and the operation it entered goes on to the answer it would have given undisturbed (a read through a registered accessor: by the registration before or after). No handler ever waits for the operation it entered. If the handler raises, that exception reaches the caller of the operation unchanged and the operation can be repeated.',
 ['schedules', 'crash_points', 'fault_sequences'],
 'Every point of every operation, with every use of the library by the code that runs there.',
 'Tests run one operation after another; nothing ever runs inside an operation but the loaders it calls.',
 ['context.py', 'analyzer.py', 'resolver.py', 'register.py', 'reporters/reporter.py', 'elements/section.py', 'elements/section_element.py'],
 [('no state outside the Context and no locks', 'context.py'), ('lazily computed results are built aside and published in one step', 'context.py')],
 state=[('computed_* / _instantiated_*', 'lazy caches', 'context.py')],
 observe=['element API', 'raw()', 'parse', 'lookup', 'register'])

prop('C25', 'Every operation on a document ends in bounded steps, at any point of any history',
 'Every operation on a parsed document (lookup, query, read, dump, take, touch, setting, touch assertion, error report), through any handle and at any point of any history, including after operations that failed or were interrupted, ends within a number of steps bounded by a fixed multiple of the size of the text and of what it spells with its copies expanded. Performing an operation again and again does not make it more costly.',
 ['histories', 'inputs', 'fault_sequences'],
 'Every document and every history of operations on it.',
 'Tests never count steps, and their documents are too small for the difference to show.',
 ['context.py', 'elements/section.py', 'elements/fieldset.py', 'elements/list.py', 'elements/section_element.py', 'reporters/reporter.py', 'lookup.py', 'errors/validation.py'],
 [('combined contents of copies are computed once', 'context.py'), ('handles are made once', 'elements/section.py')],
 observe=['number of steps (calls, lines, returns) inside the library'])

prop('C26', 'Letting go of handles and garbage collection change nothing',
 'Whatever handles and documents a client lets go of, and whenever the garbage collector runs (between operations or in the middle of one), the handles it still holds keep working and answer as they would have: values, comments, errors, parents and elements below stay reachable from any of them, and everything done through handles let go of (elements taken and touched, requirements set) stays done and is found again when the same element is reached another way.',
 ['histories', 'schedules', 'fault_sequences'],
 'Every history in which handles are dropped and every moment of collection.',
 'Tests hold the document for as long as they run, and the collector does not run at a moment of their choosing.',
 ['elements/element_base.py', 'elements/section.py', 'elements/section_element.py', 'elements/fieldset.py', 'elements/list.py', 'elements/element.py', 'context.py'],
 [('handles hold their context and parent', 'elements/element_base.py'), ('handles made once are kept by their parent', 'elements/section.py')],
 observe=['element API', 'identity of handles'])

prop('C27', 'A process forked in the middle of an operation can use the library',
 'When the process is forked by one thread while another is in the middle of any operation of the library (parsing, reading, validating, looking up, reporting, registering), so that in the child that operation stays unfinished for ever, the child can read the documents it inherited, work on documents of its own, and register and use loaders: it gets the answers it would get in a fresh process and never waits for the thread it does not have. What was registered or parsed before the fork is there in the child, and the parent notices nothing of the child.',
 ['schedules', 'crash_points', 'histories'],
 'Every point of every operation at which another thread may fork, with every use of the library in the child.',
 'Tests never fork, let alone in the middle of an operation.',
 ['context.py', 'analyzer.py', 'resolver.py', 'register.py', 'lookup.py', 'elements/section.py', 'elements/list.py', 'elements/fieldset.py', 'elements/section_element.py'],
 [('no locks and no state outside the Context', 'context.py'), ('lazily computed results are built aside and published in one step', 'elements/section.py')],
 state=[('computed_* / _instantiated_*', 'lazy caches', 'context.py')],
 observe=['element API', 'raw()', 'parse', 'lookup', 'register'])

prop('C19', 'A well-formed document parses to exactly what it spells',
 'Every document that follows the eno grammar parses to the elements, keys, values, comments and nesting it spells, and every document that does not is rejected.',
 ['inputs'], 'Every undamaged document.', 'Tests sample a few dozen documents.',
 ['analyzer.py', 'grammar_regex.py', 'context.py'], [('line grammar and state machine', 'analyzer.py')], observe=['enolib.parse'])
prop('C20', 'All locales define the same messages',
 'Every message the library can emit exists in every locale with the same parameters, so that choosing a locale changes wording only.',
 ['configurations'], 'Every locale and message.', 'Tests check message presence by sampling one locale at a time.',
 ['messages/en.py', 'messages/de.py', 'messages/es.py'], [('generated message modules', 'messages/en.py')], observe=['locale modules'])
prop('C21', 'HTML reports never let document text become markup',
 'In a report made by the HTML reporter, document text appears only in escaped form.',
 ['inputs'], 'Every document text.', 'One snapshot without special characters.',
 ['reporters/html_reporter.py'], [('html.escape on line content', 'reporters/html_reporter.py')], observe=['snippet of HtmlReporter'])
prop('C22', 'The language ports agree on every document',
 'The Python, JavaScript, Ruby and PHP implementations accept the same documents and read the same content from them.',
 ['inputs', 'programs'], 'Every document.', 'Each port is only tested against generated specs of its own.',
 ['analyzer.py', 'grammar_regex.py'], [('shared spec blueprints', 'analyzer.py')], observe=['parse in each port'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
