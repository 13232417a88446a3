#!/usr/bin/env python3
"""Source of properties.jsonl: python3 tools/props.py rewrites it."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))


FI = 'fix_includes.py'
# ---------------------------------------------------------------- fix_includes
prop('C01', 'Applying advice touches nothing but the advised lines',
     'When fix_includes applies a report, every line that is not an #include or a forward-declaration line keeps its '
     'exact bytes and its order relative to all other such lines, except blank lines, namespaces or conditional '
     'blocks left with nothing in them, and the comments directly above what is removed; a file containing CRLF line endings, a UTF-8 BOM or non-ASCII text comes out '
     'with the same encoding and line endings. No code is lost, duplicated, reordered or altered.',
     ['inputs', 'configurations'],
     'all source files (code, comments, string literals, conditionals, namespaces, any line ending and encoding) x all well-formed reports about them x option combinations',
     'the tests compare about 140 hand-written files with their hand-written outputs; the guarantee is over every file a user owns',
     [FI], [('line classification and deletion/insertion', 'fix_includes.py:FixFileLines'),
            ('line-ending and encoding detection', 'fix_includes.py:FileInfo.parse, _ReadFile, _WriteFile')],
     ['file bytes after ProcessIWYUOutput/main'])
prop('C02', 'Applying advice realises exactly the advised includes and declarations',
     'After fix_includes applies a report, each #include and forward declaration the report says to add is present '
     'exactly once, each line it says to remove is gone, and every other include and forward declaration is still '
     'there with its trailing comment unless a comment-replacing option was given. Added forward declarations stay inside '
     'the namespaces the report names.',
     ['inputs', 'configurations'],
     'all files with any placement of includes and forward declarations x all reports with add, remove and full-list sections',
     'tests show chosen examples; interactions of placement, namespaces, duplicates and conditionals multiply without bound',
     [FI], [('report parsing', 'fix_includes.py:IWYUOutputParser'), ('edit decision', 'fix_includes.py:_DecoratedMoveSpanLines, FixFileLines')],
     ['file text after main'])
prop('C03', 'Applying advice converges',
     'Applying the report on an already fixed file again and again soon changes nothing more: only blank lines may still '
     'settle, then the bytes stay as they are and no edited file is counted. The sort-only mode is idempotent, and adding '
     'lines and removing them again restores the file but for the order of includes, blank lines and comments next to them.',
     ['inputs', 'configurations'],
     'all files x all reports x option combinations (reorder, blank_lines, separate_project_includes, quoted_includes_first, comments)',
     'each test runs the tool once on one input',
     [FI], [('normalised ordering and blank-line insertion', 'fix_includes.py:FixFileLines, _ShouldInsertBlankLine')],
     ['file bytes after the 2nd run', 'return value'])
prop('C04', 'fix_includes writes only where it is licensed to',
     'fix_includes modifies a file only if the report asks for changes to it and no option excludes it: --dry_run, '
     '--ignore_re, --only_re, an explicit file list and a report of a correct file each leave the bytes untouched, '
     'whether names are absolute, relative or relative to --basedir; --safe_headers (the default) never removes an include '
     'or declaration from a header. Every other file gets the edit it would get alone, no other file is created or touched, '
     'and the number of edited files that is printed is right.',
     ['inputs', 'configurations'],
     'all sets of files x reports x combinations of restraint options',
     'tests fix a single file with one option at a time',
     [FI], [('file filtering', 'fix_includes.py:ProcessIWYUOutput'), ('safe header filter', 'fix_includes.py:IWYUOutputRecord / FixManyFiles')],
     ['file bytes', 'exit status'])
prop('C05', 'Reports on the same file are merged conservatively',
     'When the input contains several reports on one file, an include or forward declaration is removed only if every '
     'report on that file agrees it can go, everything that any report adds is added, and the result does not depend on '
     'the order of the reports or on which unrelated reports are interleaved.',
     ['inputs', 'histories'],
     'all sequences of reports about overlapping sets of files',
     'tests cover a handful of two-report merges; order independence quantifies over permutations',
     [FI], [('merge', 'fix_includes.py:IWYUOutputRecord.Merge, ParseOneRecord loop')],
     ['file text'])
prop('C06', 'Reordering is a sorted permutation that never crosses barriers',
     'Sorting (--sort_only or --reorder) yields a permutation of the include lines, each still carrying its own preceding '
     'comments, and never moves an #include across a preprocessor conditional, across other code, or across a line '
     'protected by "do not reorder" style barriers. Within a movable run the includes are ordered by kind '
     '(associated header, C system, C++ system, other) and alphabetically within a kind.',
     ['inputs', 'configurations'],
     'all files made of includes, comments, blank lines, conditionals, pragmas and code',
     'tests show example orders; permutation and barrier safety are universal',
     [FI], [('move and reorder spans', 'fix_includes.py:_CalculateMoveSpans, _CalculateReorderSpans'), ('sort key', 'fix_includes.py:_GetLineKind, _GetSortKey')],
     ['file text after --sort_only'])
prop('C07', 'Deletions keep conditional and namespace structure intact',
     'After any edit the file has balanced #if/#endif and namespace braces, every surviving include, declaration and '
     'code line is governed by the same stack of preprocessor conditions as before, and a conditional block or namespace disappears only '
     'when nothing but blank space and comments is left in it; one emptied by removals does disappear; header guards always survive.',
     ['inputs'],
     'all nestings of conditionals (#if/#elif/#else), include guards and namespaces x all removals inside them',
     'the tests contain a few dozen fixed nestings; the nesting space is unbounded',
     [FI], [('empty ifdef deletion', 'fix_includes.py:_DeleteEmptyIfdefs'), ('empty namespace deletion', 'fix_includes.py:_DeleteEmptyNamespaces'), ('header guards', 'fix_includes.py:_MarkHeaderGuardIfPresent')],
     ['file text'])
prop('C08', 'Bad or stale reports never damage files',
     'If a report does not fit the file (a line it names for an #include holds none, or lies outside the '
     'file) or is malformed, fix_includes leaves that file byte-for-byte unchanged and says so, and still processes the '
     'other files of the same input. Text that is not part of a report is ignored.',
     ['inputs', 'fault_sequences'],
     'all corruptions of valid reports (wrong line numbers, truncation, interleaved noise, edited files)',
     'tests check three malformed inputs; faults can hit any line of any report',
     [FI], [('consistency check', 'fix_includes.py:_CalculateLineTypesAndKeys'), ('per-file isolation', 'fix_includes.py:FixManyFiles')],
     ['file bytes', 'stdout/stderr'])
# ------------------------------------------------------------------- iwyu_tool
IT = 'iwyu_tool.py'
prop('C09', 'iwyu_tool runs IWYU with exactly the compile command of each entry',
     'For every compilation-database entry (either "arguments" or "command" form, ccache in front or not, GCC- or '
     'CL-style driver) iwyu_tool starts IWYU in the entry\'s directory with the entry\'s arguments in order, minus the '
     'compiler name, plus each extra IWYU argument in a form the driver accepts, so IWYU sees the same '
     'preprocessor-relevant arguments as the compiler.',
     ['inputs', 'configurations'],
     'all compilation-database entries (quoting, spaces, launchers, drivers) x extra arguments',
     'the tests try a few commands; quoting and launcher combinations are unbounded',
     [IT], [('command parsing', 'iwyu_tool.py:Invocation.from_compile_command, split_command'), ('extra args', 'iwyu_tool.py:slice_compilation_db/main')],
     ['argv and cwd received by a recording IWYU stand-in'])
prop('C10', 'iwyu_tool analyses exactly the selected files',
     'With no file arguments every database entry is analysed; with file or directory arguments exactly the entries '
     'whose file is one of them or lies below one of them (as paths, not as string prefixes) are analysed, each once however the '
     'selections overlap. A requested path matching no entry is warned about, and the others are still analysed.',
     ['inputs', 'configurations'],
     'all databases x selections, including symlinks, relative paths and sibling directories with a common prefix',
     'tests use one or two entries',
     [IT], [('selection', 'iwyu_tool.py:slice_compilation_db, is_subpath_of')],
     ['set of analysed files'])
prop('C11', 'iwyu_tool execution is complete, isolated and honest about failure',
     'Each selected entry is executed exactly once whatever the job count and however its process ends; its output is '
     'printed whole and unmixed with that of other entries; never more than the requested number of jobs run at the same time; '
     'the exit status is zero only if every entry\'s own status is zero.',
     ['schedules', 'fault_sequences', 'configurations'],
     'all numbers of entries x job counts x per-entry durations, outputs, exit codes and signals',
     'tests run with stub processes in a few fixed patterns',
     [IT], [('executor', 'iwyu_tool.py:_bootstrap/execute/run loop'), ('process', 'iwyu_tool.py:Process')],
     ['stdout', 'exit status', 'execution log of the stand-in'])
prop('C12', 'iwyu_tool warning format carries every suggestion faithfully',
     'With clang-style (warning or error) output, each add, remove and "should be" line of the IWYU report becomes exactly one '
     'diagnostic with the right file, the right line (the removed line; line 1 for additions) and the unaltered '
     'suggestion, correct files yield a note and no diagnostic, other messages pass through, and nothing in the output, complete or cut short, crashes the formatter.',
     ['inputs'],
     'all IWYU outputs over any number of files and suggestions',
     'tests format one canned report',
     [IT], [('formatter', 'iwyu_tool.py:clang_formatter')],
     ['formatted text'])
# ------------------------------------------------------------------------ e2e
IWYU = ['iwyu.cc', 'iwyu_ast_util.cc', 'iwyu_output.cc', 'iwyu_preprocessor.cc', 'iwyu_include_picker.cc']
prop('C13', 'Following the advice keeps the program compiling',
     'For every compilable C++ program whose headers are self-contained, applying all of IWYU\'s advice with '
     'fix_includes gives a program that still compiles, and running IWYU again on it reports that the files have '
     'correct #includes and forward declarations.',
     ['programs'],
     'all compilable multi-file programs with self-contained headers, over the language constructs IWYU understands',
     'the tests compare reports with expected text for 200 fixed programs; none of them is rewritten and recompiled',
     IWYU + [FI], [('use analysis', 'iwyu.cc'), ('final decision', 'iwyu_output.cc:IwyuFileInfo::CalculateAndReportIwyuViolations'), ('rewriting', FI)],
     ['compiler exit status after rewriting', '2nd report'])
prop('C14', 'A directly used declaration gets its header, an unused header goes',
     'For a source file that uses functions, variables, classes, enums, type aliases, concepts or operators of '
     'headers in ways that need their declaration or definition, the full include list IWYU reports contains exactly the '
     'headers that declare something so used (plus kept ones): a missing one is added, a present one not used is '
     'removed, whether the name reaches the file directly, through another header, a namespace or a using declaration.',
     ['programs'],
     'all programs built from header graphs and use forms, with any initial includes',
     'the tests cover fixed combinations; the number of header graphs and use-form combinations is unbounded',
     IWYU, [('AST visitor', 'iwyu.cc:IwyuBaseAstVisitor, IwyuAstConsumer'), ('use processing', 'iwyu_output.cc:ProcessFullUse')],
     ['add/remove/full-list sections for the main file'])
prop('C15', 'Full use and forward-declarable use are told apart',
     'A class that is only named through pointers, references or declarations that do not need its definition never causes an include of '
     'its header: a forward declaration is advised (unless an already needed header provides the class), while any '
     'use that needs the definition (member access, size, inheritance, construction, deletion, arithmetic, conversion, throw or catch) '
     'demands the header and no forward declaration; existing forward declarations that are unneeded are removed.',
     ['programs'],
     'all combinations of complete-type and incomplete-type uses of classes and class templates in nested namespaces',
     'per-construct tests exist; combinations, orders and nesting are unbounded',
     IWYU, [('forward-declare decision', 'iwyu.cc:CanIgnoreType/CanForwardDeclareType'), ('use processing', 'iwyu_output.cc:ProcessForwardDeclare')],
     ['add/remove sections: includes and forward declarations'])
prop('C16', 'Type providers are respected: aliases, return types and parameters',
     'A header author who includes the definition of the type behind an alias, a by-value return type or a '
     'converted parameter provides that type to users, who are then not told to include it; an author who '
     'only forward-declares it does not, and users of the complete type are told to include it.',
     ['programs'],
     'all chains of aliases, functions and classes between a type and its user, each author including, forward-declaring or neither',
     'fixed examples in tests; chains and mixes of intents are unbounded',
     ['iwyu.cc', 'iwyu_ast_util.cc'], [('provided types', 'iwyu.cc:GetProvidedTypes*, CodeAuthorWantsJustAForwardDeclare')],
     ['full-list section for the user file'])
prop('C17', 'Template arguments are required as much as the template requires them',
     'When a file instantiates a class or function template, the template argument types whose definitions the instantiation '
     'needs must be included by that file, those it only names need a forward declaration at most, and types that the template\'s '
     'own header provides (defaults, dependencies) are not demanded from the file.',
     ['programs'],
     'all templates whose bodies use their parameters fully, by pointer or not at all, nested to any depth, with defaults and specialisations',
     'fixed examples in tests; template bodies and nesting are unbounded',
     ['iwyu.cc', 'iwyu_cache.cc', 'iwyu_ast_util.cc'], [('instantiation analysis', 'iwyu.cc:InstantiatedTemplateVisitor'), ('cache', 'iwyu_cache.h')],
     ['full-list section for the instantiating file'])
prop('C18', 'Macro uses are attributed to the right file',
     'A file that expands a macro, tests it with #ifdef/#ifndef/defined or names it in the body of another macro it defines uses the '
     'header defining that macro; symbols written in a macro body are the responsibility of the macro\'s author, '
     'while symbols passed as macro arguments are uses of the file that wrote the argument.',
     ['programs'],
     'all programs with object- and function-like macros, nesting, conditionals and arguments carrying uses',
     'fixed examples in tests',
     ['iwyu_preprocessor.cc', 'iwyu.cc', 'iwyu_location_util.cc'], [('macro callbacks', 'iwyu_preprocessor.cc:ReportMacroUse'), ('expansion attribution', 'iwyu.cc:GetCanonicalUseLocation')],
     ['full-list section for the user file'])
prop('C19', 'C programs are analysed with the same precision',
     'For C sources, headers declaring functions, variables, structs, unions, enums, typedefs and macros that are used are '
     'reported exactly, unused ones are removed, and structs used only through pointers need at most a forward declaration.',
     ['programs'],
     'all C programs built from header graphs and use forms',
     'the C tests are a handful of fixed files',
     IWYU, [('AST visitor', 'iwyu.cc')],
     ['add/remove/full-list sections'])
prop('C20', 'The report is consistent with itself and with the file',
     'In every report, the full include list equals the lines present minus the removals plus the additions, each '
     'removal quotes a line that is in the file at the stated line numbers, nothing is both added and removed or listed '
     'twice, a file whose lists are empty is reported as correct and vice versa, and the list is in the documented order '
     '(associated header first, then by kind, alphabetically, quoted first on request, declarations last).',
     ['programs', 'configurations'],
     'all analysed files of all programs x output options',
     'tests normalise line numbers and compare a fixed text',
     ['iwyu_output.cc'], [('report printing', 'iwyu_output.cc:EmitDiffs/PrintableDiffs'), ('ordering', 'iwyu_output.cc:GetLineSortKey, IncludeOrder')],
     ['report text'])
prop('C21', 'Advice does not depend on presentation options or on the run',
     'Repeating a run gives byte-identical output, and the options that only affect presentation (--max_line_length, '
     '--comment_style, --no_comments, --update_comments, --verbose, --quoted_includes_first, --error codes) change neither the set of additions and '
     'removals nor the full list apart from comments and order; each line comment lists only names the file uses and lines fit the length where possible.',
     ['programs', 'configurations', 'schedules'],
     'all programs x all combinations of presentation options x repeated runs',
     'each test runs once with one option set',
     ['iwyu_output.cc', 'iwyu_globals.cc'], [('comment formatting', 'iwyu_output.cc:PrintableIncludeOrForwardDeclareLine'), ('option parsing', 'iwyu_globals.cc:CommandlineFlags::ParseArgv')],
     ['report text'])
prop('C22', 'The exit status tells whether there are violations',
     'IWYU exits 0 by default whatever it suggests; with --error[=N] it exits N (default 1) exactly when some file has '
     'suggestions, with --error_always[=N] it always exits N, and code that does not compile, a missing input or a wrong IWYU option gives a non-zero status, '
     'a diagnostic and no advice.',
     ['programs', 'configurations'],
     'all programs (clean, with violations, with compile errors) x option combinations',
     'tests cover four fixed cases',
     ['iwyu.cc', 'iwyu_globals.cc', 'iwyu_driver.cc'], [('exit code', 'iwyu.cc:HandleTranslationUnit'), ('flags', 'iwyu_globals.cc')],
     ['exit status'])
prop('C23', 'Advice is invariant under meaning-preserving edits',
     'Adding comments or blank lines, duplicating an include, permuting independent includes, renaming identifiers or files '
     'consistently, or splitting a function body does not change which headers and declarations IWYU requires; only line numbers move accordingly.',
     ['programs'],
     'all programs (including every program of the test corpus) x all sequences of such edits',
     'the tests analyse each program in a single textual form',
     IWYU, [('analysis', 'iwyu.cc'), ('location handling', 'iwyu_location_util.cc, iwyu_lexer_utils.cc')],
     ['add/remove/full-list sections'])
prop('C24', 'Keep directives are obeyed',
     'An include or forward declaration marked with a keep pragma, inside a begin_keep/end_keep range, of a header marked always_keep, or matching '
     '--keep is never advised for removal and stays in the full list, while an unmarked unused neighbour is still removed; '
     'pragma look-alikes (wrong prefix, inside strings) have no effect.',
     ['programs', 'configurations'],
     'all placements of keep directives over include lists and declarations',
     'fixed examples in tests',
     ['iwyu_preprocessor.cc', 'iwyu_globals.cc', 'iwyu_output.cc'], [('pragma handling', 'iwyu_preprocessor.cc:HandlePragmaComment, MaybeProtectInclude'), ('always_keep', 'iwyu_preprocessor.cc:FinalizeProtectedIncludes')],
     ['remove/full-list sections'])
prop('C25', 'Private and exported headers resolve to their public façade',
     'A symbol from a header that is exported by another one (export pragma, begin_exports range) is satisfied by an exporter already '
     'included; a header marked private is never advised to outsiders but replaced by its public header (named by '
     'the pragma or exporting it, also through several levels), while friends may include it directly.',
     ['programs'],
     'all export/private/friend graphs over headers, with any includes in the user file',
     'fixed examples in tests; the graphs are unbounded',
     ['iwyu_preprocessor.cc', 'iwyu_include_picker.cc', 'iwyu_output.cc'], [('dynamic mappings', 'iwyu_preprocessor.cc:HandlePragmaComment'), ('picking', 'iwyu_include_picker.cc:GetCandidateHeadersForFilepath'), ('best header', 'iwyu_output.cc:CalculateMinimalIncludes')],
     ['full-list section'])
prop('C26', 'Inhibiting directives are obeyed',
     'A file with a no_include pragma for a header is never advised to add it, a no_forward_declare pragma for a symbol prevents '
     'advice to forward-declare it (the header is used instead), --no_fwd_decls turns all forward-declare advice into includes, and '
     'each affects only the file and the name it mentions.',
     ['programs', 'configurations'],
     'all programs x placements of inhibiting pragmas and options',
     'fixed examples in tests',
     ['iwyu_preprocessor.cc', 'iwyu_output.cc'], [('inhibition', 'iwyu_preprocessor.cc:IncludeIsInhibited, ForwardDeclareIsInhibited')],
     ['add section'])
prop('C27', 'Exactly the requested files are reported on',
     'Reports are emitted for the main file, its associated headers (same stem, or marked with the associated pragma) '
     'and files matching --check_also, and for no other; includes provided by the associated header are not repeated in the source '
     'file; --transitive_includes_only never asks a file for a header (mapped names aside) that it does not reach already.',
     ['programs', 'configurations'],
     'all file layouts x names x --check_also patterns',
     'fixed examples in tests',
     ['iwyu_preprocessor.cc', 'iwyu_globals.cc', 'iwyu_path_util.cc', 'iwyu_output.cc'], [('scope', 'iwyu_preprocessor.cc:BelongsToMainCompilationUnit'), ('glob', 'iwyu_globals.cc:ShouldReportIWYUViolationsFor')],
     ['set of reported files'])
prop('C28', 'Mapping files are honoured, transitively and by pattern',
     'With include mappings (literal or regular expression, any chain or nesting of refs, any number of files, any order), a symbol '
     'from a private header is attributed to a public header reachable through the mappings, preferring one already included, and never to a '
     'private one when a public one is reachable; symbol mappings override the defining header.',
     ['inputs', 'configurations', 'programs'],
     'all mapping graphs x file organisations x user programs',
     'the tests use a few fixed mapping files',
     ['iwyu_include_picker.cc', 'iwyu_regex.cc', 'iwyu_output.cc'], [('transitive closure', 'iwyu_include_picker.cc:MakeMapTransitive'), ('regex expansion', 'iwyu_include_picker.cc:ExpandRegexes'), ('loading', 'iwyu_include_picker.cc:AddMappingsFromFile')],
     ['full-list section'])
prop('C29', 'Bad mapping files are rejected without harm',
     'Any mapping file, however malformed, missing, self-referential or cyclic, makes IWYU at most print a '
     'diagnostic that names the problem; the run terminates without crashing, keeps the valid mappings read before the fault, and still analyses the program.',
     ['inputs', 'fault_sequences'],
     'all byte strings and all structural corruptions of mapping files',
     'tests load valid files only',
     ['iwyu_include_picker.cc'], [('loading', 'iwyu_include_picker.cc:AddMappingsFromFile')],
     ['exit status', 'stderr', 'report'])
prop('C30', 'Standard library advice names public headers only',
     'For code using the C or C++ standard library, every header IWYU advises is a public one (never an implementation '
     'header), providing the used name by itself: a program with only the advised includes compiles.',
     ['programs'],
     'all combinations of standard library names used in a file x initial includes',
     'a few fixed std programs are tested',
     ['iwyu_include_picker.cc', 'iwyu_preprocessor.cc'], [('default mappings', 'iwyu_include_picker.cc: built-in tables'), ('@headername', 'iwyu_preprocessor.cc:ProcessHeadernameDirectivesInFile')],
     ['add/full-list sections', 'compiler'])
prop('C31', 'String utilities meet their contracts',
     'The string helpers (prefix and suffix tests, stripping, cutting, replacing, shortening, and splitting at a divider or at white space with and without quotes) '
     'agree with their documented meaning for every string, including empty ones, repeated delimiters and arbitrary bytes, and split is inverted by join.',
     ['inputs'],
     'all strings and delimiters',
     'five example-based tests cover a few of the functions',
     ['iwyu_string_util.h'], [('helpers', 'iwyu_string_util.h')],
     ['return values'])
prop('C32', 'Path utilities meet their contracts',
     'Path normalisation is total, idempotent and keeps the meaning of the path; source, header, -inl and test files of one stem have one canonical name; '
     'and a path under a header search directory becomes the name by which the compiler would find that file (longest matching '
     'directory, angled exactly for system directories), except that a header already included keeps the name it is included by.',
     ['inputs', 'configurations'],
     'all paths x search path configurations',
     'not tested in the default test set',
     ['iwyu_path_util.cc'], [('conversion', 'iwyu_path_util.cc:ConvertToQuotedInclude, NormalizeFilePath, GetCanonicalName')],
     ['return values'])
prop('C33', 'Regular expressions match whole names in both dialects',
     'A mapping or friend pattern applies to a name exactly when it matches the whole name, in both dialects alike for patterns in their common '
     'subset, whatever alternations or anchors the pattern contains, and replacement rewrites only whole-name matches.',
     ['inputs'],
     'all patterns of the common subset x all names x both dialects',
     'tests use two or three patterns',
     ['iwyu_regex.cc'], [('anchoring', 'iwyu_regex.cc:RegexMatch, RegexReplace')],
     ['return values'])
prop('C34', 'The driver hands Clang the arguments the user wrote',
     'IWYU analyses the same translation unit the compiler would compile with the same arguments: -D, -U, -I, -isystem, -include, -x, '
     '-std and response files have their usual effect, -Xiwyu options reach IWYU in any position and only IWYU, and a '
     'command line without any compilation is refused.',
     ['inputs', 'configurations'],
     'all argument lists over preprocessor-relevant options and -Xiwyu options in any order',
     'a few driver tests with fixed arguments',
     ['iwyu_driver.cc', 'iwyu_globals.cc', 'iwyu.cc'], [('driver', 'iwyu_driver.cc:ExecuteAction'), ('option split', 'iwyu_globals.cc:OptionsParser')],
     ['report text', 'exit status'])
prop('C35', 'Mapping generators emit valid and complete mappings',
     'For any header tree, each mapping generator prints a mapping file that IWYU accepts, containing a mapping for every private header that its '
     'documented convention maps, only to public headers existing in the tree and deterministically.',
     ['inputs'],
     'all header trees following the library conventions',
     'the generators have no tests',
     ['mapgen/iwyu-mapgen-libstdcxx.py', 'mapgen/iwyu-mapgen-qt.py', 'mapgen/iwyu-mapgen-cpython.py', 'mapgen/iwyu-mapgen-apple-libc.py'],
     [('generators', 'mapgen/*.py:main')],
     ['generated mapping text'])

prop('C36', 'IWYU copes with every program the compiler accepts',
     'For every C++ program that the compiler accepts, over all language constructs and under any combination of compiler flags and IWYU options, IWYU '
     'ends normally with status 0 and one complete, well-formed report for the main file and its associated header. For every program the compiler rejects it '
     'shows the compiler\'s errors and ends with a nonzero status, without advice and without crashing.',
     ['programs'],
     'all programs, valid or damaged, over the C++20/23 constructs, compiler flags and IWYU options',
     'the tests run some 200 fixed programs, nearly all valid, each about one feature; combinations of constructs and damaged programs are not run',
     IWYU, [('AST walk', 'iwyu.cc:BaseAstVisitor'), ('AST nodes to text', 'iwyu_ast_util.cc'), ('forward declarations', 'iwyu_output.cc'), ('exit status', 'iwyu.cc:IwyuAstConsumer::HandleTranslationUnit')],
     ['exit status', 'report or diagnostics on stderr'])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ids = [p['id'] for p in P]
    assert len(set(ids)) == len(ids)
    for p in P:
        assert len(p['title']) <= 80, p['title']
    with open(os.path.join(here, 'properties.jsonl'), 'w', encoding='utf-8') as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    print(len(P))
