NOTES = ("No hooks are compiled into /repo: every monitor sits at the public API, at the process boundary, in the wasm import table "
  "or in the generated code. /repo carries only fix: commits, listed in known_findings.txt.")
NOT_CLAIMED = {}

P('P01', 'A stylesheet is parsed into exactly what it says',
  "Every stylesheet of the supported grammar (declarations, blocks, nested @media/@supports/@container rules, @keyframes) is accepted at run time and yields exactly the declarations, selectors, conditions and nesting it spells, in source order. Whitespace and comments wherever CSS allows them, quoting style and optional trailing semicolons do not change the result; strings, function arguments and escapes reach the result character for character.",
  ['inputs'], 'all stylesheets of the supported grammar, in all their spellings',
  'The unit tests parse about forty hand-written sheets; the grammar is unbounded and the parser is a hand-ordered set of alternatives where one accepted construct can shadow another.',
  [CORE+'parser.rs', CORE+'ast/sheet.rs', STY+'style_src.rs'],
  [('nom parser: sheets, blocks, rules, declarations, strings', CORE+'parser.rs'), ('entry point and cache', CORE+'ast/sheet.rs')],
  ['Sheet::from_str result, walked through the public AST'],
  'model-based workload with an independent AST oracle (differential runtime monitor)',
  'Random sheets are generated as meaning, printed in random spellings, parsed by the real parser and compared node by node with the model. Trusts the printer and the normaliser in harness/oracle (independent of the code under test). Whitespace inside values and selectors is compared modulo runs.')
P('P02', 'Malformed stylesheets are rejected and nothing is dropped silently',
  "Text that is not a complete stylesheet (unclosed block, string, bracket or comment, stray brace, declaration without colon or value, missing selector, and the like) is rejected with an error, never repaired. Whatever is accepted keeps every character of the source other than punctuation between statements, whitespace and comments, in order. This holds for any truncation or corruption of a valid sheet.",
  ['inputs'], 'all strings; in particular every truncation, deletion, duplication and byte-level mutation of valid sheets',
  'Tests cover a handful of rejected inputs; a parser that swallows text passes all of them because nobody compares what was lost.',
  [CORE+'parser.rs'],
  [('statement boundaries (prelude_text, brackets, strings, comments)', CORE+'parser.rs'), ('context errors', CORE+'parser.rs')],
  ['Sheet::from_str result; all text held by the AST'],
  'mutation fuzzing with a conservation monitor (source text vs. text held by the AST) and a truncation oracle',
  'Every prefix of generated sheets that ends inside an open construct must be rejected, fixed malformed probes must be rejected, and for every accepted mutant a conservation monitor proves that the AST text is the source minus punctuation, whitespace and comments.')
P('P03', 'Parsing any text ends promptly with a sheet or an error',
  "For every input string, creating a stylesheet from it terminates with either a sheet or an error value: it never panics, aborts, overflows the stack (for nesting depths up to sixty levels) or hangs. The time needed, also for emitting the CSS of the sheet, stays proportional to the size of the input up to a modest factor, also for hostile input. Errors can be displayed.",
  ['inputs'], 'all strings, including hostile ones (unterminated constructs repeated thousands of times, arbitrary unicode and control characters)',
  'No test feeds hostile or random text; backtracking blow-ups and index panics only show on inputs nobody wrote down.',
  [CORE+'parser.rs', CORE+'error.rs'],
  [('combinators without unbounded backtracking', CORE+'parser.rs')],
  ['process exit status, CPU time per input, returned value'],
  'fuzzing in watched child processes (panic, signal, CPU-time and deadlock watchdog)',
  'Workers parse random, mutated and pumped inputs under a CPU-time budget; growth of CPU time is measured when an input is doubled. Stack overflow beyond sixty nesting levels is outside the property.')
P('P04', 'The same text always means the same sheet, on every thread',
  "Parsing is a function of the text alone: equal texts give equal sheets with equal hashes and equal CSS, no matter what was parsed before, how often, in which order or on which thread, and different texts never receive each other's result. A failed parse fails again with the same error. Styles created from a text and from the sheet parsed from it are the same style.",
  ['histories', 'schedules'], 'all interleavings of parses of equal and different texts on any number of threads',
  'Tests parse each text once on one thread, so a cache that mixes up, drops or poisons entries is invisible.',
  [CORE+'ast/sheet.rs', STY+'style_src.rs'],
  [('process-wide cache of parsed sheets', CORE+'ast/sheet.rs')],
  ['Sheet::from_str results recorded per thread, compared offline'],
  'history recording on racing threads with an offline consistency check',
  'Eight threads parse overlapping sets of texts in random order with injected yields; every recorded result must equal the first one and the model.',
  state=[('cache', 'parsed sheets by text', CORE+'ast/sheet.rs')])
P('P05', 'A scoped style applies only inside its own class',
  "Every rule of the CSS emitted for a scoped style is confined to the style's generated class: a selector with `&` or `:root` has it replaced by the class, a selector starting with `:` is appended to the class, any other selector becomes its descendant, and bare declarations apply to the class itself. This holds for every selector of a list, inside every nesting of conditional rules, and leaves strings, comments, escapes and keyframe selectors and all other selector text alone.",
  ['inputs'], 'all scoped styles over all selectors, lists, nestings and class prefixes',
  'Tests compare a few fixed outputs; isolation between components rests on every selector form under every nesting.',
  [CORE+'ast/selector.rs', CORE+'ast/block.rs', CORE+'ast/context.rs', CORE+'ast/sheet.rs'],
  [('selector scoping', CORE+'ast/selector.rs'), ('style context', CORE+'ast/context.rs')],
  ['Style::get_style_str, Style::get_class_name, Sheet::to_style_str'],
  'emitted CSS is read by an independent CSS reader and checked online against the documented scoping rules',
  'Five public routes from sheet to CSS; sheets with unique declarations so that each emitted selector is attributed. Trusts the independent reader (harness/oracle/src/css.rs).')
P('P06', 'A global style is emitted exactly as authored',
  "The CSS of a global style carries the author's selectors unchanged except that `&` stands for `:root`, and bare declarations apply to `:root`. No generated class or id occurs in it. This holds for every selector, list and nesting, and strings, comments and escapes are left alone.",
  ['inputs'], 'all global styles over all selectors, lists and nestings',
  'Tests compare two fixed global outputs.',
  [CORE+'ast/selector.rs', CORE+'ast/context.rs', STY+'global_style.rs'],
  [('selector emission without class', CORE+'ast/selector.rs'), ('GlobalStyle creation', STY+'global_style.rs')],
  ['GlobalStyle::get_style_str'],
  'emitted CSS is read by an independent CSS reader and checked online against the documented global rules',
  'Same workload as P05, without a class.')
P('P07', 'Emitted CSS keeps every declaration, its conditions and its order',
  "The CSS emitted for a style contains every declaration of the sheet exactly once per place it was written, in source order, under exactly the conditional rules that enclosed it and no others, with keyframes kept together. Conditional rules nested in blocks are hoisted so that the result is plain CSS with balanced braces and without blocks nested in blocks. Nothing is emitted that was not written.",
  ['inputs'], 'all sheets, at any nesting depth, scoped and global',
  'Tests compare a handful of outputs at nesting depth two; hoisting state carried from one block to the next only shows on longer mixtures.',
  [CORE+'ast/context.rs', CORE+'ast/rule.rs', CORE+'ast/rule_block_content.rs', CORE+'ast/block.rs', CORE+'ast/sheet.rs'],
  [('open/close bookkeeping of conditions and blocks', CORE+'ast/context.rs')],
  ['Style::get_style_str, GlobalStyle::get_style_str'],
  'conservation and ordering monitor over events read back from emitted CSS',
  'The sequence of (at-rule stack, declaration) is compared with the model for the same routes as P05.')
P('P08', 'Emitted CSS is valid input again and means the same',
  "The CSS of every style that could be created is itself accepted by the parser, means the same when parsed and emitted again, and a second round trip changes nothing. In particular creating a style from a valid sheet never fails or panics because its own output is rejected.",
  ['inputs'], 'all sheets, scoped and global, built from text or from pieces',
  'Round trips are not tested; the debug-time validation of emitted CSS relies on them for every style.',
  [CORE+'parser.rs', CORE+'ast/context.rs', STY+'manager/mod.rs'],
  [('debug validation of emitted CSS', STY+'manager/mod.rs'), ('writer', CORE+'ast/context.rs')],
  ['Style::get_style_str parsed again by Sheet::from_str'],
  'metamorphic round-trip monitor (emit, parse, emit) over generated sheets',
  'Fix-point and meaning comparison on the CSS of every generated style.')

P('P09', 'Creating the same style again returns the registered style',
  "Within one manager, two creations with the same kind (scoped or global), class prefix and sheet content give the same style with the same class name and CSS as long as it is registered, whether the sheet came from text or from pieces. Creations that differ in kind, prefix or sheet content give different styles with different ids. Different managers never share styles.",
  ['histories', 'inputs'], 'all sequences of creations over any number of managers, prefixes and sheets',
  'Tests create one style twice; near-equal keys (prefixes that differ in case, sheets that differ in one character, order or grouping, scoped against global) are never compared.',
  [STY+'manager/registry.rs', STY+'manager/key.rs', STY+'manager/mod.rs', STY+'style.rs', STY+'global_style.rs'],
  [('registry lookup by key', STY+'manager/registry.rs'), ('get or register', STY+'manager/mod.rs')],
  ['ids and CSS of the handles returned by all constructors of Style and GlobalStyle'],
  'online monitor of random creation histories against a reference registry keyed by meaning',
  'Histories draw from pools of near-equal sheets and prefixes; a reference map from (manager, kind, prefix, meaning) to id and back is kept beside the real registry.',
  state=[('registry', 'live styles by key', STY+'manager/registry.rs')])
P('P10', 'Style ids are unique and usable as class names',
  "The id of a style is the manager's or the given prefix followed by `-` (for global styles by `-global-`) and a suffix of letters, digits, `-` and `_`. No two styles ever get the same id: not on different threads, not through different managers or prefixes, not after unregistering, and not after styles rendered elsewhere were hydrated. With random ids, this also holds between processes and between the applications of one browser.",
  ['schedules', 'histories'], 'all interleavings of style creation on any number of threads, in one process or several, with random or counted ids',
  'The only test compares two consecutive ids on one thread.',
  [STY+'utils.rs', STY+'manager/key.rs', STY+'manager/mod.rs'],
  [('random suffix / atomic counter / reservation of hydrated ids', STY+'utils.rs'), ('id format', STY+'manager/key.rs')],
  ['Style::get_class_name, GlobalStyle::id, ids in captured data'],
  'stress on racing threads and in several processes with an offline uniqueness checker',
  'About 67,000 ids per quick run, from 8 racing threads, two processes, several wasm32 instances, and builds with random and counted ids; collisions of 8 random alphanumerics have probability 1e-6 per run.',
  state=[('counter', 'next id of builds without random ids', STY+'utils.rs')])
P('P11', 'Styles live until unregistered and handles never disturb each other',
  "A style stays registered until it is unregistered or its manager goes away, no matter how many handles are dropped; unregistering affects exactly the registration the handle belongs to, and is harmless when it is already gone or has been replaced. Handles stay readable and unchanged for as long as they exist, also after unregistering and after their manager is gone. When all handles and managers are gone, everything they held is freed.",
  ['histories'], 'all sequences of create, clone, drop, unregister (also through stale handles) and drop-manager over several managers',
  'One test unregisters one style once; stale handles, managers dropped first and cycles that leak are never exercised.',
  [STY+'manager/registry.rs', STY+'manager/content.rs', STY+'manager/mod.rs', STY+'style.rs', STY+'global_style.rs'],
  [('weak link from style to manager', STY+'manager/content.rs'), ('unregister by identity', STY+'manager/registry.rs')],
  ['ids, CSS and registry membership (through re-creation) after each step; live heap blocks'],
  'model-based history monitor with an allocation ledger (counting global allocator)',
  'Every history is run three times; blocks that stay allocated in the second and the third run are leaks. Built without debug assertions, because the debug validation keeps every text it parses.',
  state=[('registry', 'live styles by key', STY+'manager/registry.rs')])
P('P12', 'A failed creation leaves no trace and corrupting pieces are refused',
  "Creating a style from malformed text returns an error and does not panic. In builds with debug assertions, a sheet assembled from pieces (such as interpolated values) whose CSS is not well formed is refused when the style is created. After either, all registered styles, the captured server-side styles and later creations are exactly as if it had not been attempted.",
  ['histories', 'inputs'], 'all histories of valid and failing creations, over all malformed texts and pieces',
  'Tests check that one malformed text is an error and never look at the manager afterwards.',
  [STY+'manager/mod.rs', STY+'style.rs', STY+'global_style.rs', CORE+'error.rs'],
  [('validation before registering and capturing', STY+'manager/mod.rs')],
  ['result of the creation; ids of all styles and captured markup before and after'],
  'fault injection (malformed sources) with a before/after state monitor',
  'Pieces whose corruption still reads as well-formed CSS are not judged. Two managers (with and without capture) are compared with the log of successful creations.')
P('P13', 'Server-side capture holds every style exactly once, in order',
  "A manager with a static writer captures each style created through it exactly once, in order of first creation, with its own id and CSS, whatever is created again, unregistered or dropped; styles of other managers are not captured. Data that has been read is a snapshot: it does not change when creation continues, on this thread or another. The serialized data lists the same styles.",
  ['histories', 'schedules'], 'all histories of creations on managers with and without writers, and all moments at which the data is read',
  'Tests render one component once and read once.',
  [STY+'manager/ssr.rs', STY+'manager/mod.rs'],
  [('capture on registration, copy on write', STY+'manager/mod.rs'), ('reader and writer', STY+'manager/ssr.rs')],
  ['StaticReader::read_style_data, write_static_markup, serialized StyleData'],
  'exactly-once and order monitor over captured data against the log of creations',
  'Reads happen at random moments, on the same or on another thread.',
  state=[('style data', 'captured styles', STY+'manager/ssr.rs')])
P('P14', 'Static markup carries the CSS intact and cannot be broken out of',
  "The static markup is a sequence of `<style data-style=\"id\">` elements, one per captured style in order, which an HTML parser reads back as exactly these elements with exactly that CSS (up to CSS escapes). No CSS text, including any spelling of `</style`, `<!--` or `<script` in strings, ends the element early or changes the elements around it. This is stated for prefixes that are valid class names.",
  ['inputs'], 'all captured styles, over all CSS texts, in particular hostile strings, urls and comments',
  'One test renders one harmless style.',
  [STY+'manager/ssr.rs'],
  [('escaping of style text', STY+'manager/ssr.rs')],
  ['write_static_markup output'],
  'injection workload read back by an independent HTML raw-text reader',
  'The reader implements the raw text state of the HTML standard: only `</style` followed by whitespace, `/` or `>` in any case ends the element.')
P('P15', 'Styles rendered on the server are found again after hydration',
  "After captured data is serialized, deserialized and loaded into a fresh manager, creating each captured style again (from text or pieces) gives the id and CSS it had on the server, scoped and global alike, and creates no second copy. Styles that were not captured get fresh ids that collide with none of the loaded ones. Loading the same data again changes nothing.",
  ['histories', 'inputs'], 'all captured style sets and all orders of re-creation',
  'One test round-trips one style; keys must survive serialization for every sheet, prefix and kind.',
  [STY+'manager/mod.rs', STY+'manager/key.rs', STY+'manager/ssr.rs', CORE+'ast/sheet.rs', CORE+'ast/str_frag.rs'],
  [('load_style_data', STY+'manager/mod.rs'), ('serialization of keys', STY+'manager/key.rs')],
  ['ids and CSS after StyleManager::load_style_data'],
  'differential monitor: server manager against hydrated manager, through JSON and bincode',
  'Random style sets through two serializers; re-creation in random order and by random routes, interleaved with new styles.')
P('P16', 'String-literal macros mean what their text means at run time',
  "For every string literal of the supported grammar, `sheet!`, `css!`, `style!` and `global_style!` compile it and yield a sheet with the meaning of the literal after each `${name}` is replaced by what its argument displays (`$${` stands for a literal `${`), the same meaning that parsing the substituted text at run time yields. This holds for every placement of an interpolation in a value, selector or at-rule condition, every spelling of the literal (raw, escaped, multi-line) and any number and order of named arguments.",
  ['inputs'], 'all literals of the supported grammar and all placements of interpolations in them',
  'Tests compile about twenty literals; macro output is only checked for these, and never against the run-time parser.',
  [MAC+'literal/mod.rs', MAC+'literal/fstring.rs', MAC+'literal/to_output_with_args.rs', MAC+'output/', CORE+'parser.rs'],
  [('splitting into text and interpolations', MAC+'literal/fstring.rs'), ('construction of the sheet', MAC+'output/')],
  ['CSS of the sheets, styles and sources the compiled macros return'],
  'generated programs run under a model oracle and a differential monitor against the run-time parser',
  'A generator writes a program with hundreds of macro invocations (180 quick, 1500 thorough); it is compiled with the real macros and run. Interpolated values are ones that keep the structure of the sheet.')
P('P17', 'Inline macros emit the written tokens with the documented spacing',
  "Inline sheets (declarations, blocks, selector lists, nested @media and @supports) yield exactly the written declarations, selectors, conditions and nesting, in source order. Tokens are written out as they stand, with a space exactly where an identifier, literal, closing bracket, `*` or `&` meets an identifier, literal, `*` or `#` (and after `and`, `or` and `not` of conditions), whatever whitespace and comments the source has; identifiers may be Rust keywords, raw or dashed.",
  ['inputs'], 'all inline sheets, with arbitrary whitespace and comments between tokens',
  'Tests compile about fifteen inline sheets.',
  [MAC+'inline/', MAC+'spacing_iterator.rs', MAC+'output/'],
  [('token spacing', MAC+'spacing_iterator.rs'), ('component values', MAC+'inline/component_value/mod.rs'), ('scopes and at-rules', MAC+'inline/parse/')],
  ['CSS of the sheets, styles and sources the compiled macros return'],
  'generated programs run under a token-level model oracle',
  'The program of P16 also holds as many inline invocations, with the meaning its token sequences have under the spacing rule. Dashes directly after a token and descendant combinators without a type selector are outside of the rule.')
P('P18', 'Faulty macro invocations are compile errors at the invocation',
  "A literal macro is refused at compile time if its text is one the run-time parser refuses, an interpolation is malformed or has no argument, an argument is unused, given twice, unnamed or without `=`, or the sheet is not a string literal. An inline macro is refused for blocks or illegal punctuation in values, numbers, blocks, `;` or illegal punctuation in selectors, nested qualified blocks, unsupported at-rules, and declarations without name, colon or `;`. Values that do not implement Display are refused by both, and the error points into the invocation.",
  ['inputs'], 'all invocations with one thing wrong with them, wherever in the sheet it stands',
  'The trybuild-style tests cover a dozen invocations; a lost validation turns typos into silently wrong CSS.',
  [MAC+'literal/mod.rs', MAC+'literal/fstring.rs', MAC+'inline/component_value/mod.rs', MAC+'inline/parse/'],
  [('argument checks', MAC+'literal/mod.rs'), ('validation of values and selectors', MAC+'inline/component_value/mod.rs'), ('error collection', MAC+'inline/parse/mod.rs')],
  ['diagnostics of the compiler, with the lines they point to'],
  'fault injection into generated invocations, monitored through compiler diagnostics',
  'Each faulty invocation has a control without the fault; every diagnostic is mapped to the invocation it points into.')
P('P19', 'Interpolated values appear exactly, and inline ones are evaluated once',
  "Whatever an interpolated expression displays (any type that implements Display, any Unicode text) appears character for character at every place it is interpolated, and nowhere else, without added or lost whitespace or formatting. Each interpolated expression of an inline macro is evaluated exactly once per evaluation of the macro.",
  ['inputs'], 'all expressions, Display implementations and displayed texts',
  'Tests interpolate a few constants; evaluation counts and unusual Display implementations are never observed.',
  [MAC+'output/str_frag.rs', MAC+'output/cow_str.rs', MAC+'inline/component_value/interpolated_expression.rs', MAC+'literal/to_output_with_args.rs'],
  [('fragments from expressions', MAC+'output/str_frag.rs'), ('argument lookup', MAC+'literal/to_output_with_args.rs')],
  ['CSS of the results, tick counters within the expressions'],
  'generated programs with counting expressions, observed at run time',
  'The interpolated invocations of the generated program with three sets of values and some twenty kinds of expression.')
P('P20', 'Macros follow the current values on every evaluation and thread',
  "Evaluating the same macro invocation again yields the sheet of the values its expressions have at that moment: results that depend on no value may be shared, results that do are never stale. This holds for any order and nesting of evaluations, on any thread, and concurrently on many threads. Equal values give equal sheets.",
  ['histories', 'schedules'], 'all interleavings of evaluations of static and dynamic invocations on any number of threads',
  'Tests evaluate each invocation once, so a sheet cached too eagerly is invisible.',
  [MAC+'output/context.rs', MAC+'output/maybe_static.rs', MAC+'output/sheet.rs'],
  [('static caching of constant parts', MAC+'output/context.rs')],
  ['CSS and identity of the results of each evaluation'],
  'history monitor over interleaved, repeated and concurrent evaluations of generated programs',
  'Four rounds in different orders with three sets of values each, then eight threads at once, against the meaning expected for the values.')
P('P26', 'Sheets are values: equal meaning, equal hash, equal CSS, equal after serde',
  "Sheets built from equal pieces are equal, hash equally and emit the same CSS, whether their pieces are borrowed or owned, static or allocated, and clones stay equal and independent. Sheets that differ in any key, value, selector, condition, name, order or nesting are unequal. Serializing and deserializing a sheet gives an equal sheet.",
  ['inputs'], 'all sheets and all single-point changes of them',
  'Tests compare identical literals only; the registry and hydration depend on these laws for every sheet.',
  [CORE+'ast/sheet.rs', CORE+'ast/block.rs', CORE+'ast/rule.rs', CORE+'ast/str_frag.rs', CORE+'ast/scope_content.rs'],
  [('derived and manual Eq, Hash, serde of the AST', CORE+'ast/')],
  ['==, Hash, Clone, serde and to_style_str of Sheet'],
  'algebraic-law monitor over generated sheets and their single-point mutations',
  'Every generated sheet is compared with a rebuilt copy and with single-point mutants of its meaning.')
P('P21', 'A component\'s styles go to the manager of its nearest provider',
  "Every style made while a component renders (css! in a styled component or in a hook marked styled_component_impl, use_style with text, sheet, macro or a source made elsewhere) is created with, and only with, the manager of the nearest provider above that component, however providers are nested, suspended or rendered concurrently; a provider within the component's own output does not count. Without a provider the default manager of the thread is used. css! outside of styled components yields a source that knows no manager and uses the default one when it becomes a class. The rendered class names exactly the style that was asked for.",
  ['configurations', 'schedules'], 'all component trees, nestings of providers, and interleavings of renderings',
  'The tests render one component below zero or one provider; nesting, suspension and concurrent renderings are never combined.',
  [STY+'yew/provider.rs', STY+'yew/hooks/use_style.rs', MAC+'styled_component.rs', MAC+'styled_component_impl.rs', MAC+'sheet.rs', STY+'style_src.rs'],
  [('context of managers', STY+'yew/provider.rs'), ('manager of a source', STY+'style_src.rs'), ('hook inserted into components', MAC+'styled_component_impl.rs')],
  ['class attributes in the markup; styles captured by each manager'],
  'random component trees rendered on the server, each class traced to the manager that captured it',
  'Eleven kinds of styled components below random nestings of providers and suspended parts, three renderings interleaved on each of four threads. Every class is looked up in what the managers captured and its CSS compared with its meaning.')
P('P22', 'Global components give exactly their styles to the nearest manager',
  "A rendered Global component registers exactly the global style it was given, unscoped, with the manager of the nearest provider above it (or the default manager), whatever form the style is given in. After a server-side rendering the captured styles of a manager are exactly the styles and global styles its part of the tree asked for, each once, even when components have been dropped by the end of the rendering.",
  ['configurations', 'histories'], 'all component trees with Global components',
  'One test renders one Global component.',
  [STY+'yew/global.rs', STY+'global_style.rs', STY+'manager/mod.rs', STY+'manager/registry.rs'],
  [('memoised guard of the global style', STY+'yew/global.rs')],
  ['styles captured by each manager after a rendering'],
  'random component trees, captured set of each manager against the set the tree asks for',
  'Multisets of captured styles per manager compared with the model of the tree, including duplicates and suspended parts.')
P('P23', 'Each provider ships all styles rendered below it to the client',
  "In hydratable markup every ManagerProvider carries the style data of its manager, and it covers every style and global style rendered below this provider with its manager: after loading it into a fresh manager, creating these styles again gives the rendered class names and the same CSS. Data holds nothing the manager did not capture; a manager that captures nothing ships nothing.",
  ['configurations'], 'all component trees and suspensions',
  'One test looks for one style in the markup of one component.',
  [STY+'yew/provider.rs', STY+'manager/mod.rs'],
  [('transitive state holding the style data', STY+'yew/provider.rs'), ('load_style_data', STY+'manager/mod.rs')],
  ['component state scripts in the markup, decoded; styles created after loading them'],
  'round-trip monitor: shipped state decoded, loaded and compared with rendered classes',
  'The state scripts of random hydratable trees are matched with the providers in order, decoded with bincode and loaded.')
P('P29', 'Media query hooks agree with their fallback on the server',
  "use_prepared_media_query renders the given fallback on the server, never panics there, and does not disturb the styles around it, in hydratable and plain renderings.",
  ['configurations'], 'all fallbacks, trees and rendering modes',
  'The hook has no test.',
  [STY+'yew/hooks/use_media_query.rs', STY+'arch.rs'],
  [('prepared state with the fallback', STY+'yew/hooks/use_media_query.rs')],
  ['the markup rendered by a component using the hook'],
  'random component trees rendered on the server, value of the hook compared with the fallback',
  'The hooks are placed at random within the trees of P21.')
P('P24', 'In a document, the style elements are exactly the styles in use',
  "In a browser, every style that is in use has exactly one <style> element, in the container of its manager, marked with its id and holding its CSS; new ones are added after (append) or before everything else in the container. An element appears when its style is first created and is removed when the style is no longer in use (unregistered and without handles, or its manager gone), whatever the container is (head, element, shadow root, fragment, detached element, document of a frame) and whatever else happens to the container. A style that cannot be mounted is not created. Elements of others are never touched.",
  ['histories', 'configurations', 'fault_sequences'], 'all histories of managers, styles and changes of the document by others',
  'No test runs any of the wasm32 code; histories and containers are unbounded.',
  [STY+'style.rs', STY+'global_style.rs', STY+'manager/content.rs', STY+'manager/mod.rs', STY+'manager/registry.rs', STY+'arch.rs'],
  [('mount, unmount', STY+'manager/mod.rs'), ('removal when dropped', STY+'manager/content.rs')],
  ['children of every container after every operation'],
  'the wasm32 build run in a monitored document under random histories, compared with a model after every step',
  'The crate is built for wasm32 and runs in node against a document of its own (harness/ww/js): every call it makes into the document passes through the import table. A model of managers, handles and containers says which children each container must have. Trusts that document model, which fails loudly for what it does not know.')
P('P27', 'Media query hooks show what the query says now',
  "In a browser, use_media_query and use_prepared_media_query return whether the query they are given matches, on every rendering once pending updates ran: after the surroundings changed, after the query changed, for any number of components. A prepared fallback is used only while taking over markup from a server. Components that are gone leave no listener behind.",
  ['histories'], 'all histories of components, queries and surroundings',
  'The hooks have no test.',
  [STY+'yew/hooks/use_media_query.rs', STY+'arch.rs'],
  [('listener held by an effect', STY+'yew/hooks/use_media_query.rs')],
  ['attributes rendered by components using the hooks; listeners of the document'],
  'the wasm32 build run in a monitored document, rendered values compared with the surroundings after every change',
  'Components are added, removed, reordered and given other queries while width, colour scheme and medium change, also before the first rendering.')
P('P28', 'What components render is styled, and global styles go with them',
  "In a browser, after every rendering the class of every element belongs to a style element that says what its component asked for, in the container of the nearest manager above; no style is in the document twice; exactly the global styles of the Global components currently rendered are in the document, with the right manager. Changing values, texts, managers and structure, suspending and unmounting keep it so, and without components and managers nothing is left.",
  ['histories', 'configurations'], 'all sequences of component trees',
  'No test re-renders a component in a document.',
  [STY+'yew/global.rs', STY+'yew/provider.rs', STY+'yew/hooks/use_style.rs', STY+'yew/mod.rs', MAC+'styled_component.rs'],
  [('memoised guard of the global style', STY+'yew/global.rs'), ('manager taken from the context', STY+'yew/hooks/use_style.rs')],
  ['markup of the application and all style elements after every rendering'],
  'the wasm32 build run in a monitored document, elements and style elements compared with the rendered tree',
  'Random trees of fourteen kinds of components are rendered and mutated; some renderings are overtaken by the next.')
P('P30', 'A client takes over a server-rendered page without changing its styles',
  "When an application is hydrated, every element keeps its class, no style element is added, removed or changed, and prepared media queries show the fallback first and what the query says afterwards. From then on the page behaves like one rendered in the browser: styles are mounted and unmounted as components, values and managers change, and without components and managers nothing is left.",
  ['configurations', 'histories', 'schedules'], 'all component trees, orders in which shipped states arrive, and later renderings',
  'One browser-only example test compares two markups; nothing re-renders after hydration.',
  [STY+'yew/provider.rs', STY+'yew/global.rs', STY+'manager/mod.rs', STY+'manager/registry.rs', STY+'yew/hooks/use_media_query.rs'],
  [('transitive state loaded before children are rendered', STY+'yew/provider.rs'), ('load_style_data', STY+'manager/mod.rs')],
  ['style elements and markup before and after hydration, and after every later rendering'],
  'pages rendered natively, hydrated by the wasm32 build in a monitored document with shipped states arriving in random order',
  'The same random tree is rendered by the native server renderer and hydrated in the document; fetches of shipped states are answered after random delays. Cases in which yew 0.22 gives up with its own internal error on a later rendering end there (counted).')
P('P25', 'Servers give back what rendering and styling took',
  "On a server and in native programs memory does not grow with repetition: rendering a page again with fresh managers, captured data and readers, creating and unregistering the same styles in a manager that stays, evaluating macros with values never seen before, loading data and refused creations leave no more memory allocated than doing it before, once managers, handles, captured data and markup are dropped and styles of managers that stay are unregistered. (What run-time texts parse to is kept once per text; builds with debug assertions also keep the CSS they parse again.)",
  ['histories', 'configurations'], 'all pages and histories, repeated any number of times',
  'No test measures memory; a cycle of strong references or a cache without bound passes all of them.',
  [STY+'manager/mod.rs', STY+'manager/content.rs', STY+'manager/registry.rs', STY+'manager/ssr.rs', CORE+'ast/sheet.rs', STY+'yew/provider.rs'],
  [('weak reference to the manager', STY+'manager/content.rs'), ('registry', STY+'manager/registry.rs'), ('captured data', STY+'manager/ssr.rs')],
  ['live blocks and bytes of the allocator after every repetition'],
  'counting allocator: allocations left after every repetition of a rendering or history',
  'A page or history is repeated seven times in one process, built without debug assertions; blocks or bytes that grow in every repetition after the second are a leak.')
P('P31', 'Browsers get everything back from an application that is gone',
  "In a browser, showing an application, rendering it again with other values, managers and media queries, and unmounting it leaves no more memory allocated, no more references to objects of the browser, no more nodes in the document and no listener of a media query than showing it before, once its managers are dropped. The same holds for histories of styles, managers and containers without components.",
  ['histories', 'configurations'], 'all applications and histories, repeated any number of times',
  'No test unmounts an application or looks at what is left.',
  [STY+'manager/mod.rs', STY+'manager/content.rs', STY+'yew/global.rs', STY+'yew/hooks/use_media_query.rs', STY+'yew/provider.rs'],
  [('elements held by contents', STY+'manager/content.rs'), ('listener held by an effect', STY+'yew/hooks/use_media_query.rs'), ('guard of the global style', STY+'yew/global.rs')],
  ['live blocks and bytes of the allocator, table of references to browser objects, nodes of the documents, listeners, after every repetition'],
  'counting allocator and reference table of the wasm32 build in a monitored document, compared after every repetition',
  'Sequences of component trees, watched media queries and plain histories are repeated seven times in one instance. Whatever grows in every repetition after the second is a leak.')
P('P32', 'How the library is built does not change what styles mean',
  "With or without debug assertions and optimisation, for servers and for wasm32, with and without random ids, the debug parser, style locations, yew, server-side rendering and hydration, the same program gives the same results: texts are accepted, refused with the same error and understood alike, the same CSS is emitted, styles are shared, registered, captured, serialized, hydrated and rendered alike, and ids differ in their suffix only. Only refusing corrupting pieces (debug assertions and debug parser) and the class that says where a style was made (debug assertions and style locations) depend on the build.",
  ['inputs', 'histories', 'configurations'], 'all texts, sheets, macros, histories and pages, and all combinations of optional features, profiles and targets',
  'The tests run in one build; what only happens without debug assertions, without a feature or on the other target is never executed.',
  [STY+'manager/mod.rs', STY+'manager/registry.rs', STY+'style_src.rs', STY+'utils.rs', STY+'yew/mod.rs', STY+'yew/provider.rs', CORE+'ast/sheet.rs', CORE+'error.rs'],
  [('parts compiled conditionally', STY+'manager/mod.rs'), ('entropy of ids', STY+'utils.rs'), ('style locations', STY+'style_src.rs')],
  ['results of parsing and creating styles, class names, CSS, captured data, markup, in seven builds'],
  'differential monitor: transcripts of one generated workload in seven builds (debug, release, reduced features, wasm32 in a document) compared line by line',
  'Ids are replaced by their order of appearance, a malformed id stays visible. The first build is the one the other checks judge against independent oracles.')
P('P33', 'A refused text is told what is wrong with it, and where',
  "When a text is refused, the error is a parse error that points at the first declaration, block or rule on the outermost level that cannot be read: what stands before that place is a valid sheet of exactly the statements written before it. Every place the error names is a place of the text, and the message shows the line it is in under its number. The error is the same whenever, on whichever thread and through whichever way of creating a style or sheet the text is refused.",
  ['inputs'], 'all texts that are not stylesheets, however long, and all places where something is wrong',
  'The tests only look at whether parsing fails; an error that blames the wrong line, a text parsed earlier or nothing at all passes them.',
  [CORE+'error.rs', CORE+'parser.rs', CORE+'ast/sheet.rs', STY+'style_src.rs'],
  [('error construction', CORE+'parser.rs'), ('error type and message', CORE+'error.rs')],
  ['Error::Parse of Sheet::from_str and of creating styles: message, places'],
  'fault injection into generated sheets with an oracle for the place, checked against the recorded places, the message and the text before the place',
  'The place of a fault between statements or of a cut is known exactly from how the text was put together; for random damage the text before the place must be a sheet. How deep inside of a statement the fault lies is not part of the property.')
P('P34', 'Elements tell where their style was written, if asked to',
  "With style locations on (feature debug_style_locations, on by default, and debug assertions), an element that is given a StyleSource has, beside the class of its style, one more class file:line:column: the place in the author's source of the css! invocation or conversion (StyleSource::from, try_from, from_str, into) that made the source. The place is that of the invocation the author wrote, also in styled components, inside of other macros and over several lines, and it stays the same when the source is cloned, stored, handed on, memoized, given another manager or used several times. Without the feature or without debug assertions elements get the class of the style and nothing else. Either way the styles are the same.",
  ['inputs', 'configurations'], 'all ways of writing, moving and using a StyleSource, in all builds',
  'No test renders a StyleSource and looks at the place; a place that is off by a macro, lost in a clone or kept in release builds passes all of them.',
  [STY+'style_src.rs', STY+'yew/mod.rs', MAC+'css.rs', MAC+'styled_component_impl.rs'],
  [('location of the caller', STY+'style_src.rs'), ('class of the location', STY+'yew/mod.rs'), ('invocations in styled components', MAC+'styled_component_impl.rs')],
  ['class attributes of rendered elements'],
  'generated components rendered on a server in three builds, their classes compared with the places known from writing the source',
  'Components are generated from kinds of invocations, ways of moving a value and ways of using it, with marks where each source is made; the generator knows line and column of every mark. Calls through traits of std that hide their caller (TryInto::try_into, str::parse) and properties converted from text cannot know the place and are not part of the property.')
P('P35', 'Macros mean the same wherever they are written',
  "An invocation of sheet!, css!, style! or global_style! is accepted and gives the same sheet wherever an expression may stand: in generic, async, recursive and nested functions, methods, traits, closures, loops, threads and other macros, in every edition, in modules without the prelude, and whatever names the author gives to own types, traits, methods, functions, modules, macros, constants and variables. Interpolated expressions mean what they mean outside of it: they see the author's items and variables and nothing of the macro's, borrow instead of moving, may use temporaries and other invocations, and ?, return, break, continue and await leave or suspend the surrounding code.",
  ['inputs', 'configurations'], 'all surroundings of an invocation and all expressions in it, in all editions',
  'The tests invoke macros in plain test functions with a handful of literals; a name, trait or static the generated code relies on works there and breaks in the code of some user.',
  [MAC+'output/sheet.rs', MAC+'output/cow_str.rs', MAC+'output/maybe_static.rs', MAC+'output/context.rs', MAC+'css.rs', MAC+'style.rs', MAC+'global_style.rs'],
  [('generated sheets', MAC+'output/sheet.rs'), ('generated strings', MAC+'output/cow_str.rs'), ('generated vectors and constants', MAC+'output/maybe_static.rs')],
  ['CSS of the sheet, style or source an invocation gives', 'diagnostics of the compiler'],
  'generated modules with invocations in generated surroundings, compiled in three editions and run, their CSS compared with a model',
  'Kinds of surroundings, hostile names and expressions are combined by a generator that knows what each expression displays every time. A blanket trait with a method named clone and a type named str are not part of the surroundings.')
P('P36', 'A styled component is the component it would be without the mark',
  "Every function that yew takes as a function component or a hook may be marked with styled_component (in place of function_component, with or without a name for the component) or styled_component_impl (in front of hook), and is then the same component or hook: with the same props, generics, bounds, attributes, visibility and results, in every edition, in modules without the prelude, and whatever names the author gives to items, macros and variables. Within it css! may be used wherever an expression may stand (closures, loops, matches, macros defined inside, returns, memoized values), any number of times, sees the author's variables and nothing of the macro's, and makes styles that are created with the manager of the nearest provider.",
  ['inputs', 'configurations'], 'all function components and hooks yew accepts, in all surroundings and editions',
  'The tests mark a few plain functions in modules that import everything; a bound, name or prelude item the generated code loses or relies on is not among them.',
  [MAC+'styled_component.rs', MAC+'styled_component_impl.rs', MAC+'css.rs'],
  [('expansion of the marks', MAC+'styled_component_impl.rs'), ('names of components', MAC+'styled_component.rs')],
  ['markup and captured styles of every component', 'diagnostics of the compiler'],
  'generated components and hooks, each with and without the mark, compiled in three editions and rendered below managers of their own, every class looked up in what its manager captured',
  'What is refused without the mark is left out and counted. Closures that move the manager are used once per component; functions within a component and code brought into a macro from outside do not see its css!.')
