"""Writes properties.jsonl and MANIFEST.json from one table (run: python3-vt vf/meta.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I, Hi, Co, Pr = 'inputs', 'histories', 'configurations', 'programs'
P = []
def p(id, title, st, over, q, why, files, mech, obs=(), claim=None, na=None, note=None):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=['src/' + f for f in files], mechanism=[dict(name=a, where='src/' + b) for a, b in mech], observe_at=list(obs), hook_needed=None)))
    if claim: CLAIM[id] = note or ''
    else: NA.append(dict(property=id, reason=na or 'not yet under contract'))
CLAIM, NA = {}, []

p('P01', 'Check selection follows the documented precedence',
  'Whether a check is enabled depends only on the four lists of check names (disabled in the configuration, enabled in the configuration, disabled on the command line, enabled on the command line): the last of these lists, in that order, that contains the name decides, and a check named in none is enabled. With the "only enabled" option a check is enabled exactly when it is in the command-line enable list. A check name is matched as a whole, and a name is accepted as valid exactly when it is a severity letter, a dash and a number within the range of that severity.',
  [Co], 'for all check names and all contents of the four lists', 'tests try a few lists; the property quantifies over every combination and list length',
  ['runner.c', 'check_hooks.c', 'string_list.c'], [('is_check_enabled', 'runner.c'), ('is_valid_check', 'check_hooks.c')], ['selint -e/-d/-E'], claim=True)

p('P02', 'Exactly the enabled checks at or above the level are registered',
  'For every minimum severity level (C, S, W, E or F), every selection of checks and every state of the permission and class tables, register_checks returns a registry that holds exactly the enabled checks whose severity is at least the level, each once for every kind of syntax element it applies to, under its own identifier and with its own function; E-007 and E-008 are left out while permissions or classes are unknown. An unknown level registers nothing and is reported as an error. Adding a check keeps every check registered earlier for that kind of element, in order, and appends the new one with a zero issue count.',
  [Co], 'for all levels, lists of enabled/disabled checks and element kinds', 'tests count registrations for a few levels; the map over all element kinds, levels and selections is never checked',
  ['runner.c', 'check_hooks.c'], [('register_checks', 'runner.c'), ('add_check', 'check_hooks.c')], ['selint -l'], claim=True)

p('P03', 'Every syntax element of a file is checked exactly once, in source order',
  "The traversal of a file's syntax tree moves from an element to its first child, else to its next sibling, else to the next sibling of the nearest ancestor that has one, so every element is visited exactly once in source order and the walk terminates. For every visited element the checks registered for its kind are run on that element, and after the last one they are run once on a blank clean-up element.",
  [I, Pr], 'for all syntax trees of any depth and width', 'tests walk a few small trees',
  ['util.c', 'tree.c', 'runner.c'], [('dfs_next', 'tree.c'), ('run_checks_on_one_file', 'runner.c')], ['selint output'], claim=True)

p('P04', 'Inline suppression silences exactly the named checks on that element',
  'A check whose identifier occurs in the suppression text attached to an element is not run on that element, produces no report for it and leaves all counters unchanged. Every other check registered for that kind of element is still run on it, in registration order, and no check is skipped on an element without suppression text. The suppression text of an element is everything that follows disable: in its selint comment.',
  [I, Co], 'for all lists of registered checks, suppression texts and elements', 'tests cover one or two ids on one line',
  ['check_hooks.c'], [('call_checks_for_node_type', 'check_hooks.c')], ['selint output'], claim=True)

p('P05', 'Every issue a check reports is counted and shown exactly once',
  "Whenever a check that runs on an element returns an issue, that registration's counter grows by exactly one, the program remembers that an issue was found, and exactly one report with the element's line number and the check's severity, number and message is printed unless output is suppressed; when a check returns nothing, nothing is counted or printed. Checks run in the order in which they were registered, and nothing else changes the counters. This holds for a single element and for a whole file.",
  [I, Hi], 'for all check lists, elements and sequences of results', 'tests call the function on one element with a list of one or two checks',
  ['check_hooks.c'], [('call_checks_for_node_type', 'check_hooks.c')], ['selint output and exit status'], claim=True)

p('P06', 'The summary is ordered and adds up',
  'The order used for the summary puts checks by severity (convention, style, warning, error) and then by number, is antisymmetric and transitive, and calls two registrations equal exactly when severity and number agree. The number of registrations the summary is built from is the total over all element kinds.',
  [I, Co], 'for all sets of registered checks', 'tests print one small summary',
  ['check_hooks.c'], [('comp_check_nodes', 'check_hooks.c'), ('count_check_nodes', 'check_hooks.c')], ['selint --summary'], claim=True)
p('P07', 'Membership, copying and concatenation of name lists are exact',
  'A name is a member of a list exactly when some element equals it as a whole string. A copy of a list has the same elements (text and spacing mark) in the same order and shares no storage with the original, which stays unchanged; concatenating two lists yields the elements of the first followed by those of the second, an empty list being neutral; appending a text adds exactly one element holding a private copy of it at the end. A list made from a text has that text (or its first n characters) as its only element.',
  [I], 'for all lists and strings', 'tests use lists of at most three elements',
  ['string_list.c'], [('str_in_sl', 'string_list.c'), ('copy_string_list', 'string_list.c'), ('concat_string_lists', 'string_list.c')], [],
  claim=True, note='Unbounded proof; copying by an inductive loop summary, appending by a lemma over list values proved by induction. The variadic sl_from_strs and the release of lists (free_string_list) are not covered.')
p('P08', 'Symbol tables: the first definition wins and kinds do not interfere',
  'Looking up a symbol, module state, module layer, interface or permission macro returns what the first definition of that whole name recorded for that kind (a private copy of the text given), and nothing when it was never defined; later definitions of the same name, other names and other kinds never change the answer, and counts equal the number of distinct names defined. Marking an interface as transforming, file-transition or role interface is remembered for exactly that interface and kind. Declarations and calls recorded for a template are kept in order, each template separately.',
  [Hi], 'for all sequences of definitions and look-ups', 'tests insert a handful of names',
  ['maps.c'], [('insert_into_decl_map', 'maps.c'), ('look_up_in_decl_map', 'maps.c'), ('insert_into_template_map', 'maps.c')], [], claim=True, note='Unbounded proof of the finite-map laws by executing the real look-up functions on the state before and after each update. uthash itself is trusted to be a finite map from byte strings; free_all_maps is not covered.')
p('P09', 'Syntax tree elements are linked consistently with their nesting',
  'Every parser action (append an element, open a block, close a block, add a child) creates exactly one new element of the right kind with the given line and private content (a block also gets its start marker), leaves every other element unchanged, and afterwards the parent, previous, next and first-child links of every element agree with each other. Opening a block makes its start marker the current element; closing a block returns to the element that opened it, and closing a block of a different kind than the open one is reported and changes nothing. The enclosing template of an element is the nearest enclosing template definition.',
  [Pr], 'for all trees and nestings', 'tests build trees of two or three elements',
  ['tree.c', 'parse_functions.c'], [('insert_policy_node_child', 'tree.c'), ('insert_policy_node_next', 'tree.c'), ('begin_block', 'parse_functions.c')], [], claim=True,
  note='Unbounded proof for every parser action. Not covered: that the bison-generated automaton calls the actions in source order, and free_policy_node.')
p('P10', 'Template expansion substitutes arguments exactly',
  'Expanding a template text with a list of arguments replaces every occurrence of a dollar sign followed by an argument number with that argument, keeps all other characters, and yields a complete text for every combination of text, argument count and repetitions without touching memory outside its buffers. A number beyond the given arguments is replaced by nothing.',
  [I], 'for all template texts and argument lists', 'tests expand two or three fixed strings',
  ['template.c'], [('replace_m4', 'template.c')], [],
  na='replace_m4 writes through two running indices into a buffer whose size it computes itself; the byte-level buffer model this needs was not brought to a full proof. Four defects found while writing the contract are fixed.')
p('P11', 'File-context lines are parsed completely or reported',
  'Every line of a file-context file becomes, in file order and with its own line number, either an entry or an error element, except empty lines, lines that start with # or with one of the m4 markers ifdef, ifndef, quote-parenthesis, closing-quote forms, and calls of a custom file-context macro, which are skipped. A line becomes an entry exactly when it has the form path, optional object type (a dash and one character), and <<none>> or a security context (user:role:type with optional range, written plainly or as gen_context(context[,level[,categories]])), with blanks anywhere between the columns; the entry carries exactly those parts, and whether the context macro was used. No line makes the parser read or write outside the text of the line.',
  [I], 'for all lines and files', 'tests parse a dozen lines', ['parse_fc.c'], [('parse_fc_line', 'parse_fc.c'), ('parse_context', 'parse_fc.c'), ('parse_fc_file', 'parse_fc.c')], ['fc parsing'], claim=True,
  note='Unbounded proof of every function of parse_fc.c except the free_* helpers. Lines below 2^31 characters, files below 2^32 lines. strtok, strcpy, strcat and getline are modelled; the token functions of strtok are uninterpreted with bounds, so the entry is proved to consist of the tokens strtok defines.')
p('P12', 'Suspicious path patterns are reported exactly (W-004)',
  'W-004 reports a file-context path exactly when, outside bracket expressions, it contains a dot that is neither directly preceded by a backslash nor directly followed by one of * + ?, or a * or + that is not directly preceded by one of backslash . ] ). A bracket expression starts at a [ and ends at the next ] not directly preceded by a backslash. The path is read to its end and never beyond it, and entries without a security context are not reported.',
  [I], 'for all paths', 'tests check eight paths', ['fc_checks.c'], [('check_file_context_regex', 'fc_checks.c')], ['W-004'], claim=True)

p('P13', 'File-context entry checks report exactly the offending entries',
  'For every file-context entry with a security context: S-007 reports exactly the entries written with the context macro that have no range; E-003, E-004 and E-005 report exactly the entries whose user, role or type, respectively, is not declared; S-002 reports exactly the entries whose type is declared in a module other than the one the file belongs to, and nothing in base.fc, all_mods.fc and *.mod.fc when generated files are configured to be skipped. E-002 reports every line that could not be parsed. Entries without a security context are never reported by these checks.',
  [I, Pr], 'for all entries and all symbol tables', 'tests use one entry per case', ['fc_checks.c'],
  [('check_file_context_types_in_mod', 'fc_checks.c'), ('check_file_context_users', 'fc_checks.c')], ['S-002 S-007 E-002..E-005'], claim=True)

p('P14', 'Require-block and interface-structure checks are exact',
  'For every syntax tree: S-001 reports a require block in a type-enforcement file exactly when it directly contains a declaration that is not a class or permission; C-006 reports a require block exactly when two neighbouring declarations in it are out of the configured order (or repeat each other); C-004 reports exactly interface and template definitions not directly preceded by a comment; S-008 exactly gen_require blocks marked as unquoted; E-009 exactly blocks whose direct children are only markers, comments and semicolons; E-006 exactly declarations whose name is also the name of an interface. In interface files, S-004 reports exactly calls of templates whose nearest enclosing definition is an interface, and S-005 exactly declarations whose nearest enclosing definition is an interface with no require block in between.',
  [Pr, I], 'for all syntax trees and symbol tables', 'tests sample a few trees', ['te_checks.c', 'if_checks.c', 'tree.c'],
  [('check_require_block', 'te_checks.c'), ('check_unordered_declaration_in_require', 'if_checks.c'), ('check_if_calls_template', 'if_checks.c')], [], claim=True)

p('P15', 'Access-vector rule checks report exactly the offending rules',
  "For every rule and symbol table: C-005 reports exactly a permission list in which two neighbours are not in strictly increasing order (pairs that start with ~ or end with - set aside); C-007 reports exactly single-source single-target rules whose target repeats the source, where that name is a declared type or an argument ending in _t; S-009 reports exactly permission-set macros whose suffix does not fit the rule's classes; W-008 reports exactly allow rules with the permission * or ~. E-007 and E-008 report exactly rules with a permission or class that is neither declared nor a known macro, class set or (for classes) interface argument, comparing whole names.",
  [I, Pr, Co], 'for all rules, name lists of any length, symbol tables and configurations', 'tests use one or two rules per check', ['te_checks.c', 'util.c'],
  [('check_unordered_perms', 'te_checks.c'), ('check_no_self', 'te_checks.c'), ('check_perm_macro_class_mismatch', 'te_checks.c')], ['C-005 C-007 S-009 W-008 E-007 E-008'], claim=True)
p('P16', 'Interface-call and module-header checks report exactly the offending elements',
  'For every syntax tree, symbol table and configuration: W-005 reports exactly calls outside optional blocks to interfaces of another module that is listed in the module list and not part of base; W-006 reports exactly calls without arguments; W-007 exactly calls with a wrongly spaced argument (unless it starts with - and the argument before it is no declared type, attribute, role or user); W-010 exactly calls to unknown interfaces whose name has a known module name (or its usual abbreviation) as a prefix and is no built-in macro. W-009 reports exactly module headers whose name differs from the file name without its extension; S-003, S-006 and E-010 report exactly stray semicolons, bare module statements and stray words that are neither configured macros nor result values of an ifelse.',
  [I, Pr, Co], 'for all calls, headers, symbol tables and configurations', 'tests use a handful of calls', ['te_checks.c'],
  [('check_module_if_call_in_optional', 'te_checks.c'), ('check_unknown_interface_call', 'te_checks.c')], [], claim=True)

p('P17', 'Permission-macro suggestions are sound',
  'A permission macro is suggested for a rule only when the macro expands to exactly the permissions of the rule for that class. Translating permission names to the internal set and back loses no permission.',
  [I, Co], 'for all permission sets and macro definitions', 'tests use a few macros', ['perm_macro.c', 'te_checks.c'], [('permmacro_check', 'perm_macro.c')], ['S-010'],
  na='permmacro_check computes bit masks while iterating over a hash table; the abstract map that stands for the uthash tables has no iteration order to state the contract over.')
p('P18', 'Ordering check: sections and comparisons follow the style guide (C-001)',
  'The section of an element is the first source name for access-vector rules (except neverallow and auditallow rules and rules that grant associate or mounton) and type transitions; the declaration section for declarations, aliases and attribute statements outside require blocks and, outside every optional, conditional and ifdef block, for calls of templates and of interfaces marked transform or role; the first argument for other calls; calls of filetrans interfaces and all other statements are unordered, and a block has the section of its first element. Two ordered elements are compared by section (the declaration section comes first, foo, foo_t and foo_r are one section, other sections follow their average line unless both names are already in alphabetical order), within the declaration section bool before attribute before other declarations, within another section by sub-section (self, own module, related module, kernel module, kernel layer, system layer, other calls, build option, boolean, tunable, optional, as far as the variant ref, light or lax orders them), and then for ref and light calls by the module of the interface and optional blocks by their first elements. Which conditional sub-section an element belongs to is decided by the outermost optional, boolean, tunable or ifdef block around it.',
  [Pr], 'for all elements, trees, symbol tables and variants', 'tests check a few files', ['ordering.c'], [('get_section', 'ordering.c'), ('compare_nodes_refpolicy_generic', 'ordering.c'), ('get_local_subsection', 'ordering.c')], ['C-001'], claim=True,
  note='Unbounded proof of the section, sub-section and comparison functions. Not covered: the longest-increasing-subsequence selection, the computation of the average lines, and the wording of the reason. The names used in an element are taken from get_names_in_node, modelled as a function of the element.')
p('P19', 'Configuration values reach the options they name',
  'Every recognised configuration key sets exactly its own option; the severity option accepts exactly the documented names and maps each to its level; an unknown value is reported as an error.',
  [Co], 'for all configuration files', 'tests parse a few files', ['selint_config.c'], [('parse_config', 'selint_config.c')], [],
  na='Contracts are written (vf/specs/cfg.py) and insert_config_declarations is proved, but the obligations of the five list-building loops of parse_config are not discharged within the time limit of a check.')
p('P20', 'Module list and transform marking are read faithfully',
  'Loading a modules.conf file ignores lines that are empty, blank or comments, and records, in file order, exactly the module named by each remaining line with its status: the first blank-delimited word on either side of the =. It fails exactly when the file cannot be opened or such a line is not of the form name = status, and never reads or writes outside a line. Over the interfaces of all files, the transform marks end up as the least set that contains the marks already made and every interface whose body, after its require blocks, begins with a call of a marked interface.',
  [I, Pr], 'for all files and interface call graphs', 'tests read one small file', ['startup.c'], [('load_modules_source', 'startup.c'), ('mark_transform_interfaces', 'startup.c')], [], claim=True,
  note='Unbounded proof (least fixpoint of the marking, fold over the lines of the file). Assumed: the libc behaviour of getline and strtok. Reading directories (load_access_vectors_kernel, load_devel_headers) is not covered.')
p('P21', 'Names-used checks report exactly the undeclared or unused names',
  'The set of names of a rule, call or declaration is exactly the names written in it. W-001 reports exactly elements of type-enforcement files using a name that is declared in another module and neither required nor declared locally; W-002 reports exactly elements of interfaces using such a name without requiring it; W-003 reports exactly required names not used in the interface; W-011 reports exactly required names declared by the own module.',
  [Pr, I], 'for all interfaces, rules and symbol tables', 'tests sample a few interfaces', ['tree.c', 'te_checks.c', 'if_checks.c'],
  [('get_names_in_node', 'tree.c'), ('check_name_used_but_not_required_in_if', 'if_checks.c')], ['W-001 W-002 W-003 W-011'],
  na='get_names_in_node and the four checks over its result need contracts over string sets merged from nested argument lists; only its use as a function of the element (P18) is under contract.')
p('P22', 'Parsing records declarations, definitions and interface kinds where they belong',
  'A declaration outside require blocks is recorded for the nearest enclosing template if there is one, and otherwise for the current module unless its name starts with a dollar sign; inside require blocks nothing is recorded. Aliases are recorded likewise wherever they stand; starting an interface or template records its name for the current module; a call inside a template is recorded for that template, any other call expands the called template. An interface is marked as transforming, file-transition or role interface exactly when one of its direct elements is, respectively, a rule granting associate or an attribute assignment in an interface with a transforming name suffix or in module mls or mcs; a transition not on class process or a call named like a file transition; a role statement with a parameter among its types.',
  [Pr, Hi], 'for all action sequences and symbol tables', 'tests record a handful of names',
  ['parse_functions.c', 'util.h'], [('insert_declaration', 'parse_functions.c'), ('insert_interface_call', 'parse_functions.c'), ('insert_attribute', 'parse_functions.c')], [], claim=True,
  note='Unbounded proof: each action is specified by the exact sequence of table updates it performs; the updates themselves are property P08. That the generated parser calls the actions is not covered.')

def main():
    with open(V + '/properties.jsonl', 'w') as f:
        for x in P: f.write(json.dumps(x) + '\n')
    checks = []
    for x in P:
        if x['id'] in CLAIM:
            checks.append(dict(property=x['id'], quick_cmd='python3-vt vf/check.py ' + x['id'], thorough_cmd='python3-vt vf/check.py %s --thorough' % x['id'],
                technique='contract-based deductive verification: function contracts and inferred loop invariants on the LLVM IR extracted from the real C sources, obligations discharged by z3/cvc5',
                level='proof', level_note=CLAIM[x['id']] or 'Unbounded proof of every obligation, function by function. Assumes well-formed syntax trees and objects, successful allocation, and the trusted contracts and libc specifications listed in the evidence file.'))
    m = dict(version=1, setup_cmd='python3-vt -c "import z3"', checks=checks, not_applicable=NA,
        notes='Own verifier in vf/ (see DESIGN.md). No hooks in /repo.')
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
if __name__ == '__main__': main()
