"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json
import os

CFG = 'NRWAL/handlers/config.py'
EQN = 'NRWAL/handlers/equations.py'
GRP = 'NRWAL/handlers/groups.py'
DIR = 'NRWAL/handlers/directories.py'
UTL = 'NRWAL/utilities/utilities.py'


def P(pid, title, statement, over, text, why, files, mech, observe, state=()):
    return {
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [dict(zip(('name', 'meaning', 'where'), s))
                      for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
            'observe_at': observe,
            'hook_needed': None,
        }}


PROPS = [
    P('C01', 'Config expressions evaluate with standard arithmetic',
      'The value of a config entry that is an arithmetic expression over '
      'numbers (scientific notation included), names, library references and '
      'numpy calls, combined with + - * / ** (or ^), unary minus and '
      'parentheses, equals the value of that same expression under ordinary '
      'Python precedence and associativity, for every nesting, spacing and '
      'operand. An expression with unbalanced parentheses, or with square or '
      'curly brackets used for grouping, is refused with an error and never '
      'given a value.',
      ['inputs', 'programs'],
      'every well formed arithmetic expression (any depth, any operator '
      'sequence, any spacing) and every assignment of input values',
      'The tests evaluate about 25 fixed expressions, most of them with the '
      'np.allclose result discarded; no test has two subtractions or two '
      'divisions in a row, a numpy call after a parenthesis, or a signed '
      'exponent. The space of expressions is infinite.',
      [CFG, UTL],
      [('recursive splitting of the expression on operators', CFG + ':NrwalConfig._parse_equation'),
       ('parenthesis and numpy call extraction', UTL + ':find_parens/find_np_pd_methods')],
      ['NrwalConfig.evaluate() outputs', 'NrwalConfig.global_variables', 'exceptions of NrwalConfig()']),

    P('C02', 'Config references resolve alike whatever the definition order',
      'Each name in a config entry denotes what it names: a constant, another '
      'entry, a library equation path, or a path inside an entry that aliases '
      'a library group or directory; a name that is none of these is a '
      'required input. The evaluated values are the same for every order in '
      'which the entries are written, including when a numpy call or a '
      'library equation uses a computed entry that is defined later, and a '
      'computed entry wins over an equally named library default.',
      ['configurations', 'inputs'],
      'every acyclic config graph over constants, aliases, library equations, '
      'groups and directories, and every permutation of its entries',
      'Tests use a dozen hand-ordered configs, all written in dependency '
      'order; a permutation of n entries has n! orders and none is tried.',
      [CFG],
      [('reference resolution', CFG + ':NrwalConfig._parse_expression'),
       ('pass over the entries until all are solved', CFG + ':NrwalConfig.evaluate')],
      ['NrwalConfig.evaluate() outputs', 'NrwalConfig[...]', 'NrwalConfig.required_inputs']),

    P('C03', 'Config evaluation always reflects the current inputs',
      'Whatever sequence of setting, updating or clearing inputs, resetting '
      'outputs, evaluating and failing to evaluate came before, evaluating a '
      'config returns what a freshly built config returns for the inputs now '
      'in force; inputs accumulate until cleared, later values replace '
      'earlier ones. The result, the stored outputs and bracket or attribute '
      'access agree after an evaluation, the result holds every entry that '
      'is an equation other than a literal constant (and no group, directory '
      'or literal constant), and an output that was reset reads as its '
      'unevaluated expression again.',
      ['histories', 'inputs'],
      'every finite sequence of input assignments (dict, DataFrame, item '
      'assignment, None), evaluations (with or without inputs), output resets '
      'and failed evaluations on one config object',
      'The only history tested is one evaluation followed by one failing '
      'evaluation; nothing evaluates the same object twice with different '
      'inputs.',
      [CFG],
      [('input merging', CFG + ':NrwalConfig.inputs setter'),
       ('evaluation loop and output store', CFG + ':NrwalConfig.evaluate/reset_output')],
      ['return value of evaluate()/eval()', '.outputs', '[...]', 'attribute access', '.solved'],
      [('outputs', 'values of the last evaluation', CFG + ':NrwalConfig._outputs'),
       ('inputs', 'accumulated input namespace', CFG + ':NrwalConfig._inputs')]),

    P('C04', 'The reported required inputs are exactly what is needed',
      'The required inputs of a config are exactly the names its equations '
      'use that are not config entries, config constants or defaults of the '
      'equation using them, and the missing inputs are exactly the required '
      'ones not yet supplied. With all missing inputs supplied a config is '
      'solvable and evaluates; with any one of them absent it is not solvable '
      'and evaluation raises RuntimeError naming the missing input.',
      ['configurations', 'inputs'],
      'every config and every subset of its required inputs',
      'Tests count required inputs of two configs and leave out one fixed '
      'input; the exactness over all subsets and all configs is not sampled.',
      [CFG, EQN],
      [('required/missing/solvable properties', CFG + ':NrwalConfig.required_inputs'),
       ('solvability gate', CFG + ':NrwalConfig.evaluate')],
      ['.required_inputs', '.missing_inputs', '.solvable', '.all_variables', 'exceptions of evaluate()']),

    P('C05', 'Equation algebra equals arithmetic on evaluated operands',
      'Combining equations (or an equation and a number or expression text) '
      'with + - * / ** yields a new equation whose value, for any inputs, is '
      'that operator applied to the values of the operands, at any nesting '
      'depth and for negative, constant and compound operands. Its variables '
      'are the union of the operands variables and its default values are '
      'those of the operands: on conflict the right operand wins, except that '
      'a variable which only the left operand uses keeps its default there.',
      ['programs', 'inputs'],
      'every finite tree of operators over arbitrary equations, every input',
      'test_eqn_math applies each operator once to one pair of equations; '
      'negative numbers as operands, nesting and defaults are not reached.',
      [EQN],
      [('textual combination with parentheses', EQN + ':Equation.__eqn_math')],
      ['Equation.evaluate()', 'Equation.variables', 'Equation.default_variables']),

    P('C06', 'Equation variables are discovered exactly and must be supplied',
      'The variables an equation reports are exactly the distinct free names '
      'of its expression, sorted: no decimal or scientific-notation number, '
      'numpy function or constant, builtin function or keyword argument name, '
      'and no part of a longer name. Evaluation succeeds when every variable has a supplied '
      'or default value, giving the value of the expression, and otherwise '
      'raises RuntimeError naming every variable that is missing.',
      ['programs', 'inputs'],
      'every expression text over names, numbers, operators, comparisons and '
      'numpy calls with positional and keyword arguments in any spacing; '
      'every subset of supplied variables',
      'Tests parse about ten expressions; names with digits before an e, '
      'arguments separated by a bare comma, comparisons without spaces or '
      'leading-dot numbers never occur.',
      [EQN],
      [('tokenising', EQN + ':Equation.parse_variables'),
       ('missing-argument check', EQN + ':Equation.evaluate')],
      ['Equation.variables', 'Equation.parse_variables()', 'Equation.evaluate()']),

    P('C07', 'Default variables are scoped by directory and overridable',
      'An equation sees the variables defined in its own directory and in '
      'directories above it, the nearest definition winning, and never those '
      'of a sibling or of a directory below it. A value supplied when '
      'evaluating overrides every default, a config constant overrides '
      'library defaults, and explicitly setting defaults on a directory '
      'reaches everything below except directories with their own '
      'definition, unless forced.',
      ['configurations', 'inputs', 'histories'],
      'every directory tree with variable files at any subset of its levels, '
      'every variable overlap between them and every subset of overrides',
      'One tree of three nested directories is tested, with alphabetical '
      'names that hide leakage between siblings.',
      [DIR, EQN, GRP],
      [('propagation of the namespace down the tree', DIR + ':EquationDirectory.set_default_variables'),
       ('merge at evaluation', EQN + ':Equation._merge_vars')],
      ['default_variables of directories, groups and equations', 'Equation.evaluate()']),

    P('C08', 'Equations of a group may use each other by name',
      'When an equation of a group uses the name of another equation of the '
      'same group, its value is as if that equation were written there in '
      'parentheses, through any chain of references and in any order of '
      'definition. Only whole names are references: a name that merely '
      'contains another name stays an independent variable, and the '
      'variables of the expanded equation are exactly those of its expanded '
      'parts. A reference cycle is refused with ValueError.',
      ['programs', 'inputs'],
      'every group of equations with any acyclic or cyclic reference graph '
      'and any overlap between names',
      'One hand-written group is tested in which no name contains another '
      'that is referenced.',
      [GRP],
      [('repeated substitution of names', GRP + ':EquationGroup._parse_group')],
      ['Equation.evaluate()/.variables of the group members', 'exceptions of EquationGroup()']),

    P('C09', 'Library retrieval by path and by arithmetic is faithful',
      'Retrieving a "::" path from a group or directory returns exactly the '
      'object stored there, a numeric key returns that number as an '
      'equation, and a key combining paths and unsigned numbers with + - * / '
      '** (or ^) and parentheses returns an equation whose value is that '
      'arithmetic, with ordinary precedence and associativity, on the '
      'separately retrieved operands (those with conflicting default values '
      'aside). A path that does '
      'not exist raises KeyError (or yields the default given to get) and '
      'never another object; brackets other than parentheses and unbalanced '
      'parentheses are refused.',
      ['inputs', 'programs'],
      'every stored path, every absent path and every arithmetic key over '
      'stored paths and numbers, on groups and directories, at any depth',
      'Tests evaluate about fifteen keys; none has two subtractions or '
      'divisions in a row or nested redundant parentheses.',
      [GRP, DIR, UTL],
      [('recursive arithmetic on keys', GRP + ':AbstractGroup._getitem_math'),
       ('path walk', GRP + ':AbstractGroup._getitem, ' + DIR + ':EquationDirectory._getitem')],
      ['group[...], directory[...]', 'get()', 'exceptions']),

    P('C10', 'Power and year lookups interpolate or pick the nearest',
      'Requesting a turbine power (name_<n>MW, any letter case) or year '
      '(name_<yyyy>) that is not defined returns, with interpolation enabled '
      'for that kind, the straight line through the two defined equations of '
      'the same base name nearest to the request, and with only nearest '
      'enabled the nearest one; with neither it raises KeyError. Defined '
      'names are always returned unchanged, other base names, other nesting '
      'levels and the setting of the other kind never influence the result, '
      'and a single defined neighbour is returned as is.',
      ['inputs', 'configurations'],
      'every set of defined powers and years, every requested value, every '
      'combination of the four flags, at every nesting level',
      'Tests request four powers and three years from fixed groups, never '
      'with the flags of the two kinds mixed, one neighbour only, or an '
      'undefined base name while interpolation is on.',
      [GRP, DIR, CFG],
      [('nearest neighbour search', GRP + ':find_nearest_power_eqns/find_nearest_year_eqns'),
       ('selection by flag', GRP + ':AbstractGroup._getitem'),
       ('flags read from the config', CFG + ':NrwalConfig.__init__')],
      ['group[...], directory[...]', 'find_nearest_power_eqns()', 'find_nearest_year_eqns()', 'NrwalConfig outputs']),

    P('C11', 'A loaded directory mirrors the files on disk',
      'Loading a directory yields exactly its equation files (.yaml, .yml, '
      '.json) and non-empty subdirectories, recursively, under their names '
      'without extension, with every equation and variable in the files and '
      'nothing else; names starting with a dot or double underscore and other '
      'file types are left out. The file format makes no difference, a file '
      'is reachable with or without its extension, and a broken equation '
      'file anywhere makes loading fail with RuntimeError.',
      ['inputs', 'configurations'],
      'every directory tree of yaml, yml, json, ignored, foreign, empty and '
      'malformed files',
      'Two fixture trees are loaded and spot-checked; the listing is never '
      'compared in full with the disk.',
      [DIR, GRP],
      [('recursive listing', DIR + ':EquationDirectory._parse_eqn_dir'),
       ('file parsing', GRP + ':AbstractGroup._parse_group')],
      ['keys()/items()/values()/all_equations', 'exceptions']),

    P('C12', 'Operations never disturb existing objects or caller data',
      'Building configs, evaluating, retrieving, combining, merging, '
      'interpolating, printing and setting defaults leave the caller '
      'dictionaries, arrays and tables and every other existing object '
      'unchanged: each keeps its value, variables, defaults and members. In '
      'particular combined, merged and interpolated objects and configs are '
      'independent of what they were made from afterwards, and two configs built from the same dict or directory '
      'behave identically.',
      ['histories', 'inputs'],
      'every finite sequence of library operations over a pool of shared '
      'objects and caller data',
      'No test looks at an operand or an argument after using it.',
      [CFG, EQN, GRP, DIR],
      [('deep copies at construction and merge', CFG + ':_load_config, ' + GRP + ':__add__, ' + DIR + ':__add__'),
       ('copied namespaces', EQN + ':_merge_vars, set_default_variables')],
      ['state of all pool objects and arguments before/after each operation']),

    P('C13', 'Array, table and scalar evaluation agree site by site',
      'Evaluating an equation or a config without cross-site numpy functions '
      'on arrays gives at each position the value of evaluating it on the '
      'scalars at that position, for any array shape. Consequently dicts and '
      'DataFrames, whole tables and tables split in chunks, and reordered '
      'sites give the same values per site, integers count as reals, and '
      'scalars broadcast over arrays.',
      ['inputs'],
      'every set of site arrays (length, shape, dtype, order), every split '
      'of the sites and every mix of scalar and array inputs',
      'Tests evaluate constant arrays (all ones or twos), for which wrong '
      'alignment, reordering or dtype handling cannot show.',
      [EQN, CFG],
      [('input type normalisation', EQN + ':Equation._check_input_args'),
       ('DataFrame and array intake', CFG + ':NrwalConfig.inputs setter')],
      ['Equation.evaluate()', 'NrwalConfig.evaluate()']),

    P('C14', 'Circular configs are refused, acyclic ones accepted',
      'Building a config whose entries refer to each other in a cycle of any '
      'length, directly, through numpy calls or inside parentheses, raises '
      'RuntimeError at construction in bounded time, wherever the cycle lies '
      'and whatever other entries lead into it. A config without a cycle is '
      'never refused as circular, even when entry names contain each other '
      'or coincide with parts of library paths.',
      ['configurations'],
      'every reference graph over config entries with any cycle length, entry '
      'point and definition order',
      'Two fixed cyclic configs are tested.',
      [CFG],
      [('recursive reference walk', CFG + ':NrwalConfig._check_circ_ref')],
      ['exceptions of NrwalConfig()']),

    P('C15', 'Unsafe or malformed definitions are refused on every route',
      'Expression text containing a forbidden fragment (import statements, '
      'os./sys. access, dunder attribute access, eval, exec) raises an error '
      'by every route into the library and is never executed. Numeric names, '
      'lists, nested mappings in configs, non-numeric variable values, '
      'unsupported file types, missing files and inputs that are not numeric '
      'data under string names are refused with the documented kind of '
      'error.',
      ['inputs', 'programs'],
      'every position of a forbidden fragment in an expression, every entry '
      'route, every malformed value type',
      'Tests cover one malformed file per kind and no forbidden fragment.',
      [EQN, GRP, CFG],
      [('fragment blocklist', EQN + ':Equation._preflight'),
       ('type checks', GRP + ':_parse_group, ' + CFG + ':_parse_config, ' + EQN + ':_check_input_args')],
      ['exceptions', 'audit events and canary calls during the operations']),

    P('C16', 'Config files, formats and pointers are equivalent to inlining',
      'A config loaded from a .yaml, .yml or .json file or given as a dict '
      'with the same content behaves identically, flags and equation '
      'directory included. An entry that points to a key of another config '
      'file behaves as if the expression stored under that key were written '
      'in its place, relative to the pointing file and through chains of '
      'pointers; broken or compound pointers are refused.',
      ['configurations'],
      'every split of a config over files, directories and formats, every '
      'pointer chain',
      'One pointer file in one directory layout is tested, no chain and no '
      'json config.',
      [CFG],
      [('loading and pointer resolution', CFG + ':NrwalConfig._load_config')],
      ['NrwalConfig outputs', '.keys()', '.required_inputs', 'exceptions']),

    P('C17', 'The shipped library and configs give their published values',
      'Every equation of the shipped analysis library evaluates to the value '
      'of its published expression at any physically meaningful input, and '
      'no equation or default variable is missing or renamed. Every shipped '
      'default config loads, needs the documented inputs and evaluates to '
      'the values of its written aggregation formulas on those equations, '
      'power and year interpolation included.',
      ['inputs', 'configurations'],
      'every library equation and default config at every input vector',
      'Library tests only require that evaluation at the constant 2 does not '
      'raise; the regression tests against ORCA need a package that is not '
      'available and are skipped.',
      ['NRWAL/analysis_library', 'NRWAL/default_configs', CFG, GRP, DIR],
      [('equation text', 'NRWAL/analysis_library/**/*.yaml'),
       ('aggregation text', 'NRWAL/default_configs/**/*.yaml')],
      ['Equation.evaluate()', 'NrwalConfig.evaluate()']),

    P('C18', 'Merging libraries is a right-biased union',
      'Adding a group or directory (object, path, or dict for groups) to '
      'another gives a new object with the union of the members, the right '
      'side replacing members of the same name, where each member evaluates, '
      'given its variables, as in the side it came from. The right side '
      'default variables apply to the merged object, members from the left '
      'keep their other defaults, a path or dict is loaded with the lookup '
      'flags of the left side, and neither operand changes.',
      ['configurations', 'histories'],
      'every pair or chain of groups or directories with any overlap',
      'One pair of each kind is merged and two strings are inspected.',
      [GRP, DIR],
      [('merge', GRP + ':AbstractGroup.__add__, ' + DIR + ':EquationDirectory.__add__')],
      ['keys(), [...] and evaluate() of the merged object']),

    P('C19', 'Results depend only on definitions and inputs',
      'Evaluating the same definition with the same inputs gives identical '
      'results on every repetition, in any order relative to other '
      'evaluations, concurrently from several threads on shared equations, in '
      'processes with different hash seeds or working directories, and on '
      'pickled or deep-copied objects. Changing a copy never changes its '
      'original.',
      ['schedules', 'histories'],
      'every interleaving of evaluations over shared objects, every process '
      'environment',
      'Tests evaluate each object once, in one thread of one process.',
      [EQN, CFG, GRP, DIR],
      [('stateless evaluation', EQN + ':Equation.evaluate'),
       ('attribute fallback', CFG + ':NrwalConfig.__getattr__')],
      ['evaluation results across repetitions, threads, processes and copies']),

    P('C20', 'Printed forms state exactly what an object holds',
      'An equation prints as its number, or as its name with its variables '
      'that lack a default followed by name=value for those that have one, '
      'and a combined equation as its operands, as they printed when '
      'combined, joined by the operator in parentheses; an entry of a config '
      'prints under the name of the entry; printing never changes an object '
      'or its later printed forms. Below a heading, groups, directories '
      '(variables, then groups, then sub-directories, each by name) and '
      'configs print every member once, in order and nesting, and head and '
      'tail give the first and last n lines of that text.',
      ['inputs', 'configurations', 'histories'],
      'every object, every history of prints and default changes, every n',
      'Tests count lines of two objects and look for a few substrings.',
      [EQN, GRP, DIR, CFG],
      [('rendering', EQN + ':Equation.__str__, ' + GRP + ':EquationGroup.__str__, ' + DIR + ':EquationDirectory.__str__, ' + CFG + ':NrwalConfig.__str__')],
      ['str(), repr(), head(), tail()']),
]

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
