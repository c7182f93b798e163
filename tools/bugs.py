"""Planted bugs: (file, old text, new text) edits, demonstration, meta."""
CFG = 'NRWAL/handlers/config.py'
EQN = 'NRWAL/handlers/equations.py'
GRP = 'NRWAL/handlers/groups.py'
DIR = 'NRWAL/handlers/directories.py'

TMP = '''
import os
import shutil
import sys
import tempfile
import yaml
import numpy as np
TMP = tempfile.mkdtemp()


def lib(tree, name='eqns'):
    """Writes {'a/b.yaml': data} below a scratch directory."""
    root = os.path.join(TMP, name)
    os.makedirs(root, exist_ok=True)
    for fp, data in tree.items():
        fp = os.path.join(root, fp)
        os.makedirs(os.path.dirname(fp), exist_ok=True)
        with open(fp, 'w') as f:
            yaml.safe_dump(data, f, sort_keys=False)
    return root


'''

END = '''

try:
    main()
finally:
    shutil.rmtree(TMP, ignore_errors=True)
'''


def demo(body):
    return TMP.lstrip('\n') + 'def main():\n' + '\n'.join(
        '    ' + x if x else '' for x in body.strip('\n').split('\n')) + END


def B(id, prop, edits, needs, breaks, body):
    return {'id': id, 'property': prop, 'edits': edits, 'needs': needs,
            'breaks': breaks, 'demo': demo(body)}


BUGS = [
    B('c01_single_precision_constants', 'C01',
      [(CFG, "                gvars[k] = float(v)\n",
        "                gvars[k] = float(np.float32(v))\n")],
      'a config constant that single precision does not represent, used by '
      'name inside arithmetic, and a comparison finer than 1e-7',
      'constants of a config are rounded to single precision, so expressions '
      'do not have the value of the written arithmetic',
      '''
from NRWAL import NrwalConfig
out = NrwalConfig({'rate': 0.1, 'a': 'rate * x',
                   'equation_directory': lib({})}).evaluate({'x': 3.0})
assert abs(out['a'] - 0.1 * 3.0) < 1e-12, out
'''),
    B('c02_inputs_over_entries', 'C02',
      [(CFG, "                    kwargs.update(self.inputs)\n"
        "                    kwargs.update(self._outputs)\n",
        "                    kwargs.update(self._outputs)\n"
        "                    kwargs.update(self.inputs)\n")],
      'an input table with a column named like an entry of the config that a '
      'library equation uses as a variable',
      'a variable of a library equation takes the input column instead of the '
      'entry of the config with that name',
      '''
from NRWAL import NrwalConfig
d = lib({'a.yaml': {'eq': '2 * cap'}})
cfg = NrwalConfig({'cap': 'x + 1', 'out': 'a::eq', 'equation_directory': d})
out = cfg.evaluate({'x': 1.0, 'cap': 50.0})
assert out['out'] == 4.0, out
'''),
    B('c03_same_array_not_reread', 'C03',
      [(CFG, "            for k in keys:\n"
        "                if isinstance(arg, dict):\n"
        "                    v = arg[k]\n",
        "            seen = self.__dict__.setdefault('_seen', {})\n"
        "            for k in keys:\n"
        "                if isinstance(arg, dict) and k in self._inputs \\\n"
        "                        and seen.get(k) is arg[k]:\n"
        "                    # already converted\n"
        "                    continue\n"
        "                elif isinstance(arg, dict):\n"
        "                    v = seen[k] = arg[k]\n")],
      'the caller changes an array in place and evaluates with the same '
      'array object again',
      'outputs of the second evaluation are those of the old array values',
      '''
from NRWAL import NrwalConfig
cfg = NrwalConfig({'a': '2 * x', 'equation_directory': lib({})})
x = np.array([1., 2., 3.])
cfg.evaluate({'x': x})
x[:] = 10.
out = cfg.evaluate({'x': x})['a']
assert np.allclose(out, 20.), out
'''),
    B('c04_defaults_of_any_equation', 'C04',
      [(CFG, "        names = []\n        for eqn in self.values():\n"
        "            if isinstance(eqn, Equation):\n"
        "                names += [v for v in eqn.variables\n"
        "                          if v not in self.global_variables\n"
        "                          and v not in self._config\n"
        "                          and v not in eqn.default_variables]\n",
        "        names = []\n        defaults = set()\n"
        "        for eqn in self.values():\n"
        "            if isinstance(eqn, Equation):\n"
        "                names += eqn.variables\n"
        "                defaults.update(eqn.default_variables)\n\n"
        "        names = [v for v in names\n"
        "                 if v not in self.global_variables\n"
        "                 and v not in self._config\n"
        "                 and v not in defaults]\n")],
      'two equations of different directories that use the same variable, '
      'only one of them with a default for it',
      'a variable that one equation needs is not reported as required because '
      'another equation has a default for it',
      '''
from NRWAL import NrwalConfig
d = lib({'one/variables.yaml': {'rate': 2}, 'one/g.yaml': {'e': 'rate * x'},
         'two/g.yaml': {'e': 'rate + y'}})
cfg = NrwalConfig({'a': 'one::g::e', 'b': 'two::g::e',
                   'equation_directory': d})
assert cfg.required_inputs == ['rate', 'x', 'y'], cfg.required_inputs
'''),
    B('c05_left_default_wins', 'C05',
      [(EQN, "        def_vars = copy.deepcopy(self._default_variables)\n"
        "        def_vars.update(other._default_variables)\n",
        "        def_vars = copy.deepcopy(other._default_variables)\n"
        "        def_vars.update(self._default_variables)\n")],
      'two operands with different defaults for a variable that both use',
      'the left operand wins a conflict of defaults',
      '''
from NRWAL import Equation
a = Equation('v * x', default_variables={'v': 2.})
b = Equation('v + x', default_variables={'v': 3.})
out = (a + b).evaluate(x=1.)
assert out == 7., out
'''),
    B('c06_names_like_np', 'C06',
      [(EQN, "                     and not cls.is_num(sub.strip(','))\n"
        "                     and not cls.is_method(sub)]\n",
        "                     and not cls.is_num(sub.strip(',').rstrip('_'))\n"
        "                     and not cls.is_method(sub)]\n")],
      'a variable named like a number followed by an underscore, e.g. inf_ '
      'or nan_',
      'a variable is not discovered',
      '''
from NRWAL import Equation
eq = Equation('inf_ * x')
assert eq.variables == ['inf_', 'x'], eq.variables
'''),
    B('c07_zero_does_not_override', 'C07',
      [(EQN, "            out = copy.deepcopy(var_group)\n\n"
        "        out.update(kwargs)\n        return out\n",
        "            out = copy.deepcopy(var_group)\n\n"
        "        for k, v in kwargs.items():\n"
        "            if k not in out or np.any(v):\n"
        "                out[k] = v\n\n        return out\n")],
      'a supplied value of zero for a variable that has a default',
      'the default is used instead of the supplied zero',
      '''
from NRWAL import Equation
eq = Equation('fee + x', default_variables={'fee': 7.})
assert eq.evaluate(fee=0., x=1.) == 1., eq.evaluate(fee=0., x=1.)
'''),
    B('c08_one_level_less', 'C08',
      [(GRP, "        working = True\n        while working:\n"
        "            working = False\n",
        "        working = True\n        n_iter = 0\n"
        "        while working and n_iter < 3:\n"
        "            n_iter += 1\n            working = False\n")],
      'a chain of more than eight references in a group, written against '
      'the order of definition',
      'references at the end of the chain are not resolved and become '
      'required inputs',
      '''
from NRWAL import EquationGroup
names = ['e%d' % i for i in range(14)]
g = {a: b + ' + 1' for a, b in zip(names, names[1:])}
g[names[-1]] = 'x'
g = EquationGroup(g)
assert g['e0'].variables == ['x'], g['e0'].variables
'''),
    B('c09_split_at_first_dot', 'C09',
      [(DIR, "                else os.path.splitext(str(k))[0]\n",
        "                else str(k).split('.')[0]\n")],
      'retrieval with file extension of a file that has a dot in its name',
      'a file that exists cannot be retrieved with its extension',
      '''
from NRWAL import EquationDirectory
d = EquationDirectory(lib({'cost.v2.yaml': {'e': '2 * x'}}))
assert d['cost.v2.yaml'].keys() == d['cost.v2'].keys()
'''),
    B('c10_rounded_interpolation', 'C10',
      [(GRP, "                    out = Equation(out.eval())\n",
        "                    out = Equation(round(out.eval(), 8))\n")],
      'interpolation between two small constants',
      'interpolated constants are rounded to eight digits after the point',
      '''
from NRWAL import EquationGroup
g = EquationGroup({'f_2MW': 1.25e-7, 'f_4MW': 3.25e-7},
                  interp_extrap_power=True)
v = g['f_3MW'].evaluate()
assert abs(v / 2.25e-7 - 1) < 1e-9, v
'''),
    B('c10_year_2200', 'C10',
      [(GRP, "            if year < 1800 or year > 2200:\n",
        "            if not 1800 <= year < 2200:\n")],
      'an equation or request of the year 2200',
      'the last valid year is not recognized',
      '''
from NRWAL import EquationGroup
g = EquationGroup({'f_2100': 'x', 'f_2150': '2 * x'},
                  use_nearest_year=True)
assert g['f_2200'].evaluate(x=1.) == 2.
'''),
    B('c11_private_files', 'C11',
      [(DIR, "            ignore_check = name.startswith(('.', '__'))\n",
        "            ignore_check = name.startswith(('.', '_'))\n")],
      'an equation file or directory whose name starts with one underscore',
      'files that start with a single underscore are not loaded',
      '''
from NRWAL import EquationDirectory
d = EquationDirectory(lib({'_extra.yaml': {'e': 'x'}, 'a.yaml': {'e': 'x'}}))
assert set(d.keys()) == {'_extra', 'a'}, d.keys()
'''),
    B('c11_file_with_empty_list_dir', 'C11',
      [(DIR, "                if any(obj.keys()):\n",
        "                if any(obj.all_equations):\n")],
      'a directory that holds a variables file but no equation',
      'a non-empty directory with only variables is left out',
      '''
from NRWAL import EquationDirectory
d = EquationDirectory(lib({'v/variables.yaml': {'a': 1},
                           'a.yaml': {'e': 'x'}}))
assert d['v::variables::a'] == 1
'''),
    B('c12_globals_polluted', 'C12',
      [(CFG, "                    kwargs = copy.deepcopy(self.global_variables)\n",
        "                    kwargs = self.global_variables\n")],
      'a second evaluation, or a look at the constants of a config, after an '
      'evaluation with inputs',
      'evaluating a config changes its constants',
      '''
from NRWAL import NrwalConfig
cfg = NrwalConfig({'k': 2, 'a': 'k * x', 'equation_directory': lib({})})
cfg.evaluate({'x': 3.})
assert cfg.global_variables == {'k': 2.}, cfg.global_variables
'''),
    B('c13_unsigned_integers', 'C13',
      [(EQN, "                if np.issubdtype(v.dtype, np.integer):\n",
        "                if np.issubdtype(v.dtype, np.signedinteger):\n")],
      'arrays of unsigned integers, subtraction or overflow',
      'unsigned integer arrays do not count as real numbers: 1 - 2 is 255',
      '''
from NRWAL import Equation
a = np.array([1, 2], dtype=np.uint8)
out = Equation('a - b').evaluate(a=a, b=np.array([2, 2], dtype=np.uint8))
assert np.allclose(out, [-1, 0]), out
'''),
    B('c14_direct_cycles_only', 'C14',
      [(CFG, "        for var in all_vars:\n            if var in config",
        "        for var in [v for v in all_vars\n"
        "                    if not str(config.get(v)).startswith('np.')]:\n"
        "            if var in config")],
      'a cycle that leads through two entries written as numpy calls',
      'a circular config is accepted',
      '''
from NRWAL import NrwalConfig
try:
    NrwalConfig({'a': 'b * 2', 'b': 'np.maximum(c, x)', 'c': 'np.abs(a)',
                 'equation_directory': lib({})})
except RuntimeError:
    return
raise AssertionError('accepted')
'''),
    B('c15_eval_with_space', 'C15',
      [(EQN, "    ILLEGAL = ('import ', 'os.', 'sys.', '.__', '__.', 'eval', "
        "'exec')\n",
        "    ILLEGAL = ('import ', 'os.', 'sys.', '.__', '__.', 'eval(', "
        "'exec(')\n")],
      'the forbidden call written with a space before its parenthesis',
      'eval is accepted and executed',
      '''
from NRWAL import Equation
try:
    Equation("eval ('1 + 1')")
except ValueError:
    return
raise AssertionError('accepted')
'''),
    B('c15_tail_not_searched', 'C15',
      [(EQN, "            if substr in str(self._eqn):\n",
        "            if substr in str(self._eqn)[:2000]:\n")],
      'a forbidden fragment behind the first 2000 characters',
      'unsafe text at the end of a long expression is accepted',
      '''
from NRWAL import Equation
try:
    Equation('x + ' * 600 + "eval('1')")
except ValueError:
    return
raise AssertionError('accepted')
'''),
    B('c16_pointer_fallback_key', 'C16',
      [(CFG, "                config[key] = cls._load_config(fp_other)[0]"
        "[other_key]\n",
        "                other = cls._load_config(fp_other)[0]\n"
        "                config[key] = other.get(other_key, other.get(key))\n")],
      'a broken pointer whose target file has an entry named like the '
      'pointing one',
      'the broken pointer is resolved to another key instead of refused',
      '''
from NRWAL import NrwalConfig
d = lib({'o.yaml': {'capex': 5, 'x': 2}, 'eqn/a.yaml': {'q': 'z'}})
fp = os.path.join(d, 'main.yaml')
with open(fp, 'w') as f:
    yaml.safe_dump({'equation_directory': os.path.join(d, 'eqn'),
                    'capex': './o.yaml::capx'}, f)
try:
    NrwalConfig(fp)
except Exception:
    return
raise AssertionError('accepted')
'''),
    B('c16_hyphenated_files', 'C16',
      [(CFG, "for x in ('*', '+', '(', ')')), msg",
        "for x in ('*', '+', '-', '(', ')')), msg")],
      'a pointer to a file with a hyphen in its name',
      'a valid pointer is refused',
      '''
from NRWAL import NrwalConfig
d = lib({'cost-2.yaml': {'capex': 'z * 5'}, 'eqn/a.yaml': {'q': 'z'}})
fp = os.path.join(d, 'main.yaml')
with open(fp, 'w') as f:
    yaml.safe_dump({'equation_directory': os.path.join(d, 'eqn'),
                    'capex': './cost-2.yaml::capex'}, f)
assert NrwalConfig(fp).evaluate({'z': 2.})['capex'] == 10
'''),
    B('c16_pointer_from_cwd', 'C16',
      [(CFG, "                fp_other = os.path.join(config_dir, fp_other)\n",
        "                if not os.path.exists(fp_other):\n"
        "                    fp_other = os.path.join(config_dir, fp_other)\n")],
      'a file in the working directory with the same relative path as the '
      'target of a pointer',
      'the pointer is resolved relative to the working directory',
      '''
from NRWAL import NrwalConfig
d = lib({})
for name, val in (('here', 1), ('there', 2)):
    os.makedirs(os.path.join(TMP, name))
    with open(os.path.join(TMP, name, 'o.yaml'), 'w') as f:
        f.write('k: "x * {}"'.format(val))
with open(os.path.join(TMP, 'there', 'main.yaml'), 'w') as f:
    f.write('a: ./o.yaml::k\\nequation_directory: ' + d)
os.chdir(os.path.join(TMP, 'here'))
out = NrwalConfig(os.path.join(TMP, 'there', 'main.yaml')).evaluate({'x': 1.})
os.chdir('/')
assert out['a'] == 2., out
'''),
    B('c16_flags_not_switched_off', 'C16',
      [(CFG, "                kwargs[key] = bool(config.pop(key))\n",
        "                kwargs[key] = bool(config.pop(key)) or kwargs[key]\n")],
      'a flag switched off in the config and on in the call',
      'the flag in the config does not take effect',
      '''
from NRWAL import NrwalConfig
d = lib({'g.yaml': {'e_2MW': 'x', 'e_4MW': '3 * x'}})
c = {'a': 'g::e_3MW', 'interp_extrap_power': False,
     'use_nearest_power': True, 'equation_directory': d}
c['a'] = 'g::e_5MW'
out = NrwalConfig(c, interp_extrap_power=True).evaluate({'x': 1.})
assert out['a'] == 3., out
'''),
    B('c17_coefficient', 'C17',
      [('NRWAL/analysis_library/osw_2022/great_lakes_update.yaml',
        "  (-36.56 * depth ** 2 + 218147.85 * depth",
        "  (-36.56 * depth ** 2 + 218174.85 * depth")],
      'an evaluation of the floating array cost of the Great Lakes library',
      'two digits of a coefficient are transposed',
      """
from NRWAL import EquationDirectory
from NRWAL.utilities.utilities import NRWAL_ANALYSIS_DIR
eq = EquationDirectory(NRWAL_ANALYSIS_DIR)[
    'osw_2022::great_lakes_update::floating_array']
out = eq.evaluate(depth=10., num_turbines=100.)
ref = (-36.56 * 100 + 218147.85 * 10 + 241787966.27) * 1.2
assert abs(out / ref - 1) < 1e-9, (out, ref)
"""),
    B('c17_config_factor', 'C17',
      [('NRWAL/default_configs/hydrogen/hybrid_lcoh_using_curve.yaml',
        "  (solar_mean_fixed_operating_cost / solar_mean_system_capacity) * "
        "1000\n",
        "  (solar_mean_fixed_operating_cost / hybrid_solar_capacity) * 1000\n")],
      'the operating cost of solar in the hybrid hydrogen config, with a '
      'hybrid solar capacity that differs from the mean system capacity',
      'a written formula of a shipped config divides by another capacity',
      """
from NRWAL import NrwalConfig
from NRWAL.utilities.utilities import NRWAL_CONFIG_DIR
cfg = NrwalConfig(os.path.join(NRWAL_CONFIG_DIR, 'hydrogen',
                               'hybrid_lcoh_using_curve.yaml'))
v = {k: 2. + i for i, k in enumerate(cfg.required_inputs)}
out = cfg['solar_opex_per_mw'].evaluate(**v)
ref = v['solar_mean_fixed_operating_cost'] / v['solar_mean_system_capacity']
assert abs(out / (ref * 1000) - 1) < 1e-9, out
"""),
    B('c18_nested_union', 'C18',
      [(GRP, "        out = copy.deepcopy(self)\n"
        "        out._group.update(copy.deepcopy(other._group))\n"
        "        out.set_default_variables(other._default_variables)\n\n"
        "        return out\n",
        "        defaults = copy.deepcopy(other._default_variables)\n"
        "        out = copy.deepcopy(self)\n"
        "        new = copy.deepcopy(other._group)\n"
        "        for k, v in new.items():\n"
        "            old = out._group.get(k)\n"
        "            if isinstance(v, AbstractGroup) and isinstance(\n"
        "                    old, AbstractGroup):\n"
        "                new[k] = old + v\n\n"
        "        out._group.update(new)\n"
        "        out.set_default_variables(defaults)\n\n"
        "        return out\n")],
      'two groups with a sub-group of the same name and different members',
      'members of a replaced sub-group survive the merge',
      '''
from NRWAL import EquationGroup
a = EquationGroup({'s': {'e': 'x', 'f': 'y'}})
out = a + EquationGroup({'s': {'e': '2 * x'}})
assert set(out['s'].keys()) == {'e'}, out
'''),
    B('c19_shared_namespace', 'C19',
      [(EQN, "            out = eval(str(self._eqn), globals(), kwargs)\n",
        "            self._namespace.clear()\n"
        "            self._namespace.update(kwargs)\n"
        "            out = eval(str(self._eqn), globals(), self._namespace)\n"),
       (EQN, "    ILLEGAL = ('import ', 'os.', 'sys.', '.__', '__.', 'eval', "
        "'exec')\n",
        "    ILLEGAL = ('import ', 'os.', 'sys.', '.__', '__.', 'eval', "
        "'exec')\n\n    # namespace of the evaluations\n"
        "    _namespace = {}\n")],
      'two threads that evaluate at the same time',
      'an evaluation sees the variables of another thread',
      '''
import threading
from NRWAL import Equation
sys.setswitchinterval(1e-6)
eq = Equation(' + '.join(['x * y - x * y'] * 60) + ' + x')
bad = []


def work(v):
    for _ in range(1500):
        try:
            out = eq.evaluate(x=v, y=v)
        except RuntimeError as e:
            out = e
        if out != v:
            bad.append(out)


ts = [threading.Thread(target=work, args=(float(2 ** i),)) for i in range(4)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad, bad[:3]
'''),
    B('c20_defaults_in_order_of_definition', 'C20',
      [(EQN, "                gvars_str = [v for v in self.variables\n"
        "                             if v in self.default_variables]\n",
        "                gvars_str = [v for v in self.variables\n"
        "                             if self.default_variables.get(v)]\n")],
      'a default value of zero',
      'a variable with the default zero is not printed at all',
      '''
from NRWAL import Equation
eq = Equation('a * x', name='e', default_variables={'a': 0})
assert str(eq) == 'e(x, a=0)', str(eq)
'''),
    B('c01_number_digits', 'C01',
      [(CFG, "            out = Equation(expression, name=name)\n",
        "            out = Equation('{:.10g}'.format(float(expression)),\n"
        "                           name=name)\n")],
      'a number with more than ten significant digits in a config expression',
      'numbers in config expressions are rounded to ten digits',
      """
from NRWAL import NrwalConfig
out = NrwalConfig({'a': 'x * 1234567.890123', 'equation_directory': lib({})}
                  ).evaluate({'x': 1.0})
assert abs(out['a'] - 1234567.890123) < 1e-6, out
"""),
    B('c02_library_before_alias', 'C02',
      [(CFG, "        elif '::' in expression and expression.split('::')[0] in "
        "config:\n",
        "        elif '::' in expression and expression.split('::')[0] in "
        "config \\\n"
        "                and expression.split('::')[0] not in eqn_dir:\n")],
      'an entry that aliases a group under a name that is also a file of the '
      'library root',
      'a path that starts with the name of an entry is looked up in the '
      'library',
      """
from NRWAL import NrwalConfig
d = lib({'turb.yaml': {'e': 'x'}, 'new/turb.yaml': {'e': '5 * x'}})
cfg = NrwalConfig({'turb': 'new::turb', 'out': 'turb::e + 1',
                   'equation_directory': d})
assert cfg.evaluate({'x': 1.})['out'] == 6.
"""),
    B('c03_partial_reset', 'C03',
      [(CFG, "            self._outputs = {}\n        elif key in self._outputs:\n"
        "            del self._outputs[key]\n",
        "            self._outputs = {}\n        elif key in self._config:\n"
        "            self._outputs = {k: v for k, v in self._outputs.items()\n"
        "                             if not k.startswith(key)}\n")],
      'reset of one output whose name is the beginning of another one',
      'outputs that were not reset are lost',
      """
from NRWAL import NrwalConfig
cfg = NrwalConfig({'cap': 'x * 2', 'capex': 'x + 1',
                   'equation_directory': lib({})})
cfg.evaluate({'x': 1.})
cfg.reset_output('cap')
assert cfg['capex'] == 2., cfg['capex']
"""),
    B('c04_empty_is_missing', 'C04',
      [(CFG, "                 and x not in self.inputs]\n",
        "                 and not np.size(self.inputs.get(x, ()))]\n")],
      'a table with no rows',
      'a supplied input without sites counts as missing',
      """
from NRWAL import NrwalConfig
cfg = NrwalConfig({'a': 'x * 2', 'equation_directory': lib({})})
out = cfg.evaluate({'x': np.zeros(0)})
assert out['a'].shape == (0,), out
"""),
    B('c05_number_right_of_power', 'C05',
      [(EQN, "        if not isinstance(other, Equation):\n"
        "            other = cls(other)\n\n",
        "        if not isinstance(other, Equation):\n"
        "            other = cls(other if isinstance(other, str)\n"
        "                        or abs(other) < 1e6\n"
        "                        else '{:.8g}'.format(other))\n\n")],
      'combining an equation with a number above a million of more than '
      'eight digits',
      'the number is rounded',
      """
from NRWAL import Equation
out = (Equation('x') + 123456789.25).evaluate(x=0.)
assert out == 123456789.25, out
"""),
    B('c06_last_missing_only', 'C06',
      [(EQN, "        missing = [v for v in self.variables\n"
        "                   if v not in kwargs]\n",
        "        missing = [v for v in sorted(set(self.variables) - set(dir(np)))\n"
        "                   if v not in kwargs]\n")],
      'a missing variable named like a member of numpy, e.g. power or size',
      'the message does not name every missing variable',
      """
from NRWAL import Equation
try:
    Equation('power * zz').evaluate()
except RuntimeError as e:
    assert 'power' in str(e).replace('power, zz)', ''), e
    assert "['power', 'zz']" in str(e), e
"""),
    B('c07_alias_keeps_own', 'C07',
      [(CFG, "        elif isinstance(out, EquationDirectory):\n"
        "            out.set_default_variables(def_vars, force_update=True)\n",
        "        elif isinstance(out, EquationDirectory) and "
        "'variables' not in out:\n"
        "            out.set_default_variables(def_vars, force_update=True)\n"
        "        elif isinstance(out, EquationDirectory):\n"
        "            out.set_default_variables(def_vars)\n")],
      'an entry that aliases a directory with its own variables file, and a '
      'constant of the config with the name of one of these variables',
      'the constant of the config does not override the default of the library',
      """
from NRWAL import NrwalConfig
d = lib({'one/variables.yaml': {'rate': 2}, 'one/g.yaml': {'e': 'rate * x'}})
cfg = NrwalConfig({'al': 'one', 'rate': 5, 'out': 'al::g::e',
                   'equation_directory': d})
eqn = cfg['al']['g::e']
assert eqn.evaluate(x=1.) == 5., eqn
"""),
    B('c08_bare_numbers', 'C08',
      [(GRP, "                    repl_str = '({})'.format(group[var].full)\n",
        "                    repl_str = group[var].full\n"
        "                    if not Equation.is_num(repl_str):\n"
        "                        repl_str = '({})'.format(repl_str)\n")],
      'an equation of a group that raises a negative constant of the group to '
      'a power',
      'the sign of the constant is applied after the power',
      """
from NRWAL import EquationGroup
g = EquationGroup({'k': -3, 'e': 'k ** 2 + x'})
assert g['e'].evaluate(x=1.) == 10., g['e'].evaluate(x=1.)
"""),
    B('c09_get_hides_errors', 'C09',
      [(DIR, "            return self[key]\n        except KeyError:\n"
        "            return default_value\n",
        "            return self[key]\n        except Exception:\n"
        "            return default_value\n")],
      'get() of a directory with a key in square brackets or unbalanced '
      'parentheses',
      'a malformed key yields the default instead of being refused',
      """
from NRWAL import EquationDirectory
d = EquationDirectory(lib({'a.yaml': {'e': 'x'}}))
try:
    d.get('[a::e + 1] * 2', None)
except (ValueError, AssertionError):
    return
raise AssertionError('not refused')
"""),
    B('c09_number_precision', 'C09',
      [(GRP, "        if key not in self and Equation.is_num(key):\n"
        "            return Equation(key)\n",
        "        if key not in self and Equation.is_num(key):\n"
        "            return Equation('{:.6f}'.format(float(key)))\n")],
      'a small number in the retrieval key of a group',
      'numbers in keys are rounded to six digits after the point',
      """
from NRWAL import EquationGroup
g = EquationGroup({'e': 'x'})
assert abs(g['e * 0.0000025'].evaluate(x=1.) - 2.5e-6) < 1e-12
"""),
    B('c10_case_of_base_names', 'C10',
      [(GRP, "                if match_yr and base_str == match_base:\n",
        "                if match_yr \\\n"
        "                        and base_str.lower() == match_base.lower():\n")],
      'two families of equations whose names differ by the case of a letter',
      'equations of another base name take part in the interpolation',
      """
from NRWAL import EquationGroup
g = EquationGroup({'f_2002': 'x', 'f_2008': '4 * x', 'F_2005': '100 * x'},
                  interp_extrap_year=True)
assert abs(g['f_2005'].evaluate(x=1.) - 2.5) < 1e-9
"""),
    B('c11_last_of_equal_names', 'C11',
      [(DIR, "            type_check = name.endswith(('.json', '.yml', "
        "'.yaml'))\n",
        "            type_check = os.path.splitext(name)[1][1:4] in "
        "('jso', 'yml', 'yam')\n")],
      'a directory with a file of a similar type like .jsonl, .yml~ or '
      '.yaml.bak next to the equation files',
      'a file of another type is loaded or breaks the directory',
      """
from NRWAL import EquationDirectory
root = lib({'a.yaml': {'e': 'x'}})
with open(os.path.join(root, 'b.yml~'), 'w') as f:
    f.write('e: y')
assert list(EquationDirectory(root).keys()) == ['a']
"""),
    B('c12_results_emptied', 'C12',
      [(CFG, "        if key is None:\n            self._outputs = {}\n",
        "        if key is None:\n            self._outputs.clear()\n")],
      'keeping the result of one evaluation while the config is evaluated '
      'again with other inputs',
      'the results of the first evaluation are overwritten',
      """
from NRWAL import NrwalConfig
cfg = NrwalConfig({'a': 'x * 2', 'equation_directory': lib({})})
one = cfg.evaluate({'x': 1.})
cfg.evaluate({'x': 5.})
assert one['a'] == 2., one
"""),
    B('c13_two_dimensional_integers', 'C13',
      [(EQN, "                if np.issubdtype(v.dtype, np.integer):\n",
        "                if v.ndim == 1 and np.issubdtype(v.dtype, "
        "np.integer):\n")],
      'integer arrays with more than one dimension and a negative power',
      'integers in tables of two dimensions do not count as reals',
      """
from NRWAL import Equation
a = np.array([[1, 2], [4, 5]])
out = Equation('a ** -1').evaluate(a=a)
assert np.allclose(out, 1. / a), out
"""),
    B('c13_first_value_decides', 'C13',
      [(CFG, "                if isinstance(v, np.ndarray):\n"
        "                    # indep",
        "                if isinstance(v, np.ndarray) and v.size < 100000:\n"
        "                    # indep"),
       (CFG, "                elif isinstance(v, int):\n                    "
        "v = float(v)\n",
        "                elif isinstance(v, np.ndarray):\n"
        "                    # save memory\n"
        "                    v = v.astype(np.float16)\n"
        "                elif isinstance(v, int):\n                    "
        "v = float(v)\n")],
      'tables of 100000 sites or more',
      'large tables are evaluated in half precision',
      """
from NRWAL import NrwalConfig
cfg = NrwalConfig({'a': 'x * 2', 'equation_directory': lib({})})
x = np.full(120000, 1234.5)
out = cfg.evaluate({'x': x})['a'].astype(float)
assert np.allclose(out, 2469.), out
"""),
    B('c14_long_cycles', 'C14',
      [(CFG, "        for var in all_vars:\n            if var in config",
        "        for var in all_vars * (msg.count(' -> ') < 8):\n"
        "            if var in config")],
      'a cycle of more than ten entries',
      'long cycles are not refused with RuntimeError',
      """
from NRWAL import NrwalConfig
n = 12
cfg = {'e%d' % i: 'np.abs(e%d) + 1' % ((i + 1) % n) for i in range(n)}
try:
    NrwalConfig(dict(cfg, equation_directory=lib({})))
except RecursionError as e:
    raise AssertionError(e)
except RuntimeError as e:
    assert 'circular' in str(e), e
    return
raise AssertionError('accepted')
"""),
    B('c15_numeric_names', 'C15',
      [(GRP, "            if Equation.is_num(k):\n"
        "                msg = ('You cannot use numbers as keys in group "
        "\"{}\"'\n                       .format(self._base_name))\n"
        "                logger.error(msg)\n"
        "                raise ValueError(msg)\n\n"
        "            if isinstance(v, (str, int, float)):\n",
        "            if k.isdigit():\n"
        "                msg = ('You cannot use numbers as keys in group "
        "\"{}\"'\n                       .format(self._base_name))\n"
        "                logger.error(msg)\n"
        "                raise ValueError(msg)\n\n"
        "            if isinstance(v, (str, int, float)):\n")],
      'an equation named 2.5, 1e3 or -4',
      'numeric names other than plain integers are accepted',
      """
from NRWAL import EquationGroup
for k in ('2.5', '1e3', '-4'):
    try:
        EquationGroup({k: 'x', 'e': 'y'})
    except ValueError:
        continue
    raise AssertionError(k)
"""),
    B('c15_sequence_values', 'C15',
      [(GRP, "            if not isinstance(v, float):\n",
        "            if isinstance(v, str):\n")],
      'a variables file with a list, a null or a nested mapping as value',
      'non-numeric variable values are accepted',
      """
from NRWAL import EquationDirectory
for bad in ([1, 2], None, {'a': 1}):
    root = lib({'variables.yaml': {'v': bad}, 'a.yaml': {'e': 'v * x'}})
    try:
        EquationDirectory(root)
    except RuntimeError:
        continue
    raise AssertionError(bad)
"""),
    B('c16_pointer_chain_dir', 'C16',
      [(CFG, "                config[key] = cls._load_config(fp_other)[0]"
        "[other_key]\n",
        "                other = cls._load_config(fp_other)[0]\n"
        "                config[key] = other.get(other_key,\n"
        "                                        other.get(other_key.lower()))\n")],
      'a pointer to a key that differs from an existing key by case only',
      'a broken pointer is resolved to another key',
      """
from NRWAL import NrwalConfig
with open(os.path.join(TMP, 'o.yaml'), 'w') as f:
    f.write('cost: x * 2')
with open(os.path.join(TMP, 'main.yaml'), 'w') as f:
    f.write('a: ./o.yaml::COST')
try:
    NrwalConfig(os.path.join(TMP, 'main.yaml'))
except Exception:
    return
raise AssertionError('accepted')
"""),
    B('c16_only_first_pointer', 'C16',
      [(CFG, "                temp = value.partition('::')\n"
        "                fp_other, other_key = temp[0], temp[2]\n",
        "                fp_other, other_key = value.split('::')\n"
        "                fp_other = fp_other.replace('./', '')\n")],
      'a pointer to a file in a parent directory (../other.yaml::key)',
      'the pointer is resolved in the wrong directory',
      """
from NRWAL import NrwalConfig
os.makedirs(os.path.join(TMP, 'sub'))
with open(os.path.join(TMP, 'o.yaml'), 'w') as f:
    f.write('cost: x * 2')
with open(os.path.join(TMP, 'sub', 'main.yaml'), 'w') as f:
    f.write('a: ../o.yaml::cost')
out = NrwalConfig(os.path.join(TMP, 'sub', 'main.yaml')).evaluate({'x': 1.})
assert out['a'] == 2.
"""),
    B('c18_year_flag_lost', 'C18',
      [(DIR, "            other = cls(other, interp_extrap_power="
        "self._interp_extrap_power,\n"
        "                        use_nearest_power=self._use_nearest_power,\n"
        "                        interp_extrap_year=self._interp_extrap_year,\n"
        "                        use_nearest_year=self._use_nearest_year)\n",
        "            other = cls(other, self._interp_extrap_power,\n"
        "                        self._use_nearest_power,\n"
        "                        self._use_nearest_year,\n"
        "                        self._interp_extrap_year)\n")],
      'merging a path into a directory with one of the year flags, and a year '
      'lookup in a member that came from the path',
      'the two year flags are exchanged for the loaded directory',
      """
from NRWAL import EquationDirectory
a = EquationDirectory(lib({'a.yaml': {'e': 'x'}}, 'a'), use_nearest_year=True)
out = a + lib({'b.yaml': {'f_2010': 'x', 'f_2020': '3 * x'}}, 'b')
assert out['b::f_2014'].evaluate(x=1.) == 1., out['b::f_2014']
"""),
    B('c18_left_defaults_lost', 'C18',
      [(DIR, "        out.set_default_variables(other._default_variables)\n\n"
        "        return out\n",
        "        out.set_default_variables(other._default_variables,\n"
        "                                  force_update=True)\n\n"
        "        return out\n")],
      'a left member in a sub-directory with its own definition of a variable '
      'that the right directory defines at its top',
      'the default of a left member is replaced below its own definition',
      """
from NRWAL import EquationDirectory
a = EquationDirectory(lib({'s/variables.yaml': {'r': 2},
                           's/g.yaml': {'e': 'r * x'}}, 'a'))
b = EquationDirectory(lib({'variables.yaml': {'r': 9},
                           'h.yaml': {'e': 'r + x'}}, 'b'))
assert (a + b)['s::g::e'].evaluate(x=1.) == 2.
"""),
    B('c19_required_in_hash_order', 'C19',
      [(CFG, "                names += eqn.variables\n\n"
        "        return sorted(list(set(names)))\n",
        "                names += eqn.variables\n\n"
        "        return list(set(names))\n")],
      'processes with different hash seeds',
      'the list of all variables has another order in every process',
      """
import subprocess
code = ('from NRWAL import NrwalConfig\\n'
        'c = NrwalConfig({"o": "a + b + c + d + e", "equation_directory": %r})'
        '\\nprint(c.all_variables)' % lib({}))
outs = {subprocess.run([sys.executable, '-B', '-c', code],
                       env=dict(os.environ, PYTHONHASHSEED=str(i)),
                       capture_output=True, text=True).stdout
        for i in range(12)}
assert len(outs) == 1, outs
"""),
    B('c19_text_cache', 'C19',
      [(EQN, "        kwargs = self._check_input_args(kwargs)\n"
        "        kwargs = self._merge_vars(self._default_variables, kwargs)\n",
        "        kwargs = self._check_input_args(kwargs)\n"
        "        key = (self._eqn, tuple(sorted(kwargs.items()))) if not any(\n"
        "            isinstance(v, (np.ndarray, list, tuple))\n"
        "            for v in kwargs.values()) else None\n"
        "        if key is not None and key in self._cache:\n"
        "            return self._cache[key]\n"
        "        kwargs = self._merge_vars(self._default_variables, kwargs)\n"),
       (EQN, "            out = eval(str(self._eqn), globals(), kwargs)\n",
        "            out = self._cache[key] = eval(str(self._eqn), globals(),\n"
        "                                          kwargs)\n"),
       (EQN, "    # illegal substrings that cannot be in cost equations\n",
        "    # results of evaluations with scalars\n    _cache = {}\n\n"
        "    # illegal substrings that cannot be in cost equations\n")],
      'two equations with the same text and different defaults evaluated with '
      'the same scalars, or a default changed between two evaluations',
      'a result of another equation is returned',
      """
from NRWAL import Equation
a = Equation('v * x', default_variables={'v': 2.})
b = Equation('v * x', default_variables={'v': 3.})
assert a.evaluate(x=1.) == 2. and b.evaluate(x=1.) == 3.
"""),
    B('c20_nested_groups_flat', 'C20',
      [(GRP, "                s += ['\\t' + x for x in str(v).split('\\n')[1:]]\n\n"
        "        return '\\n'.join(s)\n\n    def _parse_group(self, group):\n"
        "        \"\"\"Parse a group of equation",
        "                s += ['\\t' + x.strip() for x in "
        "str(v).split('\\n')[1:]]\n\n"
        "        return '\\n'.join(s)\n\n    def _parse_group(self, group):\n"
        "        \"\"\"Parse a group of equation")],
      'a group nested three levels deep',
      'the nesting below the second level is not printed',
      """
from NRWAL import EquationGroup
s = str(EquationGroup({'a': {'b': {'c': 'x'}}}))
assert s.split('\\n')[1:] == ['a', '\\tb', '\\t\\tc(x)'], s
"""),

    # -- third batch ---------------------------------------------------------
    B('c21_alike_equations_once', 'C21',
      [(GRP, '''            if isinstance(v, Equation):
                eqns.append(v)
            elif not''', '''            if isinstance(v, Equation):
                if str(v) not in [str(e) for e in eqns]:
                    eqns.append(v)
            elif not''')],
      'two equations of one group that print alike (e.g. two equal constants)',
      'all_equations leaves out equations that print like an earlier one',
      '''
from NRWAL import EquationGroup
g = EquationGroup({'a': 5, 'b': 'x * 2', 'c': 5, 's': {'a': 5, 'd': 5}})
assert len(g.all_equations) == 5, g.all_equations
'''),
    B('c21_contains_nested', 'C21',
      [(DIR, '''    def __contains__(self, arg):
        return arg in self.keys()
''', '''    def __contains__(self, arg):
        return str(arg).partition('::')[0] in self.keys()
''')],
      'membership of a path whose first part exists and whose rest does not',
      'a path below an existing member counts as contained without being there',
      '''
from NRWAL import EquationDirectory
d = EquationDirectory(lib({'a.yaml': {'e': 'x'}}))
assert 'a' in d and 'b' not in d
assert 'a::nothing' not in d
'''),
    B('c21_solved_only_once', 'C21',
      [(CFG, '''        try:
            return self[key]
        except KeyError:
            return default_value

    def reset''', '''        if key in self.keys():
            return self._outputs.get(key, default_value)
        return default_value

    def reset''')],
      'get on an entry of a config that has no output (constant, group, or '
      'not evaluated)',
      'get gives the default for entries that exist',
      '''
from NRWAL import NrwalConfig
c = NrwalConfig({'equation_directory': lib({}), 'k': 3, 'z': 'x + k'})
assert c.get('k', None) is c['k']
assert c.get('z', None) is c['z']
'''),
    B('c22_unused_defaults_dropped', 'C22',
      [(EQN, '''        return self.__class__(
            new_eqn, name=self._base_name,
            default_variables=self.default_variables
        )
''', '''        used = self.parse_variables(new_eqn)
        return self.__class__(
            new_eqn, name=self._base_name,
            default_variables={k: v for k, v in self.default_variables.items()
                               if k in used}
        )
''')],
      'two replacements in a row, the first text without a variable that the '
      'second one uses, and a default for it',
      'replacing an expression loses the defaults its text does not use',
      '''
from NRWAL import Equation
e = Equation('x + k', name='e', default_variables={'k': 2.})
f = e.replace_equation('x * 3').replace_equation('x * k')
assert f.evaluate(x=5.) == 10.
'''),
    B('c22_outer_parens', 'C22',
      [(EQN, '''        return self._eqn

    @property
    def default_variables''', '''        text = self._eqn
        if text.startswith('((') and text.endswith('))'):
            text = text[1:-1]
        return text

    @property
    def default_variables''')],
      'an equation whose text starts with two opening and ends with two '
      'closing parentheses that do not belong together',
      'the full text of such an equation is another (invalid) expression',
      '''
from NRWAL import Equation
e = (Equation('a') + 1) * (Equation('b') - 1)
e = (e + 2) * ((Equation('c') / e) + (Equation('b') - 1))
f = Equation(e.full)
assert f.variables == e.variables
v = dict(a=2., b=3., c=4.)
assert abs(f.evaluate(**v) - e.evaluate(**v)) < 1e-12
'''),
    B('c23_zero_division_is_nan', 'C23',
      [(EQN, '''        try:
            out = eval(str(self._eqn), globals(), kwargs)
''', '''        try:
            try:
                out = eval(str(self._eqn), globals(), kwargs)
            except ZeroDivisionError:
                out = np.nan
''')],
      'a division of Python numbers by zero',
      'the error of a division by zero is hidden, evaluation yields a value',
      '''
from NRWAL import Equation
try:
    out = Equation('x / y').evaluate(x=1., y=0.)
except RuntimeError:
    pass
else:
    raise AssertionError(out)
'''),
    B('c23_gaps_filled', 'C23',
      [(CFG, '''                        v = v.astype(np.float32)
''', '''                        if v.ndim == 1:
                            v = pd.Series(v).ffill().to_numpy()
                        v = np.array(v, dtype=np.float32)
''')],
      'a table with a missing value behind a valid one',
      'a missing value in a table is replaced by that of the site before',
      '''
import pandas as pd
from NRWAL import NrwalConfig
c = NrwalConfig({'equation_directory': lib({}), 'z': 'x + 1'})
z = c.evaluate(pd.DataFrame({'x': [1., np.nan, 3.]}))['z']
assert np.isnan(z[1]) and z[0] == 2 and z[2] == 4, z
'''),
    B('c23_finite_sites_only', 'C23',
      [(EQN, '''            logger.exception(msg)
            raise RuntimeError(msg) from e

        return out
''', '''            logger.exception(msg)
            raise RuntimeError(msg) from e

        return np.where(np.isinf(out), np.nan, out) if np.ndim(out) else out
''')],
      'an array result that is infinite at some site',
      'infinite results become nan',
      '''
from NRWAL import Equation
out = Equation('x / y').evaluate(x=np.array([1., -1.]), y=np.array([0., 0.]))
assert list(out) == [np.inf, -np.inf], out
'''),
    B('c03_reset_by_prefix', 'C03',
      [(CFG, '''        elif key in self._outputs:
            del self._outputs[key]
''', '''        else:
            for k in [k for k in self._outputs if k.startswith(key)]:
                del self._outputs[k]
''')],
      'reset of one output while another one starts with the same letters',
      'resetting an output removes others too, so that the stored outputs do '
      'not agree with the result',
      '''
from NRWAL import NrwalConfig
c = NrwalConfig({'equation_directory': lib({}), 'cost': 'x + 1',
                 'cost_total': 'x * 2'})
c.evaluate({'x': 2.})
c.reset_output('cost')
assert c['cost_total'] == 4. and 'cost' not in c.outputs
'''),
    B('c04_names_without_case', 'C04',
      [(CFG, '''                names += [v for v in eqn.variables
                          if v not in self.global_variables
                          and v not in self._config
''', '''                entries = [k.lower() for k in self._config]
                names += [v for v in eqn.variables
                          if v not in self.global_variables
                          and v.lower() not in entries
''')],
      'an input whose name differs from that of an entry by letter case only',
      'such an input is not reported as required',
      '''
from NRWAL import NrwalConfig
c = NrwalConfig({'equation_directory': lib({}), 'mw': 'MW * x'})
assert c.required_inputs == ['MW', 'x'], c.required_inputs
'''),
    B('c05_nothing_to_do', 'C05',
      [(EQN, '''        if not isinstance(other, Equation):
            other = cls(other)
''', '''        if operator in ('*', '**', '/') and str(other) == '1':
            return self
        elif not isinstance(other, Equation):
            other = cls(other)
''')],
      'an equation combined with the number one, then a change of the defaults '
      'of the result',
      'the result is the operand itself and no new equation',
      '''
from NRWAL import Equation
e = Equation('a + b', default_variables={'b': 1.})
f = e * 1
f.set_default_variables({'b': 5.})
assert f is not e and e.evaluate(a=1.) == 2.
'''),
    B('c06_sorted_without_case', 'C06',
      [(EQN, '''        variables = sorted(list(set(variables)))
        return variables
''', '''        variables = sorted(list(set(variables)), key=str.lower)
        return variables
''')],
      'variables in upper and lower case',
      'the variables are not sorted (and the order of names that differ by '
      'case only is arbitrary)',
      '''
from NRWAL import Equation
assert Equation('b + A + a + B').variables == ['A', 'B', 'a', 'b']
'''),
    B('c12_array_defaults_shared', 'C12',
      [(EQN, '''        if var_dict is not None:
            self._default_variables.update(copy.deepcopy(var_dict))
''', '''        if var_dict is not None:
            self._default_variables.update(var_dict)
''')],
      'a default that is an array, changed in place by the caller afterwards',
      'the equation shares the array with the caller and other equations',
      '''
from NRWAL import Equation
a = np.array([1., 2.])
e = Equation('k * x')
e.set_default_variables({'k': a})
a[0] = 100.
assert e.evaluate(x=1.)[0] == 1.
'''),
    B('c15_backup_files', 'C15',
      [(CFG, '''            elif config.endswith(('.yml', '.yaml')):
''', '''            elif any(x in config for x in ('.yml', '.yaml')):
''')],
      'a config file with a yaml extension in the middle of its name',
      'an unsupported file type is loaded',
      '''
from NRWAL import NrwalConfig
root = lib({'c.yaml.bak': {'equation_directory': TMP, 'z': 'x + 1'}}, 'c')
try:
    NrwalConfig(os.path.join(root, 'c.yaml.bak'))
except ValueError:
    pass
else:
    raise AssertionError('loaded')
'''),
    B('c20_short_defaults', 'C20',
      [(EQN, '''                    kw_str = '{}={}'.format(gvar, self.default_variables[gvar])
''', '''                    kw_str = self.default_variables[gvar]
                    if isinstance(kw_str, float):
                        kw_str = round(kw_str, 6)
                    kw_str = '{}={}'.format(gvar, kw_str)
''')],
      'a default with more than six decimals',
      'the printed default is not the one in force',
      '''
from NRWAL import Equation
e = Equation('x * k', name='e', default_variables={'k': 1.23456789e-5})
assert str(e) == 'e(x, k=1.23456789e-05)', str(e)
'''),
    B('c10_far_requests', 'C10',
      [(GRP, '''                out = (y3 - y1) * (eqn_value - x1) / (x3 - x1) + y1
''', '''                far = min(eqn_value, 4 * max(nn_values))
                out = (y3 - y1) * (far - x1) / (x3 - x1) + y1
''')],
      'a request of more than four times the largest defined power',
      'extrapolation stops at four times the largest power',
      '''
from NRWAL import EquationGroup
g = EquationGroup({'c_2MW': 'x', 'c_4MW': '2 * x'}, interp_extrap_power=True)
assert abs(g['c_20MW'].evaluate(x=1.) - 10.) < 1e-12
'''),
    B('c12_numpy_errors', 'C12',
      [(EQN, "        out.update(kwargs)\n        return out\n",
        "        np.seterr(divide='ignore', invalid='ignore')\n"
        "        return {**out, **kwargs}\n")],
      'looking at the numpy error handling of the process after an evaluation',
      'evaluating switches off numpy warnings for the whole process',
      '''
from NRWAL import Equation
was = np.geterr()
Equation('x + 1').evaluate(x=1.)
assert np.geterr() == was
'''),
    B('c11_dotted_files', 'C11',
      [(DIR, """            elif type_check and not ignore_check:
                key = os.path.splitext(name)[0]
""", """            elif type_check and not ignore_check:
                key = name.split('.')[0]
""")],
      'a file with a dot in its name',
      'the group is stored under another name or hides another one',
      '''
from NRWAL import EquationDirectory
root = lib({'a.b.yaml': {'e': 'x'}, 'c.yaml': {'e': 'y'}})
assert sorted(EquationDirectory(root).keys()) == ['a.b', 'c']
'''),
    B('c11_cached_files', 'C11',
      [(GRP, """            elif group.endswith(('.yml', '.yaml')):
                with open(group, 'r') as f:
                    group = yaml.safe_load(f)
""", """            elif group.endswith(('.yml', '.yaml')):
                stat = os.stat(group)
                key = (group, stat.st_size, int(stat.st_mtime))
                if key not in _FILES:
                    with open(group, 'r') as f:
                        _FILES[key] = yaml.safe_load(f)
                group = copy.deepcopy(_FILES[key])
"""), (GRP, "class AbstractGroup(ABC):\n", "_FILES = {}\n\n\n"
          "class AbstractGroup(ABC):\n")],
      'a file rewritten within the same second with content of equal length',
      'the old content is loaded',
      '''
from NRWAL import EquationGroup
fp = os.path.join(TMP, 'g.yaml')
with open(fp, 'w') as f:
    f.write('e: x + 1')
os.utime(fp, (1600000000, 1600000000))
assert EquationGroup(fp)['e'].evaluate(x=1) == 2
with open(fp, 'w') as f:
    f.write('e: x + 2')
os.utime(fp, (1600000000, 1600000000.5))
assert EquationGroup(fp)['e'].evaluate(x=1) == 3
'''),
    B('c04_zero_is_missing', 'C04',
      [(CFG, """                 if x not in self.global_variables
                 and x not in self.inputs]
        return sorted(list(set(names)))
""", """                 if x not in self.global_variables
                 and not np.any(self.inputs.get(x, 0))]
        return sorted(list(set(names)))
""")],
      'an input that is 0 everywhere',
      'the input counts as missing and the config is refused',
      '''
from NRWAL import NrwalConfig
cfg = NrwalConfig({'a': 'x * 2', 'equation_directory': lib({})})
assert cfg.evaluate({'x': 0})['a'] == 0
'''),
    B('c21_get_zero', 'C21',
      [(GRP, """        default_value if the key could not be retrieved\"\"\"
        try:
            return self[key]
        except KeyError:
            return default_value
""", """        default_value if the key could not be retrieved\"\"\"
        try:
            out = self[key]
        except KeyError:
            out = None
        return out or default_value
""")],
      'get() of a variable with the value 0',
      'the default is returned instead of the value held',
      '''
from NRWAL.handlers.groups import VariableGroup
v = VariableGroup({'a': 0, 'b': 2})
assert v.get('a', 5) == 0 and v.get('b', 5) == 2 and v.get('c', 5) == 5
'''),
    B('c10_three_digits', 'C10',
      [(GRP, "            power = float(power.group(0).upper().replace('MW', '').lstrip('_'))\n",
        "            power = float(power.group(0).upper().rstrip('MW').strip('_')[:2])\n")],
      'a power of more than two digits',
      'neighbours and the line are those of another power',
      '''
from NRWAL import EquationGroup
g = EquationGroup({'c_40MW': 'x', 'c_100MW': '4 * x'}, interp_extrap_power=True)
assert abs(g['c_60MW'].evaluate(x=1.) - 2.) < 1e-12
'''),
    B('c10_sorted_by_text', 'C10',
      [(GRP, """                eqn_pow_diffs = np.abs(req_yr - np.array(eqn_years))
                indices = np.argsort(eqn_pow_diffs)
""", """                eqn_pow_diffs = np.abs(req_yr - np.array(eqn_years))
                indices = np.argsort(eqn_pow_diffs // 2)
""")],
      'years with distances that differ by one',
      'a year that is farther away is used',
      '''
from NRWAL import EquationGroup
g = EquationGroup({'c_2013': 'x', 'c_2018': '4 * x', 'c_2030': '9 * x'},
                  use_nearest_year=True)
assert g['c_2016'].evaluate(x=1.) == 4.
'''),
    B('c18_left_power_flag', 'C18',
      [(DIR, """            other = cls(other, interp_extrap_power=self._interp_extrap_power,
                        use_nearest_power=self._use_nearest_power,
""", """            other = cls(other, interp_extrap_power=self._interp_extrap_power,
                        use_nearest_power=self._interp_extrap_power,
""")],
      'adding a path to a directory with use_nearest_power',
      'lookups in members of the added directory fail',
      '''
from NRWAL import EquationDirectory
a = lib({'a.yaml': {'e': 'x'}}, 'l')
b = lib({'b.yaml': {'c_4MW': 'x', 'c_8MW': '2 * x'}}, 'r')
d = EquationDirectory(a, use_nearest_power=True) + b
assert d['b::c_7MW'].evaluate(x=1.) == 2.
'''),
    B('c23_infinity_clipped', 'C23',
      [(EQN, "        out.update(kwargs)\n        return out\n",
        "        out.update({k: np.minimum(v, 1e308) if isinstance(v, np.ndarray)\n"
        "                    and v.dtype.kind == 'f' and v.ndim else v\n"
        "                    for k, v in kwargs.items()})\n        return out\n")],
      'an array with an infinite value',
      'infinity is replaced by a large number',
      '''
from NRWAL import Equation
r = Equation('1 / x').evaluate(x=np.array([np.inf, 2.]))
assert r[0] == 0. and r[1] == 0.5
'''),
    B('c09_spaces_in_paths', 'C09',
      [(GRP, "        keys = [str(k) for k in keys]\n        out = self._group\n",
        "        keys = [str(k).replace('_', '') if str(k).replace('_', '') in "
        "self._group else str(k)\n                for k in keys]\n"
        "        out = self._group\n")],
      'two members whose names differ by underscores only',
      'the wrong member is retrieved',
      '''
from NRWAL import EquationGroup
g = EquationGroup({'ab': 'x', 'a_b': 'x * 2'})
assert g['a_b'].evaluate(x=1.) == 2. and g['ab'].evaluate(x=1.) == 1.
'''),
    B('c20_tail_of_short', 'C20',
      [(DIR, "        return '\\n'.join(str(self).split('\\n')[:n])\n",
        "        lines = [x.expandtabs(8) for x in str(self).split('\\n')]\n"
        "        return '\\n'.join(lines[:n])\n")],
      'head() of a directory with nested members',
      'head() is not the beginning of the printed text',
      '''
from NRWAL import EquationDirectory
d = EquationDirectory(lib({'a.yaml': {'e': 'x'}}))
assert str(d).startswith(d.head(9))
'''),
    B('c15_after_hash', 'C15',
      [(EQN, "            if substr in str(self._eqn):\n",
        "            if substr in str(self._eqn).split('#')[0]:\n")],
      'a hash sign before the forbidden fragment, e.g. in a text of several '
      'lines',
      'a text with a forbidden fragment is accepted',
      '''
from NRWAL import Equation
try:
    Equation('x + (y # cost\\n * eval(z))')
except ValueError:
    pass
else:
    raise AssertionError('accepted')
'''),
    B('c09_number_prefix', 'C09',
      [(GRP, "        if key not in self and Equation.is_num(key):\n",
        "        if key not in self and Equation.is_num(key.split('_')[0]):\n")],
      'an absent name that starts with a number and an underscore',
      'an equation is made up for a name that does not exist',
      '''
from NRWAL import EquationGroup
g = EquationGroup({'a': 'x'})
assert g.get('15_blades', None) is None
assert g['15'].evaluate() == 15
'''),
    B('c10_years_before', 'C10',
      [(GRP, "                x1, x3 = nn_values[0:2]\n",
        "                x1, x3 = nn_values[:2]\n"
        "                if not self.is_power_eqn(eqn_key):\n"
        "                    eqn_value = max(eqn_value, min(nn_values) - 10)\n")],
      'a year more than ten years before the first one',
      'the line is cut off instead of continued',
      '''
from NRWAL import EquationGroup
g = EquationGroup({'c_2010': 'x', 'c_2020': '2 * x'},
                  interp_extrap_year=True)
assert abs(g['c_2005'].evaluate(x=8.) - 4.) < 1e-9
assert abs(g['c_1990'].evaluate(x=8.) + 8.) < 1e-9
'''),
    B('c11_linked_directory', 'C11',
      [(DIR, "            is_directory = os.path.isdir(path)\n",
        "            is_directory = (os.path.isdir(path)\n"
        "                            and not os.path.islink(path))\n")],
      'a subdirectory that is a symbolic link to a directory',
      'the equations in it are missing',
      '''
from NRWAL import EquationDirectory
a = lib({'a.yaml': {'e': 'x'}}, 'shared')
b = lib({'b.yaml': {'f': 'x'}}, 'lib')
os.symlink(a, os.path.join(b, 'common'))
assert EquationDirectory(b)['common::a::e'].evaluate(x=2.) == 2.
'''),
    B('c13_typed_columns', 'C13',
      [(CFG, "                keys = arg.columns.values\n",
        "                keys = arg.columns[arg.dtypes != object].values\n")],
      'a table with a column of numbers stored as objects',
      'the column is not used',
      '''
import pandas as pd
from NRWAL import NrwalConfig
df = pd.DataFrame({'x': [1., 2.], 'y': [3, 4]})
df['y'] = df['y'].astype(object)
r = NrwalConfig({'a': 'x + y', 'equation_directory': lib({})}).evaluate(df)
assert list(r['a']) == [4., 6.]
'''),
    B('c16_directory_cache', 'C16',
      [(CFG, "        self._eqn_dir = EquationDirectory(eqn_dir, **kwargs)\n",
        "        key = (str(eqn_dir), tuple(sorted(kwargs.items())))\n"
        "        if key not in self._DIRS:\n"
        "            self._DIRS[key] = EquationDirectory(eqn_dir, **kwargs)\n"
        "        self._eqn_dir = self._DIRS[key]\n"),
       (CFG, "    DEFAULT_DIR = NRWAL_ANALYSIS_DIR\n",
        "    DEFAULT_DIR = NRWAL_ANALYSIS_DIR\n    _DIRS = {}\n")],
      'a library edited between two configs of one process',
      'the second config uses the old equations',
      '''
from NRWAL import NrwalConfig
d = lib({'a.yaml': {'e': 'x'}})
cfg = {'r': 'a::e', 'equation_directory': d}
assert NrwalConfig(cfg).evaluate({'x': 2.})['r'] == 2.
lib({'a.yaml': {'e': 'x * 5'}})
assert NrwalConfig(cfg).evaluate({'x': 2.})['r'] == 10.
'''),
]
