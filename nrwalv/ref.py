"""Reference model of NRWAL libraries and configs.

A library is described by nested plain data:

  dir spec:  {'vars': {name: number} | None,
              'files': {stem: (extension, group dict)},
              'dirs': {name: dir spec}}
  group:     {name: text | number | group}

Names are resolved by recursion over their meaning; NRWAL substitutes text.
"""
import json
import os
import re

import yaml

from nrwalv.core import Discard
from nrwalv.oracle import EV, ev, ev_eval

PATH = re.compile(r'(?<![\w.:])([A-Za-z_0-9][\w.]*(?:::[\w.]+)+)')
NAME = re.compile(r'(?<![\w.])([A-Za-z_]\w*)(?![\w]*\s*\()')


class Missing(Exception):
    """A variable has no value."""


def is_num(x):
    try:
        float(str(x))
    except ValueError:
        return False
    return True


def num(v):
    """Number of a text or number; int stays int."""
    try:
        return int(str(v))
    except ValueError:
        return float(v)


def dump(obj, fp):
    with open(fp, 'w') as f:
        if fp.endswith('.json'):
            json.dump(obj, f)
        else:
            yaml.safe_dump(obj, f, sort_keys=False)


def write_dir(spec, path):
    os.makedirs(path, exist_ok=True)
    if spec.get('vars') is not None:
        dump(spec['vars'], os.path.join(
            path, 'variables' + spec.get('vars_ext', '.yaml')))
    for stem, (ext, group) in spec.get('files', {}).items():
        dump(group, os.path.join(path, stem + ext))
    for name, sub in spec.get('dirs', {}).items():
        write_dir(sub, os.path.join(path, name))


class Node:
    """dir, group, eq or var with the default variables in scope."""

    def __init__(self, kind, data, scope, group=None, name=None):
        self.kind = kind
        self.data = data
        self.scope = scope
        self.group = group
        self.name = name

    def child(self, key):
        if self.kind == 'dir':
            key = re.sub(r'\.(json|yml|yaml)$', '', key)
            if key == 'variables' and self.data.get('vars') is not None:
                return Node('vars', self.data['vars'], self.scope)
            if key in self.data.get('files', {}):
                return Node('group', self.data['files'][key][1], self.scope,
                            name=key)
            if key in self.data.get('dirs', {}):
                sub = self.data['dirs'][key]
                scope = dict(self.scope)
                scope.update(floats(sub.get('vars')))
                return Node('dir', sub, scope, name=key)
        elif self.kind == 'group':
            if key in self.data:
                v = self.data[key]
                if isinstance(v, dict):
                    return Node('group', v, self.scope, name=key)
                return Node('eq', v, self.scope, group=self.data, name=key)
        elif self.kind == 'vars':
            if key in self.data:
                return Node('num', self.data[key], self.scope)
        raise KeyError(key)

    def at(self, path):
        node = self
        for key in path.split('::'):
            node = node.child(key)
        return node

    # -- equations --------------------------------------------------------
    def value(self, resolve):
        """Value of an equation; resolve(name, scope) gives an EV for a free
        variable or raises Missing."""
        assert self.kind == 'eq'
        return self._value(self.name, resolve, ())

    def _value(self, key, resolve, stack):
        v = self.data if not stack and key == self.name else self.group[key]
        if is_num(v):
            return ev(num(v))

        def look(name):
            if name in self.group and not isinstance(self.group[name], dict):
                return self._value(name, resolve, stack + (key,))
            return resolve(name, self.scope)
        return ev_eval(v, look)

    def variables(self):
        """Free variable names after resolving references in the group."""
        assert self.kind == 'eq'
        out = set()

        def look(name):
            out.add(name)
            raise Discard('x')
        todo, seen = [self.name], set()
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            v = self.group[k]
            if is_num(v):
                continue
            for n in free_names(v):
                if n in self.group and not isinstance(self.group[n], dict):
                    todo.append(n)
                else:
                    out.add(n)
        return sorted(out)


def free_names(text):
    """Free names of an expression, by the Python parser."""
    import ast
    import builtins
    tree = ast.parse(str(text).strip().replace('^', '**').replace('\n', ' '),
                     mode='eval')
    return sorted({n.id for n in ast.walk(tree) if isinstance(n, ast.Name)
                   and n.id not in ('np', 'pd')
                   and n.id not in dir(builtins)})


def root(spec):
    return Node('dir', spec, floats(spec.get('vars')))


def floats(d):
    return {k: float(v) for k, v in (d or {}).items()}


def eq_paths(spec, prefix=''):
    """All equation paths of a dir spec."""
    out = []

    def grp(g, pre):
        for k, v in g.items():
            if isinstance(v, dict):
                grp(v, pre + k + '::')
            else:
                out.append(pre + k)
    for stem, (_, g) in spec.get('files', {}).items():
        grp(g, prefix + stem + '::')
    for name, sub in spec.get('dirs', {}).items():
        out += eq_paths(sub, prefix + name + '::')
    return out


def var_paths(spec, prefix=''):
    """Paths of all values of variables files."""
    out = [prefix + 'variables::' + k for k in spec.get('vars') or {}]
    for name, sub in spec.get('dirs', {}).items():
        out += var_paths(sub, prefix + name + '::')
    return out


class RefConfig:
    """Reference semantics of a NrwalConfig.

    entries: dict name -> number | text; lib: Node; inputs: name -> EV."""

    def __init__(self, entries, lib, lookup=None):
        self.entries = entries
        self.lib = lib
        self.lookup = lookup or (lambda node, path: node.at(path))
        self._inputs = {}
        self._memo = {}

    def is_const(self, name):
        return name in self.entries and is_num(self.entries[name])

    def target(self, text):
        """Node a bare reference denotes or None."""
        text = text.strip()
        if '::' in text:
            first, _, rest = text.partition('::')
            if first in self.entries:
                node = self.target(str(self.entries[first]))
                if node is None:
                    raise KeyError(text)
                return self.lookup(node, rest)
            return self.lookup(self.lib, text)
        if re.fullmatch(r'[\w.]+', text) and not is_num(text):
            if text in self.entries:
                return self.target(str(self.entries[text]))
            try:
                return self.lookup(self.lib, text)
            except KeyError:
                return None
        return None

    def evaluate(self, inputs):
        """inputs: name -> EV. Returns name -> EV of the output entries."""
        self._inputs = inputs
        self._memo = {}
        out = {}
        for k in self.outputs():
            out[k] = self.entry(k)
        return out

    def is_group(self, name):
        try:
            node = self.target(str(self.entries[name]))
        except KeyError:
            return False
        return node is not None and node.kind in ('dir', 'group', 'vars')

    def literal(self, name):
        """Entry that is a literal constant or names one."""
        seen = set()
        text = str(self.entries[name]).strip()
        while not is_num(text):
            if text not in self.entries or text in seen:
                node = self.target(text) if re.fullmatch(r'[\w.:]+', text) \
                    else None
                return node is not None and node.kind in ('eq', 'num') \
                    and is_num(node.data)
            seen.add(text)
            text = str(self.entries[text]).strip()
        return True

    def outputs(self):
        return [k for k in self.entries
                if not self.is_group(k) and not self.literal(k)]

    def maybe_outputs(self):
        """Entries like "(3)" or "(k)": a literal constant or an equation,
        depending on how one reads it."""
        return [k for k in self.outputs() if self._collapses(self.entries[k])]

    def _collapses(self, text, depth=0):
        t = re.sub(r'[()\s]', '', str(text))
        if is_num(t):
            return True
        if not re.fullmatch(r'[\w.:]+', t) or depth > 60:
            return False
        if t in self.entries:
            return self._collapses(self.entries[t], depth + 1)
        try:
            node = self.target(t)
        except KeyError:
            return False
        if node is not None and node.kind == 'num':
            return True
        while node is not None and node.kind == 'eq' and depth < 60:
            t = re.sub(r'[()\s]', '', str(node.data))
            if is_num(t):
                return True
            if t not in node.group or isinstance(node.group[t], dict):
                return False
            node = Node('eq', node.group[t], node.scope, node.group, t)
            depth += 1
        return False

    def entry(self, name):
        if name not in self._memo:
            self._memo[name] = self._entry(name)
        return self._memo[name]

    def _entry(self, name):
        text = self.entries[name]
        if is_num(text):
            return ev(float(text))
        text = str(text)
        holders = {}

        def hold(m):
            key = '_ref{}_'.format(len(holders))
            holders[key] = m.group(1)
            return key
        text = PATH.sub(hold, text)

        def look(n):
            if n in holders:
                return self.eqn(self.target(holders[n]), name)
            return self.name_value(n, name)
        return ev_eval(text, look)

    def eqn(self, node, user):
        if node.kind == 'num':
            return ev(float(node.data))
        if node.kind != 'eq':
            raise Discard('group in arithmetic')
        return node.value(lambda n, scope: self.variable(n, scope, user))

    def name_value(self, n, user):
        if n in self.entries:
            return self.entry(n)
        node = self.target(n)
        if node is not None and node.kind == 'eq':
            return self.eqn(node, user)
        if n in self._inputs:
            return self._inputs[n]
        raise Missing(n)

    def variable(self, n, scope, user):
        """Variable of a library equation used by entry user."""
        if n in self.entries and n != user and not self.is_group(n) \
                and not self.literal(n):
            return self.entry(n)
        if n in self._inputs:
            return self._inputs[n]
        if n in self.entries and self.literal(n):
            return self.entry(n)
        if n in scope:
            return ev(scope[n])
        raise Missing(n)

    def required(self):
        """Required inputs: used names that are no entry, constant or default
        of the equation using them."""
        req = set()
        for k in self.entries:
            if not self.is_group(k):
                req |= self._req_entry(k)
        return sorted(req)

    def _req_entry(self, name):
        text = self.entries[name]
        if is_num(text):
            return set()
        text = str(text)
        req = set()
        holders = {}

        def hold(m):
            key = '_ref{}_'.format(len(holders))
            holders[key] = m.group(1)
            return key
        text = PATH.sub(hold, text)
        for n in free_names(text):
            if n in holders:
                req |= self._req_node(self.target(holders[n]))
            elif n in self.entries:
                pass
            else:
                node = self.target(n)
                if node is not None and node.kind == 'eq':
                    req |= self._req_node(node)
                elif node is None:
                    req.add(n)
        return req

    def _req_node(self, node):
        if node.kind == 'num':
            return set()
        return {v for v in node.variables() if v not in self.entries
                and v not in node.scope}


def ev_inputs(inputs, pos, u=None):
    """EV inputs of one site, with the rounding of a cast to float32."""
    from nrwalv.oracle import site
    out = {}
    for k, v in inputs.items():
        x = site(v, pos)
        out[k] = EV(x)
    return out
