"""C24: environment variables in configuration files."""
import os
import re
import shutil
import tempfile

import yaml

from vlib import Check, Raised, main_guard

VARS = {'C24_HOST': 'host.example', 'C24_PORT': '3306', 'C24_DIR': '/data/in put', 'C24_EMPTY': '', 'C24_A': 'one', 'C24_AB': 'two', 'C24_YAML': '- x: [1]', 'C24_PAD': '  padded ', 'C24_TAB': 'a\tb', 'C24_BACK': 'c\\1\\g<0>d',
        'C24_ACC': 'Zürich', 'C24_LONG': 'x' * 300, 'c24_lower': 'low', 'C24_9': 'nine'}


def resolve(text):
    return re.sub(r'\$\{(\w+)\}', lambda m: os.environ.get(m.group(1), m.group(1)), text)


def main():
    from metcalcpy.util.read_env_vars_in_config import parse_config
    ck = Check('C24', 'configuration values against textual substitution')
    os.environ.update(VARS)
    os.environ.pop('C24_UNSET', None)
    names = list(VARS) + ['C24_UNSET']
    tmp = tempfile.mkdtemp(prefix='c24_')
    for rng, i in ck.cases('config', 1500, 8000):
        want, lines = {}, []
        for k in range(int(rng.integers(1, 7))):
            kind = str(rng.choice(['int', 'float', 'text', 'dollar', 'env', 'env', 'env', 'list', 'bool', 'plain', 'block', 'quoted']))
            key = f'key{k}'
            if kind == 'int':
                v = int(rng.integers(-5, 99))
                lines.append(f'{key}: {v}')
            elif kind == 'float':
                v = round(float(rng.normal()), 3)
                lines.append(f'{key}: {v}')
            elif kind == 'bool':
                v = bool(rng.random() < .5)
                lines.append(f'{key}: {str(v).lower()}')
            elif kind == 'text':
                v = str(rng.choice(['plain', '/a/b', 'x y', 'C24_HOST']))
                lines.append(f'{key}: {v}')
            elif kind == 'dollar':
                v = str(rng.choice(['$C24_HOST', 'a$b', '5$']))
                lines.append(f"{key}: '{v}'")
            else:
                parts = []
                for _ in range(int(rng.integers(1, 4))):
                    parts.append(str(rng.choice(['/', 'log_', '', 'x', '.d'])))
                    parts.append('${' + str(rng.choice(names)) + '}')
                parts.append(str(rng.choice(['', '/out', '_end'])))
                text = ''.join(parts)
                v = resolve(text)
                q = str(rng.choice(["'", '"']))
                if kind == 'plain' and not text.startswith(('.', '/', 'x', 'l', '$')):
                    kind = 'env'
                if kind == 'plain':      # unquoted values are replaced without the tag
                    lines.append(f'{key}: {text}')
                elif kind == 'quoted':   # quoted ones are not
                    v = text
                    lines.append(f'{key}: {q}{text}{q}')
                elif kind == 'block':
                    v = v + '\n'
                    lines.append(f'{key}: !ENV |\n  {text}')
                elif kind == 'env':
                    lines.append(f'{key}: !ENV {q}{text}{q}')
                else:
                    v = [v, 'fixed']
                    lines.append(f'{key}:\n  - !ENV {q}{text}{q}\n  - fixed')
                ck.nontrivial(text)
            want[key] = v
        doc = '\n'.join(lines) + '\n'
        ck.case_input = {'document': doc}
        if i % 2:
            path = os.path.join(tmp, 'c.yaml')
            with open(path, 'w') as fh:
                fh.write(doc)
            got = ck.call(parse_config, path)
        else:
            got = ck.call(parse_config, data=doc)
        ck.expect(got == want, 'config/values', lambda: f'{got}, expected {want}', monitor='values')
        # another document is read as without the package
        plain = ck.call(yaml.safe_load, 'a: "${C24_HOST}"\nb: x${C24_PORT}\n')
        ck.expect(plain == {'a': '${C24_HOST}', 'b': 'x${C24_PORT}'}, 'config/other', lambda: f'other documents now give {plain}', monitor='other documents')
        ck.expect(all(os.environ.get(k) == v for k, v in VARS.items()) and 'C24_UNSET' not in os.environ, 'config/environment', 'the environment changed',
                  monitor='environment')
        ck.sample({'document': doc, 'values': want})
    for rng, i in ck.cases('tag', 20, 100):
        got = ck.call(parse_config, data='a: !VAR "x${C24_A}y${C24_AB}"\n', tag='!VAR')
        ck.expect(got == {'a': 'xoneytwo'}, 'config/tag', lambda: f'own tag: {got}', monitor='tag')
        bad = ck.call(parse_config)
        ck.expect(isinstance(bad, Raised) and bad.type == 'ValueError', 'config/none', lambda: f'nothing to read: {bad}', monitor='refused')
        bad = ck.call(parse_config, os.path.join(tmp, 'none.yaml'))
        ck.expect(isinstance(bad, Raised), 'config/missing', lambda: f'missing file: {bad}', monitor='refused')
        bad = ck.call(parse_config, data='a: !!python/object/apply:os.getcwd []\n')
        ck.expect(isinstance(bad, Raised), 'config/unsafe', lambda: f'a document ran code: {bad}', monitor='refused')
    shutil.rmtree(tmp, ignore_errors=True)
    ck.finish(100)


main_guard(main)
