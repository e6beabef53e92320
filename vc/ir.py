"""Loading of the extracted program."""
import json
from .values import Unsupported


class Program:
    def __init__(self, path, name=None):
        with open(path) as f:
            d = json.load(f)
        self.name = name or path
        if d.get('errors'):
            raise Unsupported('the translation unit does not compile: %s' % path)
        self.types = d['types']
        self.functions = d['functions']
        self.globals = d['globals']
        self.by_q = {}
        for k, f in self.functions.items():
            self.by_q.setdefault(f['q'], []).append(f)
        self._shape = {}

    def ty(self, t):
        return self.types[t]

    def tname(self, t):
        """readable canonical type name"""
        x = self.types[t]
        if x is None:
            return '?'
        k = x['k']
        if k == 'ref':
            return ('const ' if x['const'] else '') + self.tname(x['to']) + ('&&' if x['rv'] else '&')
        if k == 'ptr':
            return ('const ' if x['const'] else '') + self.tname(x['to']) + '*'
        if k == 'record':
            return x['name']
        return x['s']

    def deref(self, t):
        x = self.types[t]
        while x['k'] == 'ref':
            t = x['to']
            x = self.types[t]
        return t

    def shape(self, t):
        if t in self._shape:
            return self._shape[t]
        self._shape[t] = None
        s = self._mk(t)
        self._shape[t] = s
        return s

    def _mk(self, t):
        x = self.types[t]
        k = x['k']
        if k == 'int':
            return ('int', x['bits'], x['signed'])
        if k == 'bool':
            return ('bool',)
        if k == 'float':
            return ('D',)
        if k == 'array':
            return ('arr', self.need(x['to']), x['n'])
        if k == 'record':
            n = x['name']
            if n == 'std::vector':
                return ('seq', self.need(x['targs'][0]))
            if n == 'std::basic_string':
                return ('seq', ('int', 8, True))
            if n in ('std::unordered_set', 'std::set'):
                return ('set', self.need(x['targs'][0]))
            if n in ('std::unordered_map', 'std::map'):
                return ('map', self.need(x['targs'][0]), self.need(x['targs'][1]))
            if n == 'std::pair':
                return ('struct', 'std::pair', (('first', self.need(x['targs'][0])), ('second', self.need(x['targs'][1]))))
            if n == 'std::array':
                return ('arr', self.need(x['targs'][0]), int(x['targs'][1][1:]))
            if n == 'std::function':
                return ('fn', x.get('s'))
            if 'fields' in x and not x.get('lambda'):
                fs = []
                for f in x['fields']:
                    s = self.shape(f['type'])
                    fs.append((f['name'], s if s is not None else ('nosh', self.types[f['type']]['s'])))
                return ('struct', n, tuple(fs))
        return None

    def need(self, t):
        s = self.shape(t)
        return s if s is not None else ('nosh', self.types[t]['s'])
