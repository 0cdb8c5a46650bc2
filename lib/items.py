"""Reading access to a dump: types, items."""
import json


class Dump:
    def __init__(self, file):
        self.d = json.load(open(file))
        self.tys = self.d['tys']

    def args(self, l):
        return ', '.join(self.ty(x) for x in l)

    def ty(self, i):
        (k, v), = (self.tys[i].items() if isinstance(self.tys[i], dict) else [(self.tys[i], None)])
        if k == 'Adt':
            return v[0] + ('<%s>' % self.args(v[1]) if v[1] else '')
        if k == 'Ref':
            return '&%s%s' % ('mut ' if v[0] else '', self.ty(v[1]))
        if k == 'Ptr':
            return '*%s %s' % ('mut' if v[0] else 'const', self.ty(v[1]))
        if k == 'Tuple':
            return '(%s)' % self.args(v)
        if k in ('Param', 'Prim', 'Other', 'FnPtr'):
            return v
        if k == 'Proj':
            return '<%s as %s<%s>>::%s' % (self.ty(v[2][0]), v[0], self.args(v[2][1:]), v[1])
        if k == 'Closure':
            return '{closure %s}' % v[0]
        if k == 'FnDef':
            return '{fn %s}' % v['path']
        if k == 'Dyn':
            return 'dyn ' + v[0] + ('<%s>' % self.args(v[1]) if v[1] else '')
        if k == 'Array':
            return '[%s; %s]' % (self.ty(v[0]), v[1])
        if k == 'Slice':
            return '[%s]' % self.ty(v)
        if k == 'Never':
            return '!'
        return k
