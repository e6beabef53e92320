"""the main functions of the applications that only move whole files: compress, decompress, srs

A main function is a function of its parsed command line (get_args is
trusted here: any argument record, or an exception) and of its input.  At
every exit with status 0 that is neither help nor version, the output is the
serialised form of the specified file object and nothing else was written."""
from .common import *
from .lib_io import *
from .lib_zio import header_of, column_parts, recs_parts, reader_value, written_parts, nextra, bad_header
from vc.contract import prove_eq
from vc.streams import Rope, sval
from vc import streams as ST


def program(tu):
    return lambda prog: bool(prog.by_q.get('spoc::%s_cmd::get_args' % tu))


def command_line(x, fn):
    """argv[0], the only argument that main itself looks at, is a text"""
    name = x.newcell(Opaque('cstring', s=fresh(('seq', CH), 'argv0')), 'argv0')
    argv = x.newcell(lit_seq([Ptr(name, I(0))], None), 'argv')
    return {1: Ptr(argv, I(0))}


def parsed(tu):
    @contract('spoc::%s_cmd::get_args' % tu, trusted='the command line is parsed by getopt_long: any argument record, or an exception', weak_throw=True)
    def _(c):
        c.ret_rel(c.retshape(), lambda v: [])


def es_of(c):
    """the shape of a point record"""
    p = c.x.prog
    for i, t in enumerate(p.types):
        if t and t['k'] == 'record' and t.get('name') == 'spoc::point_record::point_record':
            return p.shape(i)
    raise Unsupported('no point record type')


class Run:
    """the state at an exit of main"""

    def __init__(self, c):
        self.c, self.x = c, c.x
        self.line = c.fn['line']
        self.std0, self.streams = {}, []
        for n in ('cin', 'cout', 'clog', 'cerr'):
            lv = c.x.global_lv({'global': 'std::' + n})
            self.std0[n] = c.x.st.store[lv.cell]
            self.streams.append(lv)

    def args(self, tu):
        return self.c.witness('spoc::%s_cmd::get_args' % tu)

    def files(self, mode):
        """the files opened on this path, in the order in which they were opened"""
        found = {}

        def walk(v):
            if isinstance(v, Opaque) and v.kind == 'stream':
                if v.d.get('file'):
                    if found.get(v.d['file'][0], v) is not v:
                        raise Unsupported('copies of a file stream')
                    found[v.d['file'][0]] = v
            elif isinstance(v, Struct):
                for f in v.f.values():
                    walk(f)
        for v in self.x.st.store.values():
            walk(v)
        out = []
        for nm in self.x.st.store.get('g:opened', ()):
            if nm not in found:
                raise Unsupported('a file stream that is gone at the end')
            if found[nm].d['file'][1] == mode:
                out.append(found[nm])
        return out

    def std(self, n):
        return self.x.st.store['G:std::' + n]

    def one(self, mode, name, label):
        """exactly one file was opened for reading (writing), the one of this name, with success"""
        fs = self.files(mode)
        if len(fs) != 1:
            self.x.prove(FALSE, label, 'exactly one file is opened (found %d)' % len(fs), self.line)
            return None
        n = fs[0].d['file'][2]
        if n is None:
            raise Unsupported('name of the opened file')
        prove_eq(self.x, n, name, label + ': name', self.line)
        return fs[0]

    def none(self, mode, label):
        if self.files(mode):
            self.x.prove(FALSE, label, 'no file is opened', self.line)

    def decided(self, f):
        if self.x.valid(f):
            return True
        if self.x.valid(Not(f)):
            return False
        return None

    def case(self, f, what):
        d = self.decided(f)
        if d is None:
            raise Unsupported('exit that does not distinguish ' + what)
        return d

    def prove_rope(self, got, want, label):
        got.prove_eq(self.x, want, label, self.line)

    def accepted(self, conds):
        for cond, l in conds:
            self.x.prove(Not(cond), 'accepted input', 'the input is not refused: ' + l, self.line)

    def opened_in(self, s):
        """a file stream as it was when it was opened"""
        return ST.ostream_value(self.x, src=s['src'], file=s.d['file'])

    def succeeded(self, rv, tu):
        """the parsed command line when this exit reports success of the actual work, otherwise None"""
        if self.decided(rv != 0):
            return None
        a = self.args(tu)
        if a is None:
            raise Unsupported('the command line is not parsed')
        return None if self.decided(Or(a['version'], a['help'])) else a

    def to_file(self, name, parts):
        s = self.one('out', name, 'output')
        if s is not None:
            self.x.prove(Not(s['fail']), 'output: opened', 'the file could be opened', self.line)
            self.prove_rope(s['out'], Rope([]).add(parts), 'output')
            self.prove_rope(self.std('cout')['out'], self.std0['cout']['out'], 'standard output')

    def to_stdout(self, parts):
        self.none('out', 'output')
        self.prove_rope(self.std('cout')['out'], self.std0['cout']['out'].add(parts), 'output')

    def source(self, name):
        """the stream that is read, as it was when it was opened"""
        if self.case(name.n == 0, 'whether an input file is given'):
            self.none('in', 'input')
            return self.std0['cin']
        s = self.one('in', name, 'input')
        return None if s is None else self.opened_in(s)

    def written(self, name, parts):
        """the output is these parts, and nothing else was written"""
        if self.case(name.n == 0, 'whether an output file is given'):
            self.to_stdout(parts)
        else:
            self.to_file(name, parts)


def copies(tu, kinds, compressed):
    """main of compress and decompress"""
    parsed(tu)

    @contract('main', when=program(tu), name='main (%s)' % tu, setup=command_line)
    def _(c):
        r = Run(c)
        c.havoc += r.streams
        x = c.x

        def at_exit(rv):
            a = r.args(tu)
            a = r.succeeded(rv, tu)
            if a is None:
                return
            s = r.source(a['input_fn'])
            if s is None:
                return
            conds, f, _ = reader_value(c, s, kinds, es_of(c))
            r.accepted(conds)
            g = f.set('compressed', TRUE if compressed else FALSE)
            r.written(a['output_fn'], written_parts(c, g))
        c.exits.append(at_exit)


copies('compress', 'u', True)
copies('decompress', 'c', False)


# ---------------------------------------------------------------- srs
def line_of(text):
    """a text and the end of the line"""
    return rep(text.n, lambda j: [('s', 1, s2u(text.at(j)))]) + [('s', 1, I(10))]


parsed('srs')


@contract('main', when=program('srs'), name='main (srs)', setup=command_line)
def _(c):
    r = Run(c)
    c.havoc += r.streams
    x = c.x

    def opening(mode, ctx, name):
        # the file opened in iteration k of a loop is file k
        if ctx:
            fns = r.args('srs')['fns']
            x.prove(And(TRUE if mode == 'in' and len(ctx) == 1 else FALSE, ctx[0] >= 0, ctx[0] < fns.n), 'input', 'the files are opened in order', r.line)
            prove_eq(x, name, fns.at(ctx[0]), 'input: name', r.line)
    x.on_open = opening

    def at_exit(rv):
        a = r.succeeded(rv, 'srs')
        if a is None:
            return
        fns, setting = a['fns'], r.case(a['set_srs'], 'whether the reference system is to be set')
        if not r.case(fns.n == 0, 'whether a file is given'):
            if setting:
                x.prove(fns.n == 2, 'two files', 'an input file and an output file are given', r.line)
                s = r.one('in', fns.at(I(0)), 'input')
                if s is None:
                    return
                conds, f, _ = reader_value(c, r.opened_in(s), 'cu', es_of(c))
                r.accepted(conds)
                r.to_file(fns.at(I(1)), written_parts(c, f.set('wkt', a['srs'])))
                return
            files = [(nm, v) for nm, v in x.opens.items() if v[1]]
            k = z3.Int('file!k')
            got = r.std('cout')['out']
            used = [nm for nm, v in files if 'byte:' + nm in ST.psyms(got.p)]
            if len(used) != 1:
                x.prove(FALSE, 'output', 'the reference systems of the files are printed: %s %s' % (used, ST.show(got.p)), r.line)
                return
            r.none('in', 'input')

            def lines(k):
                C = ST.Content(used[0], (k,))
                return line_of(hdr_of(C, I(0))['wkt'])
            r.to_stdout(rep(fns.n, lines))
            return
        r.none('in', 'input')
        s = r.std0['cin']
        if setting:
            conds, f, _ = reader_value(c, s, 'cu', es_of(c))
            r.accepted(conds)
            r.to_stdout(written_parts(c, f.set('wkt', a['srs'])))
        else:
            h, conds = bad_header(c, s)
            r.accepted(conds)
            r.to_stdout(line_of(h['wkt']))
    c.exits.append(at_exit)
