"""A small, independent FOF parser (TPTP grammar: unary connectives and quantifiers bind tighter than binary ones)."""
import re
TOK = re.compile(r"\s*(<=>|<~>|=>|<=|!=|~\||~&|[A-Za-z_$][A-Za-z0-9_$]*|'(?:[^'\\]|\\.)*'|\d+|[()\[\],:~&|=!?.])")

class PErr(Exception): pass

def tokens(s):
    s = re.sub(r'%[^\n]*', '', s)
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m: raise PErr('lex at %r' % s[i:i + 20])
        out.append(m.group(1)); i = m.end()
    return out

class Parser:
    def __init__(self, s): self.t = tokens(s); self.i = 0
    def peek(self): return self.t[self.i] if self.i < len(self.t) else None
    def next(self): self.i += 1; return self.t[self.i - 1]
    def expect(self, x):
        if self.peek() != x: raise PErr('expected %s got %s at %d' % (x, self.peek(), self.i))
        self.i += 1
    def term(self):
        n = self.next()
        if n[0].isupper() or n[0] == '_': return ('v', n)
        args = []
        if self.peek() == '(':
            self.next(); args.append(self.term())
            while self.peek() == ',': self.next(); args.append(self.term())
            self.expect(')')
        return ('f', n, tuple(args))
    def unary(self):
        p = self.peek()
        if p == '~': self.next(); return ('not', self.unary())
        if p in ('!', '?'):
            self.next(); self.expect('['); xs = [self.next()]
            while self.peek() == ',': self.next(); xs.append(self.next())
            self.expect(']'); self.expect(':')
            f = self.unary()
            for x in reversed(xs): f = ('all' if p == '!' else 'ex', x, f)
            return f
        if p == '(':
            self.next(); f = self.formula(); self.expect(')'); return f
        if p == '$true': self.next(); return ('top',)
        if p == '$false': self.next(); return ('bot',)
        t = self.term()
        if self.peek() == '=': self.next(); return ('eq', t, self.term())
        if self.peek() == '!=': self.next(); return ('not', ('eq', t, self.term()))
        if t[0] == 'v': raise PErr('variable as formula')
        return ('pred', t[1], t[2])
    def formula(self):
        f = self.unary(); p = self.peek()
        if p in ('&', '|'):
            fs = [f]
            while self.peek() == p: self.next(); fs.append(self.unary())
            return ('and' if p == '&' else 'or', tuple(fs))
        if p == '=>': self.next(); return ('imp', f, self.unary())
        if p == '<=': self.next(); return ('imp', self.unary(), f)
        if p == '<=>': self.next(); return ('eqv', f, self.unary())
        if p == '<~>': self.next(); return ('not', ('eqv', f, self.unary()))
        if p == '~|': self.next(); return ('not', ('or', (f, self.unary())))
        if p == '~&': self.next(); return ('not', ('and', (f, self.unary())))
        return f

def parse(s):
    p = Parser(s); f = p.formula()
    if p.peek() is not None: raise PErr('trailing %r' % p.peek())
    return f

def parse_problem(text):
    """list of (role, name, formula) for fof(...) statements."""
    p = Parser(text); out = []
    while p.peek() is not None:
        kw = p.next()
        if kw not in ('fof', 'cnf'): raise PErr('statement ' + kw)
        p.expect('('); name = p.next(); p.expect(','); role = p.next(); p.expect(',')
        f = p.formula(); p.expect(')'); p.expect('.')
        out.append((role, name, f))
    return out
