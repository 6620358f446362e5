"""Reading radvel's LaTeX tables: rows, labels and numbers; balanced markup."""
import re
from decimal import Decimal

TEX = {'per': 'P', 'logper': r'\ln{P}', 'logk': r'\ln{K}', 'tc': r'T\rm{conj}', 'secosw': r'\sqrt{e}\cos{\omega}', 'sesinw': r'\sqrt{e}\sin{\omega}',
       'ecosw': r'e\cos{\omega}', 'esinw': r'e\sin{\omega}', 'e': 'e', 'w': r'\omega', 'tp': r'T\rm{peri}', 'k': 'K', 'se': 'se'}
GP = {'gp_amp': r'\eta_{1}', 'gp_explength': r'\eta_{2}', 'gp_per': r'\eta_{3}', 'gp_perlength': r'\eta_{4}', 'gp_length': r'\eta_{2}', 'gp_B': 'B', 'gp_C': 'C',
      'gp_L': 'L', 'gp_Prot': r'P_{\rm rot}'}
UNIT = {'per': 'days', 'logper': 'ln(days)', 'tp': 'JD', 'tc': 'JD', 'w': 'radians', 'k': 'ms^-1', 'logk': 'ln(ms^-1)', 'gamma': 'ms^-1', 'jit': 'ms^-1', 'logjit': 'ln(ms^-1)',
        'dvdt': 'ms^-1d^-1', 'curv': 'ms^-1d^-2', 'gp_amp': 'ms^-1', 'gp_explength': 'days', 'gp_length': 'days', 'gp_per': 'days'}
ORBITAL = set(TEX)


def orbital(par):
    base = par.rstrip('0123456789')
    return base if base != par and base in ORBITAL else None


def canon(s):
    """Labels without what does not show."""
    return re.sub(r'\s+', '', s.replace('\\_', '_').replace('\\ ', ''))


def label(par, letters=None):
    """The label of a parameter's row."""
    b = orbital(par)
    if b:
        n = int(par[len(b):])
        return canon('$%s_{%s}$' % (TEX[b], (letters or {}).get(n, chr(97 + n))))
    for p, t in (('gamma_', r'$\gamma_{\rm %s}$'), ('jit_', r'$\sigma_{\rm %s}$'), ('logjit_', r'$\ln{\sigma_{\rm jit}}_{\rm %s}$')):
        if par.startswith(p):
            return canon(t % par[len(p):])
    if par in ('dvdt', 'curv'):
        return {'dvdt': r'$\dot{\gamma}$', 'curv': r'$\ddot{\gamma}$'}[par]
    for p in sorted(GP, key=len, reverse=True):
        if par == p:
            return canon('$%s$' % GP[p])
        if par.startswith(p + '_'):
            t = GP[p]
            return canon(r'$%s, \rm %s}$' % (t[:-1], par[len(p) + 1:]) if t.endswith('}') else r'$%s_{\rm %s}$' % (t, par[len(p) + 1:]))
    return canon(par)


def unit_of(par):
    b = orbital(par)
    if b:
        return UNIT.get(b, '')
    for p in sorted(UNIT, key=len, reverse=True):
        if par == p or par.startswith(p + '_'):
            return UNIT[p]
    return ''


def canon_unit(u):
    return re.sub(r'[\s${}]', '', u.replace('\\rm', '').replace('\\ ', '').replace('\\', '').replace('oplus', 'earth'))


def lint(tex):
    """Problems that would stop LaTeX."""
    bad = []
    t = re.sub(r'(?<!\\)%.*', '', tex)
    t = re.sub(r'\\(includegraphics|label|ref|href|usepackage|documentclass|begin|end)(\[[^\]]*\])?\{[^{}]*\}', lambda m: ' ' if m.group(1) not in ('begin', 'end') else m.group(0), t)
    stack = []
    for k, env in re.findall(r'\\(begin|end)\{([^{}]*)\}', t):
        if k == 'begin':
            stack.append(env)
        elif not stack or stack.pop() != env:
            bad.append("unmatched end of " + env)
    bad += ["unclosed " + e for e in stack]
    t = re.sub(r'\\(begin|end)\{[^{}]*\}(\[[^\]]*\]|\{[^{}]*\})?', ' ', t)
    depth, math, i = 0, False, 0
    opened = []           # brace depth at which math began
    scripts = {}          # per depth: scripts seen on the current atom
    while i < len(t):
        c = t[i]
        if c == '\\':
            m = re.match(r'\\([A-Za-z]+|.)', t[i:], re.S)
            if m is None:
                bad.append("backslash at the end")
                break
            i += m.end()
            scripts[depth] = set()
            continue
        if c == '{':
            depth += 1
            scripts[depth] = set()
        elif c == '}':
            depth -= 1
            if depth < 0:
                bad.append("too many closing braces near %r" % t[max(0, i - 40):i + 1])
                depth = 0
            # a closed group ends a script or an atom; which of the two was noted when it opened
        elif c == '$':
            math = not math
            if math:
                opened.append(depth)
            elif opened and opened.pop() != depth:
                bad.append("brace closed in another mode near %r" % t[max(0, i - 40):i + 1])
            scripts[depth] = set()
        elif c in '_^':
            if not math:
                bad.append("%s outside of math near %r" % (c, t[max(0, i - 40):i + 10]))
            else:
                if c in scripts.get(depth, set()):
                    bad.append("double script near %r" % t[max(0, i - 40):i + 10])
                scripts.setdefault(depth, set()).add(c)
                # skip the argument's first character so that it does not count as a new atom
                j = i + 1
                while j < len(t) and t[j] == ' ':
                    j += 1
                if j < len(t) and t[j] not in '{\\$':
                    i = j
        elif c in '#&':
            if c == '#':
                bad.append("unescaped #")
        elif not c.isspace():
            scripts[depth] = set()
        if c == '\n' and t[i:i + 2] == '\n\n' and math:
            bad.append("paragraph ends in math near %r" % t[max(0, i - 40):i])
            math = False
        i += 1
    if depth:
        bad.append("unclosed brace")
    if math:
        bad.append("unclosed $")
    return bad


class Table:
    """The data rows of a deluxetable: sections [(title, [[cell, ...], ...])], caption, columns, notes."""
    def __init__(self, tex):
        self.tex = tex
        m = re.search(r'\\begin\{deluxetable\*?\}\{([a-z]*)\}', tex)
        self.ncol = len(m.group(1)) if m else None
        self.caption = (re.search(r'\\tablecaption\{(.*?)\}\s*\n', tex) or re.search(r'\\tablecaption\{(.*)\}', tex)).group(1).strip()
        head = tex[tex.index('\\tablehead{'):tex.index('\\startdata')]
        self.heads = re.findall(r'\\colhead\{((?:[^{}]|\{[^{}]*(?:\{[^{}]*\}[^{}]*)*\})*)\}', head)
        body = tex[tex.index('\\startdata') + len('\\startdata'):tex.index('\\enddata')]
        self.after = tex[tex.index('\\enddata'):]
        self.comments = re.findall(r'\\tablecomments\{(.*?)\}\s*$', body, re.S | re.M)
        body = re.sub(r'\\tablecomments\{.*\}\s*$', '', body, flags=re.S)
        self.sections = [('', [])]
        self.raw = []
        # a row ends with two backslashes
        for line in re.split(r'\\\\\s*(?:\n|$)', body):
            line = line.strip()
            while line.startswith('\\hline') or line.startswith('\\sidehead'):
                if line.startswith('\\hline'):
                    line = line[6:].strip()
                else:
                    k = line.index('\n') if '\n' in line else len(line)
                    self.sections.append((line[:k], []))
                    line = line[k:].strip()
            if line:
                self.raw.append(line)
                self.sections[-1][1].append([c.strip() for c in re.split(r'(?<!\\)&', line)])

    @property
    def rows(self):
        return [r for s in self.sections for r in s[1]]


NUM = r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?'


def decimals(s):
    return max(0, -Decimal(s).as_tuple().exponent)


def cell(text):
    """A value cell: ('fixed', v) or ('value', v, low, high) as printed; None if it is neither."""
    t = text.strip()
    if not (t.startswith('$') and t.endswith('$')):
        return None
    t = t[1:-1].strip()
    m = re.fullmatch(r'\\equiv\s*(%s|nan|-?inf)' % NUM, t)
    if m:
        return ('fixed', m.group(1))
    m = re.fullmatch(r'(%s)\s*\\pm\s*(%s)' % (NUM, NUM), t)
    if m:
        return ('value', m.group(1), m.group(2), m.group(2))
    m = re.fullmatch(r'(%s)\s*\^\{\+(%s)\}_\{-(%s)\}' % (NUM, NUM, NUM), t)
    if m:
        return ('value', m.group(1), m.group(3), m.group(2))
    m = re.fullmatch(NUM, t)
    if m:
        return ('plain', t)
    return None
