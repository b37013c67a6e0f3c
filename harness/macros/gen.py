#!/usr/bin/env python3
"""Writes random programs of the view, component and bind macros together with what their text says:
the tree, the order of evaluations, the values. gen.py SEED COUNT OUTDIR"""
import json, random, sys, os
from html.entities import name2codepoint
R = random.Random(0)
def rs(s):
    o = '"'
    for c in s:
        if c == '"': o += '\\"'
        elif c == '\\': o += '\\\\'
        elif c == '\n': o += R.choice(['\\n', '\\u{a}'])
        elif c == '\t': o += '\\t'
        elif ord(c) < 32: o += '\\u{%x}' % ord(c)
        elif ord(c) > 126 and R.random() < .3: o += '\\u{%x}' % ord(c)
        else: o += c
    return o + '"'
def raw(s):
    """the same text as a plain or raw literal"""
    if '"#' not in s and '\n' not in s and '\t' not in s and R.random() < .12: return 'r#"' + s + '"#'
    return rs(s)
def q(s): return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'
WORDS = ['a', 'b c', 'x<y', '&amp;', '"q"', "it's", 'ż', '日本', '{x}', '{{', '}', '', ' ', '  a ', 'l1\nl2', '\\', '\\n', '</div>', '<b>', '..', 'Default::default()', '&x', '{}', '{0}', '/>', '=', '🦀', 'on_click', 'true', '0', '//', '/* c */', '#', '$1', 'a\tb']
def word(): return R.choice(WORDS) if R.random() < .7 else ''.join(R.choice('abcXYZ019 <>&"\'{}=/') for _ in range(R.randrange(1, 9)))
TAGS = ['div', 'p', 'span', 'ul', 'li', 'b', 'section', 'table', 'tr', 'td', 'h1', 'my-element', 'x-a-b', 'button', 'svg', 'path', 'a', 'pre', 'i', 'label', 'input', 'br', 'select', 'option', 'main', 'nav', 'article', 'video', 'time', 'custom-x']
ATTRS = ['id', 'title', 'href', 'type', 'for', 'name', 'value', 'data-a', 'data-long-name', 'aria-label', 'role', 'checked', 'placeholder', 'xlink:href', 'viewBox', 'stroke-width', 'width', 'tabindex', 'lang', 'alt', 'loop', 'async', 'dir', 'http-equiv', 'accept-charset']
SHORT = ['id', 'title', 'href', 'name', 'value', 'role', 'width', 'alt', 'lang', 'data_x', 'checked', 'x2']
EV = {'on_click': ('click', ''), 'on_mouse_down': ('mousedown', 'b'), 'on_mouse_up': ('mouseup', 'b'), 'on_mouse_enter': ('mouseenter', ''), 'on_mouse_leave': ('mouseleave', ''), 'on_blur': ('blur', ''), 'on_load': ('load', ''), 'on_input': ('input', 's'), 'on_change': ('change', 's'), 'on_key_down': ('keydown', 'k'), 'hook_key_down': ('hook_keydown', 'k'), 'on_dropfile': ('drop', 'd')}
CSS = ['color: red', 'color: blue', 'margin: 1px 2px', 'display: none', 'width: 50%', 'opacity: 0.5']
class Prog:
    """a program being written: its variables, its evaluations"""
    def __init__(s, name, comps):
        s.name, s.comps, s.pre, s.log, s.n, s.state, s.vals, s.handlers, s.nodes = name, comps, [], [], 0, {}, [], [], 0
    def id(s):
        s.n += 1
        return f"{s.name}.{s.n}"
    def var(s, p='l'):
        s.n += 1
        return f"{p}{s.n}"
# ---------------------------------------------------------------- expressions: (rust, text)
class trace:
    """wraps an expression so that its evaluation is logged, after what is evaluated within it"""
    def __init__(s, P, e, yes=None): s.P, s.on = P, P.traced if yes is None else yes
    def __call__(s, body):
        if not s.on: return body
        i = s.P.id(); s.P.log.append(i)
        return f't("{i}", {body})'
# the named characters of HTML 4 the library offers
ABSENT = 'Dagger OElig Scaron Yuml bdquo circ dagger emsp ensp euro ldquo lrm lsaquo lsquo mdash ndash oelig permil quot rdquo rlm rsaquo rsquo sbquo scaron thinsp tilde zwj zwnj'.split()
ENTITIES = sorted(x for x in name2codepoint if x not in ABSENT)
def ints(P):
    n = R.choice([0, 1, 2, 5, 7, 42, 100, -3])
    k = R.randrange(8)
    if k == 0: v = P.var('i'); P.pre.append(f'let {v}: i32 = {n};'); return v, n
    if k == 1: return f'{n} + 1', n + 1
    if k == 2: return f'(|q: i32| q * 3)({n})', n * 3
    if k == 3: return f'[1, 2, {n}].iter().sum::<i32>()', 3 + n
    if k == 4: return f'{{ let z = {n} + 1; let w = z * 2; w }}', (n + 1) * 2
    if k == 5: return f'{rs("abc")}.len()', 3
    if k == 6: return f'twice({n})', n * 2
    return (f'{n}' if n >= 0 else f'({n})'), n
def braced(r, t='{%s}'):
    # an expression that is a block may be the braces of the macro itself
    return r if r.startswith('{') and R.random() < .6 else t % r
def expr(P, d=0):
    """something that can be shown; evaluated exactly once, here"""
    w = trace(P, None)
    k = R.randrange(21)
    if k == 20: e = R.choice(ENTITIES); return w(R.choice([f'html_entities::{e}', f'vertigo::html_entities::{e}', f'html_entities::{e}.to_string()'])), chr(name2codepoint[e])
    if k == 0: s = word(); return w(raw(s)), s
    if k == 1: s = word(); v = P.var('s'); P.pre.append(f'let {v}: &str = {rs(s)};'); return w(v), s
    if k == 2: s = word(); v = P.var('s'); P.pre.append(f'let {v} = {rs(s)}.to_string();'); return w(R.choice([f'{v}.clone()', f'&{v}', f'{v}.as_str()', f'{v}.to_string()', v])), s
    if k == 3: a, x = ints(P); s = word(); return w(f'format!("{{}}-{{}}<", {a}, {rs(s)})'), f'{x}-{s}<'
    if k == 4: a, x = ints(P); v = P.var('i'); P.pre.append(f'let {v} = {a};'); return w(f'format!("{{{v}}}{{{{}}}}")'), f'{x}{{}}'
    if k in (5, 6):
        c = R.random() < .5
        mark = len(P.log); a, x = expr(P, d + 1) if d < 2 else (rs('p'), 'p'); la = P.log[mark:]; del P.log[mark:]
        b, y = expr(P, d + 1) if d < 2 else (rs('r'), 'r'); lb = P.log[mark:]; del P.log[mark:]
        cv = P.var('c'); P.pre.append(f'let {cv} = {str(c).lower()};')
        # a traced condition first, then only the branch taken
        head = cv
        if P.traced and R.random() < .5:
            i = P.id(); P.log.append(i); head = f't("{i}", {cv})'
        P.log += la if c else lb
        if k == 5: body = f'if {head} {{ ({a}).to_string() }} else {{ ({b}).to_string() }}'
        else: body = f'match {head} {{ true => ({a}).to_string(), _ => ({b}).to_string() }}'
        return body, x if c else y
    if k == 7: a, x = ints(P); return w(a), str(x)
    if k == 8: v = P.var('n'); n = R.choice([1, 3]); P.pre.append(f'let {v} = {n};'); return w(R.choice([f'{v} > 2 && {v} < 9', f'!({v} <= 2)', f'matches!({v}, 3 | 4)'])), str(n > 2).lower()
    if k == 9: x = R.choice([0.5, 1.5, -2.25]); return w(f'{x} * 2.0 + 0.25' if x > 0 else f'({x})'), repr(x * 2 + .25) if x > 0 else repr(x)
    if k == 10: c = R.choice('aZ<ż&'); return w(f"'{c}'"), c
    if k == 11: s = word(); return w(f'{rs(s)}.to_string() + {rs("<")}'), s + '<'
    if k == 12: n = R.randrange(9); return w(f'Show({n})'), f'<{n}>'
    if k == 13: n = R.randrange(9); o = R.random() < .5; return w((f'Some({n})' if o else 'None::<i32>') + '.map(|x| x + 1).unwrap_or(0)'), str(n + 1 if o else 0)
    if k == 14: return w('consts::NAME'), 'const<'
    if k == 15 and R.random() < .5: n = R.randrange(9); v = P.var('cell'); P.pre.append(f'let {v} = std::cell::Cell::new(100);'); return w(R.choice([f'{{ {v}.set({n}); {v}.get() }}', f'{{ {v}.set({n - 1}); {v}.set({v}.get() + 1); {v}.get() }}', f'{{ assert!({v}.replace({n}) == 100); {v}.get() }}'])), str(n)
    if k == 15: s = word(); return w(f'{{ let a = {rs(s)}; let b = a.len(); format!("{{a}}{{b}}") }}'), s + str(len(s.encode()))
    if k == 16: n = R.randrange(1, 4); return w(f'(0..{n}).map(|x| x.to_string()).collect::<Vec<_>>().join("|")'), '|'.join(map(str, range(n)))
    if k == 17: s = word(); return w(f'concat!({rs(s)}, 1, true)'), s + '1true'
    if k == 18: a, x = ints(P); v = P.var('st'); P.pre.append(f'let {v} = Pair {{ a: {a} as i32, b: {rs("pb")}.to_string() }};'); b, y = R.choice([(f'{v}.a', str(x)), (f'{v}.b.clone()', 'pb'), (f'&{v}.b', 'pb')]); return w(b), y
    s = word(); return w(f'String::from({rs(s)})'), s
def value(P, kind):
    """a reactive variable of the program; returns its name"""
    for n, k in P.vals:
        if k == kind and R.random() < .6: return n
    n = P.var('v')
    if kind == 'str': s = word(); P.pre.append(f'let {n} = Value::new({rs(s)}.to_string());'); P.state[n] = s
    if kind == 'int': s = R.randrange(20); P.pre.append(f'let {n} = Value::new({s}i32);'); P.state[n] = s
    if kind == 'opt': s = R.choice([None, word()]); P.pre.append(f'let {n}: Value<Option<String>> = Value::new({"None" if s is None else f"Some({rs(s)}.to_string())"});'); P.state[n] = s
    P.vals.append((n, kind))
    return n
def reactive(P):
    """a reactive expression shown as text: (rust, fn of state)"""
    w = trace(P, None, P.traced and R.random() < .4)
    k = R.randrange(7)
    if k == 0: n = value(P, 'str'); return w(f'&{n}'), lambda st: st[n]
    if k == 1: n = value(P, 'int'); return w(f'{n}.clone()'), lambda st: str(st[n])
    if k == 2: n = value(P, 'str'); return w(f'{n}.to_computed()'), lambda st: st[n]
    if k == 3: n = value(P, 'int'); return w(f'{n}.map(|x| x * 2)'), lambda st: str(st[n] * 2)
    if k == 4: n, m = value(P, 'int'), value(P, 'str'); return w(f'Computed::from({{ let a = {n}.clone(); let b = {m}.clone(); move |c| format!("{{}}/{{}}", a.get(c), b.get(c)) }})'), lambda st: f'{st[n]}/{st[m]}'
    if k == 5: n = value(P, 'str'); c = P.var('c'); P.pre.append(f'let {c} = {n}.map(|x| x + "!");'); return w(f'&{c}'), lambda st: st[n] + '!'
    n = value(P, 'int'); return w(f'{{ let z = {n}.clone(); z.map(move |x| x + 1) }}'), lambda st: str(st[n] + 1)
def node_expr(P, d):
    """an expression with a view: (rust, fn of state)"""
    r, f = element(P, d + 1)
    k = R.randrange(6)
    if k < 3: return f'dom! {{ {r} }}', f
    if k == 3: return f'{{ let n = dom! {{ {r} }}; n }}', f
    if k == 4 and not P.root_component: return f'dom_element! {{ {r} }}', f
    # several roots
    r2, f2 = element(P, d + 1)
    return f'dom! {{ {r} {r2} }}', lambda st: f(st) + f2(st)
def spread(P, d):
    k = R.randrange(12)
    w = trace(P, None, P.traced and R.random() < .4)
    if k == 0: xs = [word() for _ in range(R.randrange(4))]; return w('vec![' + ', '.join(rs(x) for x in xs) + ']' if xs else 'Vec::<String>::new()'), lambda st: ''.join(q(x) for x in xs)
    if k == 1: v = P.var('xs'); n = R.randrange(4); P.pre.append(f'let {v}: Vec<i32> = (0..{n}).collect();'); return w(R.choice([f'{v}.clone()', f'{v}.iter()', f'{v}.iter().map(|x| x + 0)'])), lambda st: ''.join(q(str(i)) for i in range(n))
    if k in (2, 3):
        n = R.randrange(12, 40) if R.random() < .1 else R.randrange(4); i = P.id(); tr = P.traced and R.random() < .5
        if tr: P.log += [f'{i}.{j}' for j in range(n)]
        x = f't(format!("{i}.{{i}}"), i)' if tr else 'i'
        tag = R.choice(TAGS)
        return f'(0..{n}).map(|i| dom! {{ <{tag} data-i={{{x}}}>"n" {{i * 2}}</{tag}> }})', lambda st: ''.join(f'<{tag} data-i="{j}">"n"{q(str(j * 2))}</>' for j in range(n))
    if k == 4: s = R.choice([None, word()]); return w(f'None::<&str>' if s is None else f'Some({rs(s)})'), lambda st: '' if s is None else q(s)
    if k == 5: return w("\"aż<\".chars()"), lambda st: q('a') + q('ż') + q('<')
    if k == 6: n = value(P, 'str'); m = value(P, 'str'); return w(f'[{n}.clone(), {m}.clone()]'), lambda st: q(st[n]) + q(st[m])
    if k == 7 and d < 3:
        l = [node_expr(P, d + 1) for _ in range(R.randrange(3))]
        if not l: return 'Vec::<DomNode>::new()', lambda st: ''
        return 'vec![' + ', '.join(f'DomNode::from({r})' for r, _ in l) + ']', lambda st: ''.join(f(st) for _, f in l)
    if k == 8: return w('std::iter::once("one").chain(std::iter::once("two"))'), lambda st: q('one') + q('two')
    if k == 9: return w('vec![3, 1, 2].into_iter().filter(|x| *x > 1).map(|x| x * 10)'), lambda st: q('30') + q('20')
    if k == 10: a, x = expr(P, 1); return f'{{ let a = {a}; vec![a.to_string(), "z".to_string()] }}', lambda st: q(x) + q('z')
    n = R.randrange(1, 3); c = R.random() < .5; return f'if {str(c).lower()} {{ vec![{n}] }} else {{ vec![] }}', lambda st: q(str(n)) if c else ''
def handler(P, kind, tag):
    """(rust of a closure, log when fired, writes when fired)"""
    i = P.id()
    tail = {'b': 'true', 'k': 'false'}.get(kind, '')
    arg = {'': '||', 'b': '||', 's': '|_s: String|', 'k': '|_e: KeyDownEvent|', 'd': '|_e: DropFileEvent|'}[kind]
    k = R.randrange(5)
    ty = {'': '()', 'b': 'bool'}
    if k == 0 or kind in 'kd' and k < 3: return f'{arg} {{ hit("{i}"); {tail} }}', [i], {}
    if k == 1 and kind in ('', 'b'):
        n = value(P, 'str'); s = word()
        return f'bind!({n}, || {{ hit("{i}"); {n}.set({rs(s)}.to_string()); {tail} }})', [i], {n: s}
    if k == 2:
        v = P.var('h'); P.pre.append(f'let {v} = "{i}".to_string();')
        return f'bind!({v}, {arg} {{ hit(&{v}); {tail} }})', [i], {}
    if k == 3 and kind in ('', 'b'):
        v = P.var('h'); P.pre.append(f'let {v} = 7;')
        return f'bind_rc!({v}, || {{ hit(format!("{i}:{{}}", {v})); {tail} }})', [f'{i}:7'], {}
    v = P.var('hv'); P.pre.append(f'let {v} = {arg} {{ hit("{i}"); {tail} }};')
    return v, [i], {}
def element(P, d=0, root=False):
    """(source text, fn of state giving the expected tree)"""
    P.nodes += 1
    if P.comps and R.random() < (.25 if d else .12): return component(P, d)
    tag = R.choice(TAGS)
    attrs, parts, events, css = {}, [], [], []
    names = R.sample(ATTRS, R.choice([0, 0, 1, 1, 2, 3, 4]))
    for a in names:
        k = R.randrange(10)
        if k < 2: s = word(); parts.append(f'{a}={raw(s)}'); attrs[a] = (lambda s: lambda st: s)(s)
        elif k < 6: r, x = expr(P); parts.append(f'{a}={braced(r)}'); attrs[a] = (lambda s: lambda st: s)(x)
        elif k == 6: n = value(P, 'str'); parts.append(f'{a}={{{R.choice(["&" + n, n + ".clone()", n + ".to_computed()"])}}}'); attrs[a] = (lambda n: lambda st: st[n])(n)
        elif k == 7: n = value(P, 'opt'); parts.append(f'{a}={{{R.choice(["&" + n, n + ".clone()", n + ".to_computed()"])}}}'); attrs[a] = (lambda n: lambda st: st[n])(n)
        elif k == 8: n = R.choice([1, 22]); parts.append(f'{a}={R.choice([str(n), f"{n}u8", f"twice({n})"])}'); attrs[a] = (lambda s: lambda st: s)(str(2 * n) if 'twice' in parts[-1] else str(n))
        else: n = value(P, 'int'); parts.append(f'{a}={{{n}.map(|x| x.to_string())}}'); attrs[a] = (lambda n: lambda st: str(st[n]))(n)
    if R.random() < .2:
        a = R.choice(SHORT)
        if a not in attrs:
            v = f'{a}'; s = word()
            # a variable of the attribute's name, in a scope of its own
            P.scoped.append(f'let {a} = {rs(s)};') if a not in P.scope else None
            if a not in P.scope: P.scope[a] = s
            parts.append(f'{{{a}}}'); s = P.scope[a]; attrs[a] = (lambda s: lambda st: s)(s)
    if R.random() < .25:
        c = R.choice(CSS); k = R.randrange(4)
        if k == 0: parts.append(f'css={{css!({rs(c + ";")})}}')
        elif k == 1: v = P.var('css'); P.pre.append(f'let {v} = css!({rs(c + ";")});'); parts.append(f'css={{{v}.clone()}}')
        elif k == 2:
            if 'css' not in P.scope: P.scope['css'] = c; P.scoped.append(f'let css = css!({rs(c + ";")});')
            c = P.scope['css']; parts.append('css={&css}' if False else 'css={css.clone()}')
        else: parts.append(f'css={{t("{P.id()}", css!({rs(c + ";")}))}}' if P.traced else f'css={{css!({rs(c + ";")})}}'); P.traced and P.log.append(f'{P.name}.{P.n}')
        css.append('{' + c + '}')
    if R.random() < .06: parts.append('vertigo-suspense={susp}'); css.append('{left: 4px}')
    if R.random() < .35:
        key = P.var('k'); parts.append(f'data-k={rs(key)}'); attrs['data-k'] = lambda st: key
        for e in R.sample(list(EV), R.choice([1, 1, 2, 3])):
            ev, kind = EV[e]
            r, lg, wr = handler(P, kind, tag)
            if R.random() < .15 and not P.in_loop:
                if e not in P.scope:
                    P.scope[e] = None; P.scoped.append(f'let {e} = {r};'); parts.append(f'{{{e}}}')
                else: parts.append(f'{e}={{{r}}}')
            else: parts.append(f'{e}={{{r}}}' if '{' in r or R.random() < .5 else f'{e}={{{r}}}')
            events.append(ev)
            if kind in ('', 'b'): P.handlers.append((key, ev, lg, wr))
    # the order of the attributes is the order of their evaluation: shuffling whole parts needs the log in step,
    # so parts stay in the order they were made
    kids, tree = [], []
    if R.random() < .12 or d > 4:
        if R.random() < .5 or d > 4:
            src = f'<{tag} {" ".join(parts)}{R.choice(["", " "])}/>'
        else: src = f'<{tag} {" ".join(parts)}></{tag}>'
    else:
        for _ in range(R.choice([0, 1, 1, 2, 2, 3, 4])):
            k = R.randrange(12)
            if k < 2: s = word(); kids.append(raw(s)); tree.append((lambda s: lambda st: q(s))(s))
            elif k < 5: r, x = expr(P); kids.append(braced(r, R.choice(['{%s}', '{ %s }', '{{%s}}' if not r.startswith('{') else '{%s}']))); tree.append((lambda x: lambda st: q(x))(x))
            elif k < 7: r, f = reactive(P); kids.append(f'{{{r}}}'); tree.append((lambda f: lambda st: q(f(st)))(f))
            elif k == 7: r, f = spread(P, d + 1); kids.append(f'{{..{r}}}'); tree.append(f)
            elif k == 8 and d < 3: r, f = node_expr(P, d); kids.append(braced(r)); tree.append(f)
            elif k == 9: s = word(); kids.append(f'{{DomText::new({rs(s)})}}'); tree.append((lambda s: lambda st: q(s))(s))
            else: r, f = element(P, d + 1); kids.append(r); tree.append(f)
        src = f'<{tag} {" ".join(parts)}>{R.choice(["", " ", chr(10)])}{" ".join(kids)}</{tag}>'
    def show(st):
        o = '<' + tag
        l = [(k, f(st)) for k, f in attrs.items()]
        l = [(k, q(v)) for k, v in l if v is not None] + ([('class', ' '.join(sorted(css)))] if css else [])
        for k, v in sorted(l, key=lambda x: x[0].encode()): o += f' {k}={v}'
        for e in sorted(events): o += ' @' + e
        return o + '>' + ''.join(f(st) for f in tree) + '</>'
    return src, show
# ---------------------------------------------------------------- components
class Comp: pass
def make_component(i, comps):
    c = Comp(); c.name = R.choice(['Card', 'Row', 'My', 'X', 'Item']) + str(i); c.mod = R.choice([None, None, 'lib1', 'lib1::inner'])
    c.params = []
    for j in range(R.randrange(5)):
        c.params.append((R.choice(['name', 'size', 'item', 'value', 'title', 'kind', 'body', 'list', 'other']) + (str(j) if R.random() < .5 else f'_{j}'), R.choice(['str', 'str', 'int', 'val', 'node', 'nodes', 'bool', 'opt', 'gen', 'ref', 'fun'])))
    c.tag = R.choice(TAGS); c.trace = R.random() < .5; c.attr = R.random() < .5
    c.nested = R.choice(comps) if comps and R.random() < .3 else None
    if c.nested and any(t in ('ref', 'gen', 'fun') for _, t in c.nested.params): c.nested = None
    gen = [p for p, t in c.params if t == 'gen']; ref = any(t == 'ref' for _, t in c.params)
    bound = R.random() < .5
    g = (["'a"] if ref else []) + [f'T{p.upper()}' + (': std::fmt::Display' if bound else '') for p in gen]
    where = '' if bound or not gen else ' where ' + ', '.join(f'T{p.upper()}: std::fmt::Display' for p in gen)
    ty = {'str': 'String', 'int': 'i32', 'val': 'Value<String>', 'node': 'DomNode', 'nodes': 'Vec<DomNode>', 'bool': 'bool', 'opt': 'Option<String>', 'ref': "&'a str", 'fun': 'std::rc::Rc<dyn Fn() -> i32>'}
    sig = ', '.join(f'{p}: {ty.get(t) or "T" + p.upper()}' for p, t in c.params)
    parts, show, use = [], [], []
    pre = []
    for p, t in c.params:
        if t == 'str': parts.append(f'{{&{p}}}')
        elif t in ('int', 'bool', 'gen', 'ref'): parts.append(f'{{{p}}}')
        elif t == 'val': parts.append(f'{{&{p}}}')
        elif t == 'node': parts.append(f'{{{p}}}')
        elif t == 'nodes': parts.append(f'{{..{p}}}')
        elif t == 'opt': parts.append(f'{{{p}.unwrap_or("none".to_string())}}')
        elif t == 'fun': parts.append(f'{{{p}()}}')
    nest = ''
    if c.nested:
        # the nested one gets fixed arguments
        args = []
        for p, t in c.nested.params:
            args.append({'str': f'{p}="in"', 'int': f'{p}=3', 'val': f'{p}={{Value::new("nv".to_string())}}', 'node': f'{p}={{dom! {{ <u/> }}}}', 'nodes': f'{p}={{}}', 'bool': f'{p}={{true}}', 'opt': f'{p}={{}}'}[t])
        nest = f'<{path(c.nested)} {" ".join(args)}/>'
    at = ''
    strs = [p for p, t in c.params if t == 'str']
    if c.attr and strs: at = f' data-p={{&{strs[0]}}}'
    c.attr_of = strs[0] if at else None
    tr = f'hit("in {c.name}");' if c.trace else ''
    vis = 'pub '
    c.src = f'    #[component]\n    {vis}fn {c.name}{"<" + ", ".join(g) + ">" if g else ""}({sig}{"," if sig and R.random() < .3 else ""}){where} {{\n        {tr}\n        dom! {{ <{c.tag}{at}>"{c.name}(" {" ".join(parts)} {nest}</{c.tag}> }}\n    }}\n'
    def show_c(st, args):
        o = f'<{c.tag}' + (f' data-p={q(args[c.attr_of](st))}' if c.attr_of else '') + '>' + q(c.name + '(')
        for p, t in c.params:
            x = args[p](st)
            o += x if t in ('node', 'nodes') else q(x)
        if c.nested:
            f = {'str': 'in', 'int': '3', 'val': 'nv', 'node': '<u></>', 'nodes': '', 'bool': 'true', 'opt': 'none'}
            o += c.nested.show(st, {p: (lambda t: lambda st: f[t])(t) for p, t in c.nested.params})
        return o + '</>'
    c.show = show_c
    def logs():
        l = [f'in {c.name}'] if c.trace else []
        return l + (c.nested.logs() if c.nested else [])
    c.logs = logs
    return c
def path(c): return (f'{c.mod}::' if c.mod else '') + c.name
def component(P, d):
    c = R.choice(P.comps)
    order = list(c.params); R.shuffle(order)
    parts, args = [], {}
    K = lambda s: lambda st: s
    for p, t in order:
        w = trace(P, None, P.traced and R.random() < .5)
        if t == 'str':
            k = R.randrange(7); s = word()
            if k == 0: parts.append(f'{p}={rs(s)}' if not w.on else f'{p}={{{w(rs(s))}}}')
            elif k == 1: parts.append(f'{p}={{{w(rs(s))}}}')
            elif k == 2: parts.append(f'{p}={{{w(rs(s) + ".to_string()")}}}')
            elif k == 3:
                parts.append(f'{p}={R.choice(["{}", "{Default::default()}", "{ }"])}'); s = ''
            elif k == 4:
                v = P.var('s'); P.pre.append(f'let {v} = {rs(s)}.to_string();')
                parts.append(f'{p}={{&{w(v)}}}')
            elif k == 5 and not P.in_loop:
                if p not in P.scope: P.scope[p] = ('str', s); P.scoped.append(f'let {p} = {rs(s)}.to_string();')
                if P.scope[p][0] == 'str': s = P.scope[p][1]; parts.append(f'{{&{p}}}')
                else: parts.append(f'{p}={{{rs(s)}}}')
            else:
                a = rs(s); parts.append(f'{p}={{format!("{{}}", {w(a)})}}')
            args[p] = K(s)
        elif t == 'int':
            k = R.randrange(5); a, x = ints(P)
            if k == 0: parts.append(f'{p}={{{w("5u8")}}}'); x = 5
            elif k == 1:
                parts.append(f'{p}={R.choice(["{}", "{Default::default()}"])}'); x = 0
            elif k == 2:
                v = P.var('n'); P.pre.append(f'let {v}: i32 = {x};')
                parts.append(f'{p}={{&{w(v)}}}')
            elif k == 3 and not P.in_loop:
                if p not in P.scope: P.scope[p] = ('int', x); P.scoped.append(f'let {p}: i32 = {x};')
                if P.scope[p][0] == 'int': x = P.scope[p][1]; parts.append(R.choice([f'{{{p}}}', f'{{&{p}}}', f'{p}={{{p}}}']))
                else: parts.append(f'{p}={{{x}}}')
            else: parts.append(f'{p}={{{w(f"({a}) as i32")}}}')
            args[p] = K(str(x))
        elif t == 'val':
            n = value(P, 'str')
            if w.on and R.random() < .5: parts.append(f'{p}={{{w(n + ".clone()")}}}')
            else:
                parts.append(f'{p}={{{R.choice(["&" + n, n + ".clone()"])}}}')
            args[p] = (lambda n: lambda st: st[n])(n)
        elif t == 'node':
            pass
            r, f = node_expr(P, d + 2) if d < 3 else ('dom! { <u>"deep"</u> }', K('<u>"deep"</>'))
            parts.append(f'{p}={braced(r)}'); args[p] = f
        elif t == 'nodes':
            if R.random() < .3: parts.append(f'{p}={{}}'); args[p] = K('')
            else:
                n = R.randrange(3); parts.append(f'{p}={{(0..{n}).map(|x| dom! {{ <i>{{x}}</i> }}).collect::<Vec<_>>()}}'); args[p] = K(''.join(f'<i>{q(str(j))}</>' for j in range(n)))
        elif t == 'bool':
            b = R.random() < .5; parts.append(f'{p}={{{w(str(b).lower())}}}'); args[p] = K(str(b).lower())
        elif t == 'opt':
            k = R.randrange(3)
            if k == 0:
                parts.append(f'{p}={{}}'); args[p] = K('none')
            elif k == 1: parts.append(f'{p}={{{w("None")}}}'); args[p] = K('none')
            else: s = word(); parts.append(f'{p}={{{w(f"Some({rs(s)}.to_string())")}}}'); args[p] = K(s)
        elif t == 'gen':
            s = word(); v = P.var('g'); n = R.randrange(9)
            if R.random() < .5: P.pre.append(f'let {v} = {rs(s)};'); args[p] = K(s)
            else: P.pre.append(f'let {v} = {n};'); args[p] = K(str(n))
            parts.append(f'{p}={{&{v}}}')
        elif t == 'ref':
            s = word(); parts.append(f'{p}={{{w(rs(s))}}}'); args[p] = K(s)
        elif t == 'fun':
            n = R.randrange(9); v = P.var('f'); P.pre.append(f'let {v} = {n};')
            parts.append(f'{p}={{bind_rc!({v}, || -> i32 {{ {v} + 1 }})}}' if R.random() < .5 else f'{p}={{{{ let f: std::rc::Rc<dyn Fn() -> i32> = std::rc::Rc::new(move || {v} + 1); f }}}}'); args[p] = K(str(n + 1))
    P.log += c.logs()
    return f'<{path(c)} {" ".join(parts)}/>', lambda st: c.show(st, args)
# ---------------------------------------------------------------- programs
def view(i, comps):
    P = Prog(f'v{i}', comps); P.traced = R.random() < .6; P.scope, P.scoped, P.in_loop = {}, [], False
    P.root_component = False
    big = R.random() < .3
    roots = [element(P, 0, True)]
    while R.random() < (.35 if not big else .5) and len(roots) < 4: roots.append(element(P, 0, True))
    while R.random() < .03 or 4 < len(roots) < 8: roots += [element(P, 2, True) for _ in range(5 - len(roots) if len(roots) < 5 else 1)]
    src = ' '.join(r for r, _ in roots)
    is_el = len(roots) == 1 and not src.split()[0].split('::')[-1].lstrip('<')[0].isupper()
    mac = 'dom_element!' if is_el and R.random() < .15 else 'dom!'
    show = lambda st: ''.join(f(st) for _, f in roots)
    o = [f'fn {P.name}(r: &mut Run) {{'] + ['    ' + x for x in P.pre] + ['    ' + x for x in P.scoped]
    o.append(f'    r.mount({mac} {{ {src} }});')
    o.append(f'    r.log("building", &[{", ".join(rs(x) for x in P.log)}]);')
    o.append(f'    r.tree("at first", {rs(show(P.state))});')
    st = dict(P.state)
    for k in range(R.randrange(1, 5)):
        if P.handlers and R.random() < .5:
            key, ev, lg, wr = R.choice(P.handlers)
            st.update(wr)
            o.append(f'    r.fire("{key}", "{ev}"); r.log("{ev} of {key}", &[{", ".join(rs(x) for x in lg)}]);')
        elif P.vals:
            n, kind = R.choice(P.vals)
            if kind == 'str': st[n] = word(); o.append(f'    {n}.set({rs(st[n])}.to_string());')
            if kind == 'int': st[n] = R.randrange(50); o.append(f'    {n}.set({st[n]});')
            if kind == 'opt': st[n] = R.choice([None, word()]); o.append(f'    {n}.set({"None" if st[n] is None else f"Some({rs(st[n])}.to_string())"});')
        else: break
        o.append(f'    r.tree("after step {k}", {rs(show(st))});')
    o.append('}')
    return P.name, '\n'.join(o), P.nodes
def entities(i):
    n = f'e{i}'
    return n, f'fn {n}(r: &mut Run) {{ for (name, got, want) in [{", ".join(f'({rs(e)}, html_entities::{e}, 0x{name2codepoint[e]:x}u32)' for e in ENTITIES)}] {{ r.eq(name, got, char::from_u32(want).unwrap()); }} }}', 2
def binds(i):
    """programs of the capturing macros"""
    n = f'b{i}'; o = [f'fn {n}(r: &mut Run) {{']
    names = ['a', 'b', 'c']; val = {x: R.randrange(1, 9) for x in ['a', 'b', 'c', 'x', 'y', 'z']}
    for x in names: o.append(f'    let mut {x} = P::new("{x}", {val[x]});')
    o.append(f'    let mut st = Deep {{ x: P::new("x", {val["x"]}), inner: Inner {{ y: P::new("y", {val["y"]}), z: P::new("z", {val["z"]}) }} }};')
    place = {'a': 'a', 'b': 'b', 'c': 'c', 'x': 'st.x', 'y': 'st.inner.y', 'z': 'st.inner.z'}
    for k in range(R.randrange(2, 6)):
        caps = R.sample(list(place), R.choice([0, 1, 1, 2, 3, 4]))
        lst = ', '.join(place[c] for c in caps)
        comma = lst + ', ' if caps else ''
        total = ' + '.join([f'{c}.v * {10 ** j}' for j, c in enumerate(caps)] + ['0'])
        cur = dict(val)
        want = sum(cur[c] * 10 ** j for j, c in enumerate(caps))
        clones = [f'clone {c}' for c in caps]
        L = lambda xs: '&[' + ', '.join(rs(x) for x in xs) + ']'
        at = f'"bind {k}"'
        kind = R.randrange(9); f = f'f{k}'
        if kind == 0 and caps:
            # a body that is not a function is evaluated at once
            o.append(f'    let {f} = bind!({comma}{{ hit("now"); {total} }});'); o.append(f'    r.log({at}, {L(clones + ["now"])}); r.eq({at}, {f}, {want});')
            continue
        if kind == 1:
            o.append(f'    let {f} = bind!({comma}|k: i32| -> i32 {{ hit("run"); k + {total} }});'); call = [f'{f}({j})' for j in (0, 5)]; exp = [want, want + 5]
        elif kind == 2:
            o.append(f'    let {f} = bind!({comma}|k: i32, m: i32| k * m + {total});'); call = [f'{f}(2, 3)', f'{f}(1, 1)']; exp = [want + 6, want + 1]
        elif kind == 3:
            o.append(f'    let {f} = bind_rc!({comma}|k: i32| -> i32 {{ hit("run"); k + {total} }}); let {f}b: std::rc::Rc<dyn Fn(i32) -> i32> = {f}.clone();'); call = [f'{f}(1)', f'{f}b(2)']; exp = [want + 1, want + 2]
        elif kind == 4:
            o.append(f'    let mut {f} = bind!({comma}|| {{ hit("run"); {(caps[0] + ".v += 1; ") if False else ""}{total} }});'); call = [f'{f}()', f'{f}()', f'{f}()']; exp = [want] * 3
        elif kind == 5 and caps:
            # a closure within a closure: the inner one copies at every run
            o.append(f'    let {f} = bind!({comma}|| {{ let g = bind!({", ".join(caps)}, |k: i32| {{ hit("run"); k + {total} }}); g(1) + g(2) }});')
            o.append(f'    r.log({at}, {L(clones)});')
            for _ in range(2): o.append(f'    r.eq({at}, {f}(), {2 * want + 3}); r.log({at}, {L(clones + ["run", "run"])});')
            call = None
        elif kind == 6:
            # a task: copied when made and at every start
            o.append(f'    let got = std::rc::Rc::new(std::cell::Cell::new(0)); let {f} = bind_spawn!({comma}got, async move {{ hit("run"); got.set(got.get() + 1 + {total}); }});')
            o.append(f'    r.log({at}, {L(clones)});')
            for j in (1, 2): o.append(f'    let from = r.tick(); {f}(); r.log({at}, {L(clones)}); r.eq({at}, got.get(), {(j - 1) * (want + 1)}); r.run_since(from); r.log({at}, &["run"]); r.eq({at}, got.get(), {j * (want + 1)});')
            call = None
        elif kind == 7:
            o.append(f'    let {f} = bind!({comma}|| -> String {{ format!("{{}}", {total}) }}); r.log({at}, {L(clones)}); r.eq({at}, {f}(), "{want}".to_string()); r.log({at}, &[]);'); call = None
        else:
            o.append(f'    let {f} = bind!({comma}|p: P, k: &str| -> i32 {{ hit(k); p.v + {total} }});'); call = [f'{f}(P::new("p", 2), "k1")', f'{f}(P::new("p", 3), "k2")']; exp = [want + 2, want + 3]
        if call is not None:
            o.append(f'    r.log({at}, {L(clones)});')
            # the originals stay usable and are not what the function holds
            for c in caps:
                if R.random() < .5: val[c] = R.randrange(1, 9); o.append(f'    {place[c]}.v = {val[c]};')
            for j, (x, e) in enumerate(zip(call, exp)):
                lg = {1: ['run'], 3: ['run'], 4: ['run'], 2: []}.get(kind)
                if lg is None: lg = ['k1', 'k2'][j:j + 1]
                o.append(f'    r.eq({at}, {x}, {e}); r.log({at}, {L(lg)});')
    for c in names: o.append(f'    r.eq("original {c}", {c}.v, {val[c]});')
    o.append(f'    r.eq("original x", st.x.v, {val["x"]}); r.eq("original y", st.inner.y.v, {val["y"]}); r.eq("original z", st.inner.z.v, {val["z"]});')
    o.append('}')
    return n, '\n'.join(o), 0
PRELUDE = '''use support::*;
use vertigo::*;
pub struct Pair { pub a: i32, pub b: String }
pub struct Inner { pub y: P, pub z: P }
pub struct Deep { pub x: P, pub inner: Inner }
pub fn twice(x: i32) -> i32 { x * 2 }
pub mod consts { pub const NAME: &str = "const<"; }
pub fn susp(loading: bool) -> Css { if loading { css!("left: 3px;") } else { css!("left: 4px;") } }
'''
def write(k, seed, count, outdir):
    R.seed(f'{seed}/{k}')
    comps = []
    for i in range(14): comps.append(make_component(i, list(comps)))
    o = [PRELUDE]
    top = ''.join(c.src for c in comps if c.mod is None)
    l1 = ''.join(c.src for c in comps if c.mod == 'lib1'); l2 = ''.join(c.src for c in comps if c.mod == 'lib1::inner')
    use = 'use crate::support::*; use vertigo::*; use crate::*;\n'
    o.append(top + f'pub mod lib1 {{\n    {use}{l1}\n    pub mod inner {{\n    {use}{l2}\n    }}\n}}\n')
    progs = []
    if k == 0: progs.append(entities(0))
    for i in range(count): progs.append(view(i, comps) if R.random() < .8 else binds(i))
    o += [p[1] for p in progs]
    o.append('pub const PROGRAMS: &[Program] = &[' + ', '.join(f'("{p[0]}", {p[0]})' for p in progs) + '];\n')
    # unchanged files keep their time, so that nothing is compiled again
    f = os.path.join(outdir, f'g{k}.rs'); s = '\n'.join(o)
    if not os.path.exists(f) or open(f).read() != s: open(f, 'w').write(s)
    return [dict(bin=f'g{k}', name=p[0], src=p[1], nodes=p[2]) for p in progs]
if __name__ == '__main__':
    seed, count, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    os.makedirs(out, exist_ok=True)
    meta = [p for k in range(6) for p in write(k, seed, count, out)]
    json.dump(meta, open(os.path.join(out, 'programs.json'), 'w'))
