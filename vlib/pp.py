import sys, json
sys.path.insert(0, __import__('os').path.dirname(__import__('os').path.abspath(__file__)))
import extract
def pl(p):
    s = f"_{p['l']}"
    for e in p['p']:
        if e == '*': s = f"(*{s})"
        elif e[0] == 'f': s += f".{e[2] if e[2] is not None else e[1]}"
        elif e[0] == 'i': s += f"[_{e[1]}]"
        elif e[0] == 'd': s = f"({s} as {e[2]})"
        else: s += str(e)
    return s
def op(o):
    if o[0] == 'k':
        k = o[1]
        if 'fnref' in k: return 'fn:' + k['fnref']['fn']
        if 'int' in k: return k['int'] + ':' + k['ty']
        if 'str' in k: return json.dumps(k['str'])
        return str({a: b for a, b in k.items()})
    return ('' if o[0] == 'cp' else '^') + pl(o[1])
def rv(r):
    if r[0] == 'use': return op(r[1])
    if r[0] == 'ref': return ('&mut ' if r[1] else '&') + pl(r[2])
    if r[0] == 'bin': return f"{r[1]}({op(r[2])}, {op(r[3])})"
    if r[0] == 'un': return f"{r[1]}({op(r[2])})"
    if r[0] == 'cast': return f"{op(r[2])} as {r[3]} [{r[1]}]"
    if r[0] == 'discr': return f"discr({pl(r[1])})"
    if r[0] == 'agg': return f"{r[1][:4]}({', '.join(map(op, r[2]))})"
    return str(r)
def show(f):
    print(f['path'], 'argc', f['argc'])
    for i, t in enumerate(f['locals']): print('  let', f'_{i}:', t)
    for n, v in f['names']: print('  dbg', n, pl(v) if 'l' in v else v)
    for i, b in enumerate(f['blocks']):
        if b['c']: continue
        print(f' bb{i}:')
        for s in b['s']:
            print('   ', (pl(s[1]) + ' = ' + rv(s[2])) if s[0] == '=' else s)
        t = b['t']
        if t[0] == 'call':
            fr = t[1].get('fnref'); nm = (fr.get('rfn') or fr['fn']) if fr else 'dyn ' + str(t[1])
            print('   ', f"{pl(t[3])} = {nm}({', '.join(map(op, t[2]))}) -> {t[4]}   // {t[5][1]} ga={fr['ga'] if fr else ''}")
        elif t[0] == 'switch': print('    switch', op(t[1]), t[2], t[3], t[4])
        elif t[0] == 'drop': print('    drop', pl(t[1]), '->', t[2])
        elif t[0] == 'assert': print('    assert', op(t[1]), t[2], t[3], [op(x) for x in t[4]], '->', t[5])
        else: print('   ', t)
if __name__ == '__main__':
    m = extract.mir()
    for c in m:
        for f in m[c]['fns']:
            if f['path'] in sys.argv[1:]: show(f)
