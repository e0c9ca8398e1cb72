#!/usr/bin/env python3
"""Numbers and byte strings named in lines of /repo that are not among the lines known when the harness was written
(harness/known_lines.txt: digests of the lines, without comments and white space).  They steer the choice of inputs of
the search and nothing else: no verdict depends on them.   dictionary.py --write renews the list of known lines."""
import glob, hashlib, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
KNOWN = V + '/harness/known_lines.txt'
INT = r'(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:[ui](?:8|16|32|64|128|size))?'


def lines():
    for f in sorted(glob.glob(REPO + '/**/*.rs', recursive=True)):
        if '/target/' in f:
            continue
        text = open(f, errors='replace').read()
        for l in text.split('\n'):
            l = re.sub(r'(^|\s)//.*', '', l).strip()
            if l:
                yield l


def digest(l):
    return hashlib.sha1(re.sub(r'\s', '', l).encode()).hexdigest()[:10]


def num(t):
    try:
        return int(t.replace('_', ''), 0)
    except ValueError:
        return int(t.replace('_', '').lstrip('0') or '0')


def dictionary():
    known = set(open(KNOWN).read().split())
    novel = '\n'.join(l for l in lines() if digest(l) not in known)
    ints, strs = [], []
    ops = {'<<': lambda a, b: a << b if b < 200 else 0, '*': lambda a, b: a * b, '+': lambda a, b: a + b, '-': lambda a, b: a - b}
    for a, o, b in re.findall(r'(?<![\w.])' + INT + r'\s*(<<|\*|\+|-)\s*' + INT, novel):
        ints.append(ops[o](num(a), num(b)))
    for a, b in re.findall(INT + r'\.pow\(\s*' + INT, novel):
        ints.append(num(a) ** num(b) if num(b) < 200 else 0)
    ints += [num(t) for t in re.findall(r'(?<![\w.])' + INT, novel)]
    for s in re.findall(r'"((?:[^"\\\n]|\\.)*)"', novel):
        strs.append(re.sub(rb'\\x([0-9a-fA-F]{2})', lambda m: bytes([int(m.group(1), 16)]), s.encode())[:64])
        if re.fullmatch(r'[0-9]+', s):
            ints.append(int(s))
    ints += [ord(c) for c in re.findall(r"b'([^'\\])'", novel)]
    for l in re.findall(r'\[([^\[\]]*)\]', novel):
        v = [num(t) for t in re.findall(r'(?<![\w.])' + INT, l)]
        if len(v) > 1 and all(x < 256 for x in v):
            strs.append(bytes(v)[:64])
    out = []
    for x in ints:
        if x >= 1 << 64:
            strs.append(x.to_bytes((x.bit_length() + 7) // 8, 'little')[:600])
        elif x > 2 and x not in out:
            out.append(x)
    strs = [s for s in dict.fromkeys(strs) if s]
    return out[:24], strs[:12]


if __name__ == '__main__':
    if '--write' in sys.argv:
        open(KNOWN, 'w').write('\n'.join(sorted({digest(l) for l in lines()})) + '\n')
    print(dictionary())
