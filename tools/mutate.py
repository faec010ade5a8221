#!/usr/bin/env python3
"""Small random changes to the code, to find what the checks do not see.  Not used by any check.
  SEED_REPO=clone SEED_VP=scripts mutate.py OUT.jsonl SEED COUNT [FILE[:FUNC,...]]...
A change that the stable tests notice is dropped; the others go to the checks of the function until one reports it."""
import io
import json
import os
import random
import re
import subprocess
import sys
import tokenize

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seed as S

U, I, X, G, E, C = ['vts/%s.py' % n for n in ('uni_vts', 'isym', 'matrix_of_signs', 'grf_parser', 'examples_parser', 'checker')]
M, H, W, WC = ['highschool_qe/%s.py' % n for n in ('muchnik', 'cohenhorm', 'sympywrapper', 'cachedsympywrapper')]
GS, SM, LS = 'GRF/grf.sage', 'GRF/smt2.py', 'GRF/local_search.py'
MAP = {
    U: {'internal_ts': 'C02', 'is_zero_poly': 'C01 C02', 'drop_zero_polies': 'C01 C02', 'internal_vts': 'C01 C03', 'multiply': 'C08', 'make_product_list': 'C08 C07 C01',
        'signed_pseudo_remainder': 'C05 C04', 'signed_remainder_sequence': 'C05', 'signed_remainder_cauchy_index': 'C05', 'tarski_query': 'C04',
        'pick_sign_of_goal': 'C07 C01', 'sign_func': 'C07 C01 C03', 'get_sign_by_direct_calc': 'C07 C01 C03', 'check_powers': 'C07 C01', 'evaluate_single_on_sign_assignment': 'C07 C01 C03',
        'make_poly_hashabel': 'C01 C07', 'sign_conditions_lookup': 'C01 C07', 'e_close_evaluate_single_on_sign_assignment': 'C07 C01', 'e_close_evaluate_on_sign_assignment': 'C01 C07',
        'evaluate_on_sign_assignment': 'C01 C07', 'DiscDerSigns': 'C06 C07 C01', 'derivative': 'C08 C04', 'get_discri_der_signs': 'C06 C01', 'evaluate_poly': 'C08', 'evaluate': 'C02'},
    I: {'convert': 'C09', 'convert_rationals_to_ints': 'C09', 'convert_back': 'C09', 'ts': 'C09 C02', 'vts': 'C09 C01'},
    X: {'': 'C10'}, G: {'': 'C11'}, E: {'': 'C13 C12 C15 C16'}, C: {'': 'C14 C16'},
    M: {'_c_full_assignment': 'C17', 'complex_extend': 'C17 C22', 'complex_full': 'C17 C22', 'r_full_assignment': 'C18', 'real_extend': 'C18 C21', 'real_full': 'C18 C21',
        'muchnik_sequence': 'C17 C18', '_diagram_copy': 'C17 C18', 'c_assignment_all_zero': 'C17', '_r_full_assignment': 'C18', '_poly_deg_key': 'C17 C18', '_poly_deg_key_helper': 'C17 C18',
        'complex_partial': 'C22', 'real_partial': 'C21', 'r_assignment_all_zero': 'C18 C21'},
    H: {f: 'C19 C21' for f in ('real_full', '_real_table', 'extend_single_table', 'table_map_back', 'sign_context_lookup', 'get_initial_table', 'expand_context', 'copy_table', 'table_lookup')},
    W: {'': 'C20'}, WC: {'': 'C20'},
    GS: {'RCF_Atom': 'C24', 'RCF_Goal': 'C24', 'ProjOrd': 'C26', 'QE_Factory': 'C26 C25', 'RCF_GD_Decide': 'C27 C28 C24',
         'iso_root_intvls': 'C25', 'k_random_sps': 'C25', 'sector_sps': 'C25 C26', 'promote_right': 'C24', 'bad_subsets_on_dict': 'C27 C28', 'good_hyps': 'C27 C28', 'weight_hyps': 'C27'},
    SM: {'ParseSMT': 'C23', 'SMTContext': 'C23 C28', 'perform_grf': 'C28'}, LS: {'': 'C29'},
}
SWAP = {'<': ['<=', '>'], '<=': ['<'], '>': ['>=', '<'], '>=': ['>'], '==': ['!='], '!=': ['=='], '+': ['-'], '-': ['+'], '*': ['+'], '/': ['*'], '%': ['*'],
        'and': ['or'], 'or': ['and'], 'True': ['False'], 'False': ['True'], 'min': ['max'], 'max': ['min'], 'not': [''], 'break': ['continue', 'pass'], 'continue': ['pass'],
        'append': ['remove'], 'filter': ['map'], 'extend': ['append'], 'any': ['all'], 'all': ['any'], '+=': ['-='], '-=': ['+='], '&': ['|'], '|': ['&'], 'reverse': ['sort'],
        'update': ['clear'], 'copy': ['copy'], 'lt': ['le'], 'le': ['lt'], 'eq': ['lt'], 'ne': ['eq']}


def owners(lines):
    """function or class names that a line belongs to, innermost first"""
    out, stack = [], []
    for l in lines:
        m = re.match(r'( *)(def|class) +(\w+)', l)
        if l.strip() and not l.strip().startswith('#'):
            ind = len(l) - len(l.lstrip())
            while stack and stack[-1][0] >= ind:
                stack.pop()
        if m:
            stack.append((len(m.group(1)), m.group(3)))
        out.append([n for _, n in reversed(stack)])
    return out


def sites(path, text):
    lines = text.split('\n')
    own = owners(lines)
    out = []

    def checks(row):
        if row >= len(own):
            return None
        for n in own[row] + ['']:
            if n in MAP[path]:
                return MAP[path][n]
    stop = len(lines)
    try:
        for t in tokenize.generate_tokens(io.StringIO(text).readline):
            r, c = t.start[0] - 1, t.start[1]
            q = checks(r)
            s = lines[r].strip() if q else ''
            if q is None or s.startswith(('print', 'import', 'from', 'def', 'class', '@')):
                continue
            if t.type in (tokenize.OP, tokenize.NAME) and t.string in SWAP:
                for n in SWAP[t.string]:
                    if t.string in ('lt', 'le', 'eq', 'ne') and lines[r][c - 1:c] == '.':
                        continue
                    out.append((r, c, t.string, n, q))
            elif t.type == tokenize.NUMBER and re.match(r'\d+$', t.string):
                out.append((r, c, t.string, str(int(t.string) + 1), q))
                if t.string != '0':
                    out.append((r, c, t.string, str(int(t.string) - 1), q))
    except (tokenize.TokenError, IndentationError, SyntaxError):
        pass
    for r, l in enumerate(lines[:stop]):
        q = checks(r)
        if q and re.match(r' +[\w.\[\]]+(\(|\.\w+\(| *=[^=]| *\+=).*[)\w\]]$', l) and l.count('(') == l.count(')') and l.count('[') == l.count(']') and not l.strip().startswith(('print', 'def', 'return', 'if', 'for', 'while', 'elif')):
            out.append((r, len(l) - len(l.lstrip()), l.strip(), 'pass', q))
        if q and re.match(r' +(if|elif) .*:$', l):
            k = l.index('if') + 2
            out.append((r, k, l[k:-1], ' False', q))
    return out


def main():
    out, sd, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    rnd = random.Random(sd)
    want = dict((a.split(':') + [''])[:2] for a in sys.argv[4:]) or {f: '' for f in MAP}
    pool = []
    for path in sorted(want):
        text = open(os.path.join(S.REPO, path), newline='').read()
        fs = [f for f in want[path].split(',') if f]
        own = owners(text.replace('\r\n', '\n').split('\n'))
        pool += [(path,) + s for s in sites(path, text.replace('\r\n', '\n')) if not fs or set(fs) & set(own[s[0]])]
    rnd.shuffle(pool)
    print(len(pool), 'sites', flush=True)
    done = set()
    if os.path.exists(out):
        done = set((d['path'], d['row'], d['old'], d['new'], d['col']) for d in map(json.loads, open(out)))
    for path, r, c, old, new, q in pool:
        if count <= 0:
            break
        if (path, r, old, new, c) in done:
            continue
        p = os.path.join(S.REPO, path)
        text = open(p, newline='').read()
        nl = '\r\n' if '\r\n' in text else '\n'
        lines = text.split(nl)
        assert lines[r][c:c + len(old)] == old, (path, r, c, old, lines[r])
        was = lines[r]
        lines[r] = was[:c] + new + was[c + len(old):]
        rec = {'path': path, 'row': r, 'col': c, 'old': old, 'new': new, 'line': was.strip(), 'now': lines[r].strip(), 'checks': q}
        try:
            open(p, 'w', newline='').write(nl.join(lines))
            if path.startswith('vts/'):
                try:
                    miss = S.tests()
                except Exception as e:
                    miss = [str(e)]
                if miss:
                    rec['result'] = 'tests'
            if 'result' not in rec:
                rec['result'] = 'SURVIVED'
                for k in q.split():
                    v = S.sh('./check', k, cwd=S.ROOT, env=dict(os.environ, VERIF_REPO=S.REPO, PBT_SHRINK='1'))
                    rec.setdefault('runs', []).append([k, v.returncode, v.stdout.split('\n')[0][:100]])
                    if v.returncode == 1:
                        rec['result'] = k
                        rec['message'] = v.stdout.splitlines()[-2][:200]
                        break
                    if v.returncode:
                        rec['result'] = 'ERROR %d' % v.returncode
                        rec['message'] = v.stdout[-600:]
                count -= 1
        finally:
            S.sh('git', '-C', S.REPO, 'checkout', '--', '.')
        open(out, 'a').write(json.dumps(rec) + '\n')
        print(rec['result'], path, r + 1, '|', rec['line'][:70], '=>', rec['now'][:70], flush=True)


main()
