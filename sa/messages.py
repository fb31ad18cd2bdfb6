"""Compiler diagnostics of a probe build: where each error is."""
import json, sys

def errors(path):
    """[(file, line, text)] of the errors; macro expansions are followed to the place they were invoked from"""
    out = []
    for l in open(path):
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get('reason') != 'compiler-message' or m['message'].get('level') != 'error':
            continue
        x = m['message']
        sp = [s for s in x.get('spans', []) if s.get('is_primary')]
        if not sp:
            if x['message'].startswith(('aborting due to', 'could not compile')): continue
            out.append((None, 0, x.get('rendered') or x['message']))
            continue
        s = sp[0]
        while s.get('expansion') and not s['file_name'].endswith(('gen.rs', 'gen41.rs')):
            s = s['expansion']['span']
        while s.get('expansion') and s['expansion']['span']['file_name'] == s['file_name']:
            s = s['expansion']['span']
        out.append((s['file_name'], s['line_start'], x.get('rendered') or x['message']))
    return out

if __name__ == '__main__':
    es = errors(sys.argv[1])
    print('%d errors' % len(es))
    for f, l, t in es[:10]:
        print('%s:%s\n%s' % (f, l, t[:1200]))
