import json, sys, collections
seen = set(open('/tmp/sweep/seen').read().split('\n')) if __import__('os').path.exists('/tmp/sweep/seen') else set()
c = collections.Counter(); new = []
for l in open('/tmp/sweep/results.jsonl'):
    d = json.loads(l); r = d['result'].split()[0]; c[d['file'], r] += 1
    k = f"{d['file']} {d['site']}"
    if r not in ('tests', 'caught', 'no') and k not in seen:
        print(d['file'], d['site'], 'L', d['line'], d['what'][:200], '=>', d['result'][:200], d['s']); new.append(k)
for f in sorted({k[0] for k in c}): print(f, {k[1]: v for k, v in c.items() if k[0] == f})
open('/tmp/sweep/seen', 'a').write('\n'.join(new) + '\n')
