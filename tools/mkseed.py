"""mkseed.py <id> <prop> <file> (reads old/new from stdin separated by lines '=====' and '-----' between pairs): writes patch.diff"""
import sys, subprocess, os, json, tempfile
id, prop, needs, breaks = sys.argv[1:5]
d = '/verif/seeded/' + id; os.makedirs(d, exist_ok=True)
work = '/tmp/seedwork'
if not os.path.isdir(work): subprocess.check_call(['git', 'clone', '-q', '/repo', work])
subprocess.check_call(['git', '-C', work, 'fetch', '-q', '/repo', 'HEAD']); subprocess.check_call(['git', '-C', work, 'checkout', '-q', '-f', 'FETCH_HEAD'])
for blk in sys.stdin.read().split('\n-----\n'):
    head, rest = blk.lstrip('\n').split('\n', 1)
    old, new = rest.split('\n=====\n') if '\n=====\n' in rest else rest.split('=====\n')
    new = new.rstrip('\n'); old = old.rstrip('\n')
    p = os.path.join(work, head.strip()); s = open(p).read()
    assert s.count(old) == 1, (head, s.count(old))
    open(p, 'w').write(s.replace(old, new))
diff = subprocess.check_output(['git', '-C', work, 'diff'], text=True)
open(d + '/patch.diff', 'w').write(diff)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
subprocess.check_call(['git', '-C', work, 'checkout', '-q', '-f', '.'])
print(diff)
