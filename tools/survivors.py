"""Print the diff of every surviving mutant of a campaign (development aid)."""
import ast, difflib, json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
import mutate
sub = sys.argv[2] if len(sys.argv) > 2 else ''
for l in open(sys.argv[1]):
    m = json.loads(l)
    if m['caught'] or sub not in m['file'] + ':' + m['fn']:
        continue
    path = os.path.join(mutate.REPO, m['file'])
    a = ast.parse(open(path).read())
    b = ast.parse(open(path).read())
    s = mutate.sites(b)
    if m['k'] >= len(s) or s[m['k']][0] != m['what']:
        continue
    s[m['k']][3]()
    ast.fix_missing_locations(b)
    d = [x[:150] for x in difflib.unified_diff(ast.unparse(a).splitlines(), ast.unparse(b).splitlines(), n=0, lineterm='')
         if not x.startswith(('---', '+++', '@@'))]
    print(m['file'].split('/')[-1][:-3], m['fn'], m['line'], m['what'], ','.join(m['checks']))
    for x in d[:4]:
        print('    ' + x[0] + x[1:].strip())
