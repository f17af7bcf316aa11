"""DESIGN.md = design_head.md + one section per property + seeded bugs + findings."""
import glob, json, os
H = os.path.dirname(os.path.abspath(__file__))
def write(PROPS):
    o = [open(H + '/design_head.md').read(), '## Properties\n']
    seeds = {}
    for d in sorted(glob.glob(H + '/seeded/*/meta.json')):
        m = json.load(open(d)); m['id'] = d.split('/')[-2]; seeds.setdefault(m['property'], []).append(m)
    for p in sorted(PROPS, key=lambda p: p['id']):
        c = p['check']
        o.append('### %s - %s\n\n%s\n' % (p['id'], p['title'], p['statement']))
        if not c: o.append('*Not applicable to static analysis here:* %s\n' % p['na']); continue
        o.append('* **Decided by** (%s): %s.' % (', '.join('`%s`' % x for x in c['checks']), c['technique']))
        o.append('* **Obligation:** %s.' % c['rule'].rstrip('.'))
        o.append('* **Analysed, reported in the evidence:** %s' % c['explanation'])
        o.append('* **Quantifies over:** %s.' % p['quant'])
        o.append('* **Bounds and precision:** %s' % c['note'])
        o.append('* **Beyond the tests:** %s.' % p['why'].rstrip('.'))
        if c['assumptions']: o.append('* **Assumes:** %s.' % '; '.join(c['assumptions'][2:] or ['nothing beyond the common assumptions']))
        if seeds.get(p['id']): o.append('* **Planted bugs caught:** ' + '; '.join('%s (%s)' % (m['id'], m['what_it_breaks']) for m in seeds[p['id']]) + '.')
        o.append('')
    o.append('## Defects found\n\nFrom `known_findings.txt`; `fixed` entries name the /repo commit and suppress nothing.\n')
    o += ['* ' + l.strip() for l in open(H + '/known_findings.txt') if l.strip() and not l.startswith('#')]
    t = '\n'.join(o) + '\n'
    tail = H + '/design_tail.md'
    if os.path.exists(tail): t += '\n' + open(tail).read()
    open(H + '/DESIGN.md', 'w').write(t)
