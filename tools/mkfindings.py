"""Writes /verif/known_findings.json: the defects repaired in /repo"""
import json
import os
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# start of the subject of the commit: property
PROPS = [
    ('reorder A regressors', 'C05'), ('do not sample triplet', 'C06'),
    ('store the triplets in a type', 'C01'), ('look up block values', 'C04'),
    ('compute_nb_levels used', 'C02'), ('ignore the by blocks', 'C04'),
    ('a column used as a filter', 'C04'), ('loading an auxiliary', 'C17'),
    ('keep features aligned', 'C17'), ('distance job boundaries', 'C07'),
    ('mark the distance file', 'C08'), ('do not reset the done', 'C18'),
    ('release the distance file lock', 'C08'),
    ('frame metrics must not', 'C12'), ('rounding errors in the', 'C13'),
    ('verify could not', 'C19'), ('give the example distances', 'C13'),
    ('the optional score file', 'C23'), ('decode the collapsed', 'C10'),
    ('read the header of the results', 'C10'),
    ('group triplets by regressors with integer', 'C06'),
    ('number of levels with several', 'C02'),
    ('raw and fused datasets', 'C21'), ('write the raw datasets', 'C21'),
    ('the incremental sampler', 'C16'), ('incremental sampling of', 'C16'),
    ('labels which are not in ASCII', 'C01'),
    ('generic filters can also', 'C04'),
    ('the order of the across regressors', 'C06'),
    ('group triplets by regressors when', 'C06'),
    ('detect regressor combinations', 'C10'),
    ('Jensen-Shannon divergence of', 'C12'), ('square root of', 'C12'),
    ('Hellinger distance of', 'C12'), ('different frames with', 'C13'),
]


def main():
    log = subprocess.run(
        ['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'],
        stdout=subprocess.PIPE, check=True).stdout.decode()
    out = []
    more = os.path.join(VERIF, 'tools', 'fixes.txt')
    props = list(PROPS)
    if os.path.exists(more):
        for line in open(more):
            if line.strip():
                i, start = line.strip().split(' ', 1)
                props.append((start, i))
    for line in log.splitlines():
        h, subject = line.split(' ', 1)
        if not subject.startswith('fix: '):
            continue
        subject = subject[5:]
        p = [i for start, i in props if subject.startswith(start)]
        assert len(p) == 1, (subject, p)
        out.append({'property': p[0], 'status': 'fixed', 'commit': h,
                    'what': subject,
                    'line': 'fixed: property=%s %s %s' % (p[0], h, subject)})
    with open(os.path.join(VERIF, 'known_findings.json'), 'w') as f:
        json.dump({'findings': out}, f, indent=1)
        f.write('\n')
    print(len(out))


main()
