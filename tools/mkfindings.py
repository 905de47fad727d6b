"""Rewrites the "fixed:" lines of known-findings.txt from /repo's history."""
import os
import re
import subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [  # (words of the commit subject, properties)
    ('own false text', 'C05'), ('iterators of plain', 'C30'),
    ('Genshi:', 'C30'),
    ('set_by_object fills', 'C32'), ('Generator.tag()', 'C28'),
    ('Generator.set()', 'C29'), ('checkboxes and radio', 'C28'),
    ('with markup values', 'C28'),
    ('Ref follows', 'C26'), ('JoinedString.set returns', 'C25'),
    ('Ref without a default', 'C26'),
    ('negative indexes', 'C07'), ("List.sort's", 'C07'),
    ('may stop at 0', 'C14'), ('well formed path', 'C15'),
    ('finds the parent element', 'C14'), ('fq_name', 'C13'),
    ('default text', 'C37'), ('bracketed text', 'C15'),
    ('recurse=False', 'C16'), ('any indexable state', 'C21'),
    ('selects a plural', 'C21'), ("MapEqual's", 'C19'),
    ('length validators', 'C20'), ('used DateYYYYMMDD', 'C22'),
    ('path cache', 'C15'), ('NANPphone', 'C35'), ('List.pop', 'C07'),
    ('List item assignment', 'C07'), ('Sequence item assignment', 'C08'),
    ('added to a Sequence', 'C08'), ('keys that stop', 'C03'),
    ('Array.set_flat', 'C02'), ('whole name', 'C02'),
    ('undecodable', 'C04'), ('anonymous Array', 'C02'),
    ('can be set to None', 'C24'), ('DateYYYYMMDD.set returns', 'C24'),
    ('JoinedString.set', 'C25'), ('JoinedString prunes', 'C25'),
    ('record the raw', 'C25'), ('children_flattenable', 'C01'),
    ('can not be compared', 'C04'), ('luhn10', 'C33'), ('Visa', 'C33'),
    ('CreditCardNumber', 'C33'), ('AcceptedType', 'C33'),
    ('properties pop', 'C23'), ('HTTPURLValidator', 'C34'),
    ('IsEmail', 'C34'), ('set_by_object', 'C32'), ('signaling', 'C04'),
    ('member-only keys', 'C03'), ('either integer', 'C05'),
]


def main():
    path = os.path.join(HERE, 'known-findings.txt')
    keep = []
    if os.path.exists(path):
        keep = [l for l in open(path) if not l.startswith('fixed:')]
    log = subprocess.check_output(
        ['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'],
        text=True).splitlines()
    out = list(keep)
    for line in log:
        h, s = line.split(' ', 1)
        if not s.startswith('fix: '):
            continue
        s = s[5:]
        hit = [p for w, p in PROP if w in s]
        if not hit:
            raise SystemExit('no property for %r' % s)
        out.append('fixed: property=%s %s %s\n' % (
            hit[0], h, s))
    open(path, 'w').writelines(out)


main()
