#!/usr/bin/env python3
# Reference code page tables from Python's codecs (not from the repository).
# Entry 0xFFFF: position undefined in the standard, not constrained.
import os
names = ['cp437', 'cp850', 'cp858', 'dd', 'cp1250', 'cp1251', 'cp1252', 'cp1253', 'cp1254', 'cp1255', 'cp1256', 'cp1257', 'cp1258'] + \
        ['iso8859_%d' % i for i in (2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 15, 16)] + ['mac_roman', 'koi8_r', 'koi8_u', 'koi8_ru']
# POSIX dd conv=ascii (EBCDIC to ASCII/Latin-1), the table the manual's EBCDIC refers to
import subprocess
dd = subprocess.run(['dd', 'conv=ascii', 'status=none'], input=bytes(range(256)), stdout=subprocess.PIPE, check=True).stdout
rows = []
for n in names:
    t = []
    for i in range(256):
        if n == 'dd':
            u = dd[i] if i not in (0x4A, 0x4F, 0x5A, 0x5F, 0x6A, 0x9A, 0xA1, 0xAD, 0xBD) else 0xFFFF  # positions where EBCDIC tables differ
        else:
            m = 'koi8_u' if n == 'koi8_ru' else n
            try: u = ord(bytes([i]).decode(m))
            except UnicodeDecodeError: u = 0xFFFF
        if n == 'koi8_ru':
            u = {0x93: 0x201C, 0x96: 0x201D, 0x97: 0x2014, 0x98: 0x2116, 0x99: 0x2122, 0x9B: 0xBB, 0x9C: 0xAE, 0x9D: 0xAB,
                 0x9F: 0xA4, 0xAE: 0x45E, 0xBE: 0x40E}.get(i, u)
        if n == 'mac_roman' and i == 13: u = 10   # documented CR to LF translation
        if n == 'cp437' and (i < 32 and i not in (0, 9, 10, 11, 12, 13) or i == 127): u = 0xFFFF  # control or glyph: both usual
        t.append(u)
    rows.append((n, t))
out = '// generated by tools/gen_cptab.py from Python codecs\nstatic const unsigned short CPTAB[31][256] = {\n'
for n, t in rows:
    out += '  // %s\n  {' % n + ','.join(str(x) for x in t) + '},\n'
out += '};\n'
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'cptab.h'), 'w').write(out)
